"""What each property's check runs: tests, numbers of generated cases, non-triviality rules."""

TABLE = {
    "C01": dict(level="exploration", rule="random value trees (all kinds, boundary lengths, graph structures) given in random Go types; non-trivial: not nil, a bool, an empty collection or a string of at most 15 bytes",
                tests=[dict(test="TestC01RoundTrip", quick=16000, thorough=400000, shards=8)]),
    "C02": dict(level="exploration", rule="1-3 messages or values encoded with a generated chunk size; non-trivial: more than one chunk or a structured value",
                tests=[dict(test="TestC02Wire", quick=12000, thorough=300000, shards=8),
                       dict(test="TestC02Deep", quick=60, thorough=1500, shards=1)]),
    "C03": dict(level="exploration", rule="1-4 messages in generated (non-minimal) representation, chunk splits and read fragmentation; non-trivial: anything but a single minimal unfragmented message",
                tests=[dict(test="TestC03AnyEncoding", quick=12000, thorough=300000, shards=8)]),
    "C04": dict(level="exploration", rule="random bytes, truncations, mutations, oversized lengths, type-confused structures; exhaustive cuts and byte settings of generated messages; non-trivial: the reference decoder rejects it",
                tests=[dict(test="TestC04Malformed", quick=12000, thorough=200000, shards=5),
                       dict(test="TestC04EveryCut", quick=600, thorough=16000, shards=2),
                       dict(test="TestC04Deep", quick=40, thorough=400, shards=1)]),
    "C05": dict(level="exploration", rule="a generated request (exec, query, pipeline at a generated position, chunk size) with a value that cannot be encoded planted at a generated place; every case is non-trivial",
                tests=[dict(test="TestC05Unencodable", quick=12000, thorough=80000, shards=7),
                       dict(test="TestC05Uint", quick=300, thorough=4000, shards=1)]),
    "C06": dict(level="exploration", rule="generated statement text, parameters, columns, records and summary through a generated call; results of up to 65,539 records; non-trivial: any parameter or record",
                tests=[dict(test="TestC06Transport", quick=16000, thorough=100000, shards=8),
                       dict(test="TestC06Long", quick=400, thorough=20000, shards=2)]),
    "C07": dict(level="exploration", rule="model-based call sequences on one connection against the protocol server, of up to 40 calls of all kinds and up to 1,027 simple ones; non-trivial: at least four calls with traffic",
                tests=[dict(test="TestC07Sessions", quick=16000, thorough=100000, shards=8),
                       dict(test="TestC07Long", quick=200, thorough=10000, shards=2)]),
    "C08": dict(level="exploration", rule="call sequences dominated by pipelines of 1-80 queries, failures inside, rows closed anywhere; single pipelines of up to 400 queries; non-trivial: at least one pipeline",
                tests=[dict(test="TestC08Pipelines", quick=16000, thorough=100000, shards=8),
                       dict(test="TestC08Long", quick=800, thorough=40000, shards=2)]),
    "C09": dict(level="exploration", rule="call sequences in which a generated number of requests fail on run, after records, in pipelines, in transactions, with refused ack or reset; non-trivial: at least one failure served",
                tests=[dict(test="TestC09Failures", quick=16000, thorough=100000, shards=8)]),
    "C10": dict(level="exploration", rule="call sequences dominated by begin/commit/rollback/close with failures; non-trivial: at least one transaction",
                tests=[dict(test="TestC10Transactions", quick=16000, thorough=100000, shards=8)]),
    "C20": dict(level="exploration", rule="generated summaries, statistics of every type and missing/ill-typed field lists; non-trivial: statistics or fields present",
                tests=[dict(test="TestC20Accessors", quick=16000, thorough=100000, shards=8)]),
    "C22": dict(level="exploration", rule="call sequences dominated by calls on closed or busy objects; non-trivial: at least one such call",
                tests=[dict(test="TestC22Refusals", quick=16000, thorough=100000, shards=8)]),
    "C11": dict(level="exploration", rule="a generated history run without and with a FIN/RST at a generated byte of the server's output or input; every case is non-trivial",
                tests=[dict(test="TestC11Loss", quick=6000, thorough=120000, shards=8)]),
    "C12": dict(level="exploration", rule="a generated history with a stall past the timeout at a generated byte, or an undecodable / out-of-place response at a generated place, or a request written in part; non-trivial: the connection broke",
                tests=[dict(test="TestC12Late", quick=2400, thorough=50000, shards=4),
                       dict(test="TestC12Undecodable", quick=4000, thorough=100000, shards=2),
                       dict(test="TestC12Replaced", quick=6000, thorough=100000, shards=2),
                       dict(test="TestC12Write", quick=120, thorough=4000, shards=2)]),
    "C13": dict(level="exploration", rule="1-7 goroutines with generated histories sharing a pool of 1-4; non-trivial: more than one goroutine",
                tests=[dict(test="TestC13Pool", quick=2400, thorough=60000, shards=8)]),
    "C14": dict(level="exploration", rule="model-based histories of taking, using, breaking, returning pooled connections with server faults; non-trivial: connections reused",
                tests=[dict(test="TestC14Pool", quick=6000, thorough=120000, shards=8)]),
    "C15": dict(level="exploration", rule="pools closed in generated states with holders, waiters and opens in progress; connections closed after generated faults; non-trivial: something was open",
                tests=[dict(test="TestC15PoolClose", quick=3000, thorough=90000, shards=2),
                       dict(test="TestC15Opening", quick=2000, thorough=60000, shards=2),
                       dict(test="TestC15ConnClose", quick=1500, thorough=30000, shards=3),
                       dict(test="TestC15FailedOpen", quick=1600, thorough=30000, shards=2)]),
    "C16": dict(level="exploration", rule="generated credentials, handshake replies, fragmentation and INIT answers; every case is non-trivial",
                tests=[dict(test="TestC16Open", quick=12000, thorough=240000, shards=8)]),
    "C17": dict(level="exploration", rule="generated connection strings, valid and invalid; every case is non-trivial",
                tests=[dict(test="TestC17URL", quick=16000, thorough=300000, shards=7),
                       dict(test="TestC17Timeout", quick=6, thorough=200, shards=1, shrink="20s")]),
    "C18": dict(level="exploration", rule="generated combinations of server certificate, host name, CA, client certificate, verification switch; non-trivial: TLS requested",
                tests=[dict(test="TestC18TLS", quick=8000, thorough=160000, shards=8)]),
    "C25": dict(level="exploration", rule="1-10 concurrent sessions per case against servers that stop answering at a generated point, or answer slowly; every session is non-trivial",
                tests=[dict(test="TestC25Stall", quick=120, thorough=3000, shards=5, shrink="30s"),
                       dict(test="TestC25Patient", quick=36, thorough=800, shards=2, shrink="30s"),
                       dict(test="TestC25Default", quick=1, thorough=8, shards=1, tshards=2, shrink="1s")]),
    "C19": dict(level="exploration", rule="model-based histories of database/sql calls (db, conn, tx, stmt; driver and pool) with server failures and losses; non-trivial: a statement ran",
                tests=[dict(test="TestC19SQL", quick=4800, thorough=100000, shards=8)]),
    "C21": dict(level="exploration", rule="generated chains of wrapped errors, also of generated server failures; non-trivial: a wrapped chain or a failure",
                tests=[dict(test="TestC21Wrap", quick=4000, thorough=200000, shards=1),
                       dict(test="TestC21Failure", quick=8000, thorough=100000, shards=7)]),
    "C23": dict(level="exploration", rule="generated histories recorded against the protocol server in generated pieces and replayed, identically or changed, or recorded against a server that is lost, stops answering or stops reading; non-trivial: every replayed case, every case where the loss was noticed",
                tests=[dict(test="TestC23Record", kind="inpkg", quick=3500, thorough=60000, shards=7),
                       dict(test="TestC23Faults", kind="inpkg", quick=2000, thorough=40000, shards=4),
                       dict(test="TestC23Unread", kind="inpkg", quick=24, thorough=600, shards=2),
                       dict(test="TestC23NoPlace", kind="inpkg", quick=200, thorough=4000, shards=1)]),
    "C24": dict(level="exploration", rule="generated sequences of level settings and messages against a model; the same generated history at every log level; non-trivial: something logged",
                tests=[dict(test="TestC24Levels", quick=16000, thorough=300000, shards=2),
                       dict(test="TestC24Sessions", quick=3600, thorough=60000, shards=6)]),
    "C26": dict(level="exploration", rule="2-8 goroutines with generated histories on connections of their own, a shared driver, pool, sql.DB, log and parameters, under the race detector; every case is non-trivial",
                tests=[dict(test="TestC26Race", kind="race", quick=1600, thorough=40000, shards=8)]),
}
