#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": hook}})

prop("C01", "Marshalled values come back unchanged",
 "For every value the driver accepts (nil, booleans, every integer width, floats, strings, lists, string-keyed maps, nodes, relationships, paths, arbitrarily nested), marshalling and then unmarshalling gives the same value in the driver's normal form: integers as int64, floats as float64 with the same bits, any slice as a list, maps with exactly the same keys and values. No size is special: strings, lists and maps of any length, including those around 15/16, 127/128, 255/256, 32767/32768 and 65535/65536 elements, survive.",
 ["inputs"], "all encodable values of any nesting, with collection and string lengths on both sides of every size class",
 "The encoder tests compare a few random small scalars and slices with hand-written bytes and never decode; the recordings hold a handful of fixed values and skip lengths 128-255 and 32768-65535.",
 ["encoding/encoder.go", "encoding/decoder.go", "encoding/util.go", "structures/graph/*.go"],
 [("size-class switch of each encoder", "encoding/encoder.go"), ("marker dispatch", "encoding/decoder.go")],
 ["encoding.Marshal / encoding.Unmarshal"])

prop("C02", "Encoded messages are well-formed, minimal Bolt wire format",
 "For every encodable value and every configured maximum chunk size, the bytes written are a valid chunked message (non-empty chunks, none longer than the configured maximum, one terminating zero chunk) whose payload, read by an independent implementation of the format, is exactly that value. Every integer and every length prefix uses the smallest representation the format offers.",
 ["inputs", "configurations"], "all encodable values and message types times all chunk sizes",
 "Replay only counts written bytes, so wrong bytes of the right length pass; one chunk size is used per test and no message spans more than two maximum-size chunks in one write.",
 ["encoding/encoder.go", "structures/messages/*.go", "conn.go"],
 [("chunking writer and final flush", "encoding/encoder.go"), ("chunk size setting", "conn.go SetChunkSize")],
 ["bytes given to the io.Writer of encoding.NewEncoder", "bytes a server receives"])

prop("C03", "Any valid encoding decodes, however chunked or fragmented",
 "For every value and every valid wire representation of it (minimal or not), split into chunks at any positions and delivered by the transport in pieces of any size, decoding returns that value. Each decode consumes exactly one message, so a stream of messages decodes to the same values in the same order.",
 ["inputs", "schedules"], "all valid encodings times all chunk splits times all read fragmentations",
 "Replay feeds each recorded message with the read sizes the decoder asks for; the chunking and the marker choices are the ones one server made once.",
 ["encoding/decoder.go", "encoding/util.go"],
 [("chunk reassembly", "encoding/decoder.go read/readData"), ("marker dispatch", "encoding/decoder.go decode")],
 ["encoding.NewDecoder over an io.Reader", "values returned by the query API"])

prop("C04", "Malformed data is rejected cleanly, never misread or fatal",
 "For every byte string, decoding returns either a value or an error: it never panics, never loops, and never allocates out of proportion to the input. Data that is truncated, has a length prefix larger than what follows, uses an unknown marker or structure, or has a field of the wrong type yields an error that is not the clean end-of-stream marker, never a shortened or made-up value.",
 ["inputs"], "all byte strings, in particular every truncation and single mutation of valid messages",
 "No existing test decodes malformed data.",
 ["encoding/decoder.go", "encoding/util.go", "util.go", "rows.go"],
 [("error returns of the decode functions", "encoding/decoder.go"), ("type checks of structure fields", "encoding/decoder.go, encoding/util.go")],
 ["encoding.Unmarshal, encoding.NewDecoder(..).Decode", "rows returned when a server sends malformed data"])

prop("C05", "Unencodable values are refused without disturbing the session",
 "A value that has no faithful wire representation (an unsupported type, or an integer above the int64 maximum) anywhere inside the parameters makes the call return an error. Nothing of the refused request reaches the server, whatever the size of the message around it and, in a pipeline, whichever query it belongs to, and the connection goes on to answer later calls correctly.",
 ["inputs", "histories"], "all positions of an unencodable value in a parameter tree, message size, API entry point and place in a pipeline",
 "No existing test passes an unsupported value to a connection.",
 ["encoding/encoder.go", "conn.go", "stmt.go"],
 [("type switch with error default", "encoding/encoder.go"), ("message buffered before it is sent", "encoding/encoder.go"), ("pipeline send loops", "stmt.go")],
 ["error of Exec/Query calls", "requests a server receives", "results of later calls"])

prop("C06", "Queries and results are transported exactly",
 "Whatever statement text and parameters a caller passes through any of the exec or query calls, the server receives exactly that text and those values once. Whatever columns, records and summary the server sends back, the caller receives exactly those records in that order, once each, followed by the end-of-rows signal with the server's summary metadata, whether rows are read one by one or all at once.",
 ["inputs"], "all statement texts, parameter maps, record streams (any number of rows, columns and value kinds) and entry points",
 "Replay ignores the content of what is written, and reads back about thirty recorded result sets.",
 ["conn.go", "stmt.go", "rows.go", "result.go"],
 [("run/pull/discard exchanges", "conn.go"), ("row iteration", "rows.go")],
 ["Conn.ExecNeo/QueryNeo/QueryNeoAll, Stmt.ExecNeo/QueryNeo, Rows.NextNeo/All/Columns/Metadata", "requests a server receives"])

prop("C07", "A session never mixes up responses, over any history of calls",
 "For every sequence of calls on one connection (queries, statements, pipelines, transactions, rows read to the end, partly or not at all, closed in any legal order, with server failures anywhere), each call returns the outcome of its own request and never data, metadata or errors belonging to another. The driver only sends requests that are legal in the current protocol state, sends each exactly once, and no call waits for a response that will not come.",
 ["histories"], "all call sequences on a connection with all placements of server failures",
 "Each test is one short fixed history; histories that mix failures, early closes, pipelines and transactions are not sampled.",
 ["conn.go", "stmt.go", "rows.go", "tx.go"],
 [("one open statement per connection", "conn.go"), ("drain or discard on close", "rows.go Close"), ("failure acknowledgement", "conn.go consume/ackFailure")],
 ["results of every call", "message sequence a server receives"],
 [("open statement", "statement currently owning the response stream", "conn.go"), ("consumed/finished flags", "how much of the response stream was read", "rows.go")])

prop("C08", "Pipelined queries keep their order and their results",
 "A pipeline of n queries with n parameter maps sends all queries in order before reading any response, and the i-th result or row set is that of the i-th query with the i-th parameters; iteration visits every row set once, in order, and then signals the end. Closing the rows at any point leaves the connection ready for the next query, and a parameter count that differs from the number of queries is refused before anything is sent.",
 ["inputs", "histories"], "all pipeline lengths, result shapes and close positions",
 "Tests use three-query pipelines with one row each and two close positions.",
 ["stmt.go", "rows.go", "conn.go"],
 [("send-all-then-read loops", "stmt.go"), ("pipeline index arithmetic on close", "rows.go Close"), ("hand-over to the next row set", "rows.go NextPipeline")],
 ["Conn/PipelineStmt ExecPipeline and QueryPipeline, PipelineRows.NextPipeline/Close", "order of messages on the wire"])

prop("C09", "Server failures are reported in full and the session recovers",
 "When the server reports a failure at any point of any request (on the run, after any number of records, inside any query of a pipeline, on begin, commit or rollback), the call that reads it returns an error whose innermost error is the failure message with the server's metadata. The failure is acknowledged (by reset if acknowledging is itself refused), the rest of the failed exchange is skipped, and the next call on the same connection works; if the server refuses even the reset, the connection reports errors from then on and is never used again.",
 ["fault_sequences", "histories"], "all failure positions in all exchanges, including refused acknowledgements",
 "Recordings contain failures on the run message of single queries only.",
 ["conn.go", "rows.go", "stmt.go", "tx.go", "structures/messages/failure.go", "errors/errors.go"],
 [("consume/ackFailure/reset", "conn.go"), ("row close after failure", "rows.go")],
 ["errors returned by the API", "ACK_FAILURE/RESET messages a server receives", "results of later calls"])

prop("C10", "Transactions are delimited and finished exactly as requested",
 "Begin, commit and rollback each issue exactly one corresponding request and report success only if the server confirmed it; statements run between them run inside that transaction. A transaction cannot be nested or finished twice, open rows are closed before it is finished, and closing the connection with a transaction still open rolls it back, so work is never left open or committed implicitly.",
 ["histories", "fault_sequences"], "all interleavings of begin, statements, commit, rollback and close, with server failures",
 "Two recordings: one commit, one rollback, both without failures or open rows, and none closing the connection with an open transaction.",
 ["tx.go", "conn.go"],
 [("transaction registered on the connection", "conn.go Begin"), ("statement closed before commit/rollback", "tx.go"), ("rollback on close", "conn.go Close")],
 ["transaction log of a server", "errors of Begin/Commit/Rollback/Close"])

prop("C11", "Connection loss is always reported, never taken for completion",
 "If the transport fails or the server closes the connection at any byte of any exchange, the pending call returns an error whose innermost error is the bad-connection error of the sql driver interface; it never returns normally, never signals a clean end of rows, and never reports a commit as done. Rows read before the fault are the correct first rows.",
 ["fault_sequences", "crash_points"], "all byte positions of a close or reset in all exchanges",
 "Replay cannot lose the connection.",
 ["conn.go", "encoding/decoder.go", "rows.go", "tx.go"],
 [("read/write error mapping", "conn.go Read/Write"), ("error wrapping in the decoder", "encoding/decoder.go")],
 ["errors returned by the API"])

prop("C12", "A connection that broke mid-exchange never delivers stale data",
 "After a timeout, a transport error or an undecodable response, the connection is unusable: every later call on it returns an error promptly without sending anything, and no late or leftover response is ever delivered as the result of another request.",
 ["fault_sequences", "histories", "schedules"], "all stall and corruption points times all later call sequences, with the delayed bytes arriving before or after the next call",
 "Replay has no time and cannot stall or corrupt.",
 ["conn.go"],
 [("recorded connection error", "conn.go connErr")],
 ["results of later calls on the same connection"])

prop("C13", "Pooled connections are exclusive, bounded and isolated",
 "With any number of goroutines sharing a pool of size max, no connection is ever held by two of them at once, no more than max connections are open at any time, and every caller gets exactly the results of its own queries. A caller that finds the pool exhausted waits and is served as soon as a connection is returned.",
 ["schedules", "histories"], "all interleavings of open, use and close by concurrent callers",
 "Every pool test is skipped without a server.",
 ["driver.go", "conn.go"],
 [("buffered channel as free list", "driver.go"), ("reclaim on close", "driver.go reclaim, conn.go Close")],
 ["Conn values returned by OpenPool", "connections and requests a server sees"],
 [("pool channel", "idle connections", "driver.go")])

prop("C14", "The pool only hands out clean, working connections",
 "A connection obtained from the pool is freshly initialised or was returned in a clean state: it carries no unread responses and no open transaction of an earlier user, and it did not fail earlier, fail to initialise or get closed by the server while idle. Every connection handed out gives back its slot exactly once when closed, however often it is closed and whatever went wrong while it was used, so the pool never loses or duplicates capacity.",
 ["histories", "fault_sequences"], "all sequences of use, misuse (unclosed rows, open transactions, double close) and faults between open and close",
 "Every pool test is skipped without a server.",
 ["driver.go", "conn.go"],
 [("reclaim replaces failed connections", "driver.go"), ("liveness probe on open", "driver.go"), ("close drains and rolls back", "conn.go Close")],
 ["results of the next user of the pool", "INIT/RUN sequence per connection at a server"])

prop("C15", "Closing releases sockets; a closed pool stays closed",
 "Closing a connection or a pool closes the network connections behind it, also after errors, and a failed open leaves none behind; a connection that broke is closed when the pool replaces it, and closing the pool then reports no error for it. After a pool is closed every open fails promptly, including those already waiting or still connecting, and closing connections taken from it earlier is harmless.",
 ["histories", "fault_sequences"], "all histories of opens, failures, closes and pool closes",
 "The pool tests are skipped, and replay has no sockets.",
 ["driver.go", "conn.go"],
 [("pool close", "driver.go Close"), ("close", "conn.go Close"), ("initialise error paths", "conn.go initialize")],
 ["open connections seen by a server", "errors of OpenPool after close"])

prop("C16", "Opening succeeds exactly when server and credentials agree",
 "Opening a connection sends the Bolt preamble with the offered versions and then exactly one initialisation carrying the client name and the credentials of the URL (basic scheme with exact user and password, or none without a user), and succeeds if and only if the server picks an offered version and accepts the initialisation. Any other answer, in whatever fragments it arrives, makes opening fail with an error, and a refused initialisation is reported with the server's failure metadata.",
 ["inputs", "fault_sequences"], "all handshake answers, fragmentations, initialisation answers and credentials",
 "Recordings hold one successful, unauthenticated, unfragmented handshake.",
 ["conn.go", "driver.go", "structures/messages/init.go"],
 [("handshake", "conn.go handShake"), ("initialise", "conn.go initialize/sendInit")],
 ["bytes a server receives", "error of Open/OpenNeo/OpenPool"])

prop("C17", "Connection strings mean what they say",
 "For every connection string with the bolt scheme (in any letter case), host, optional user:password with any percent-encoded characters and the documented options, the driver connects to that host and uses exactly those settings. A different scheme, a user without password, an unparsable URL or a non-integer timeout is refused with an error before any connection is made.",
 ["inputs", "configurations"], "all connection strings",
 "One test parses five fixed strings.",
 ["conn.go"],
 [("parseURL", "conn.go")],
 ["address, credentials and TLS use a server sees", "error of OpenNeo"])

prop("C18", "TLS settings are enforced",
 "When TLS is requested the driver never sends protocol data or credentials in the clear and talks only to a server whose certificate verifies against the configured CA and host name, unless verification was explicitly switched off; the configured client certificate is presented. When TLS is not requested no TLS is used, and a CA, certificate or key file that is missing or unusable makes opening fail.",
 ["configurations", "inputs"], "all combinations of TLS options, certificates and server behaviours",
 "No test opens a TLS connection.",
 ["conn.go"],
 [("tlsConfig/createConn", "conn.go")],
 ["bytes and TLS state at a server", "error of OpenNeo"])

prop("C19", "The database/sql interface gives the same results",
 "Through database/sql, a parameter map marshalled to bytes reaches the server as that map (several maps merge, later ones winning), scalars scan to the values the native interface returns and structured values scan to bytes that unmarshal to them; arguments that are not marshalled maps, and rows with another number of values than the result has columns, are an error. Exec reports the same affected-row count, transactions behave alike, no statement is sent twice for one call, and after a connection breaks the database handle recovers by itself.",
 ["inputs", "histories", "fault_sequences"], "all parameter maps, result sets and call sequences through database/sql",
 "The only database/sql test is skipped without a server.",
 ["conn.go", "stmt.go", "rows.go", "util.go", "driver.go"],
 [("driverArgsToMap", "util.go"), ("Next conversion", "rows.go"), ("sql registration", "driver.go init")],
 ["database/sql results", "requests a server receives"])

prop("C20", "Result accessors report the server's metadata faithfully",
 "For every summary the server can send, the affected-row count is the sum of nodes and relationships created and deleted (zero when there are no statistics, an error and never a panic when they are not numbers), the last insert id is -1, and metadata is returned unchanged. Column names are the server's field list in order, empty when absent or not a list of strings.",
 ["inputs"], "all summary and run metadata",
 "Tests check a few recorded summaries.",
 ["result.go", "rows.go"],
 [("RowsAffected", "result.go"), ("Columns", "rows.go")],
 ["Result.RowsAffected/LastInsertId/Metadata, Rows.Columns/Metadata"])

prop("C21", "Wrapped errors keep their cause and their messages",
 "However deeply an error is wrapped, asking for the innermost error returns the original error value (the outermost error itself when it wraps nothing), each unwrapping step returns the error wrapped at that step, and the text contains every message in order from outside to inside, formatted with its arguments.",
 ["inputs"], "all wrap chains, messages and base errors",
 "There are no tests for the errors package.",
 ["errors/errors.go"],
 [("Wrap/InnerMost/error", "errors/errors.go")],
 ["errors.New/Wrap, Error, Inner, InnerMost"])

prop("C22", "Closed and busy objects refuse use without touching the wire",
 "Using a connection, statement, row set or transaction after it was closed (directly or through its parent) returns an error and sends nothing; closing again is harmless. While a statement or its rows are open the connection refuses any other statement, query or begin with an error and without traffic, and closing the statement or rows makes it available again; reading past the end of rows neither blocks nor sends anything.",
 ["histories"], "all orders of use and close of connections, statements, rows, pipelines and transactions",
 "Tests close objects in one order and never use them afterwards.",
 ["conn.go", "stmt.go", "rows.go", "tx.go"],
 [("closed flags and open-statement checks", "conn.go, stmt.go, rows.go, tx.go")],
 ["errors of the calls", "requests a server receives"])

prop("C23", "A recorded session replays to the same results",
 "Recording a session against a server does not change its results, whatever the fragmentation of the traffic. Replaying the recording of a session without transport errors with the same calls gives the same results and errors without a server, and a replay whose requests differ from the recorded ones in number or size reports an error. A recording that cannot be written is reported when the connection is closed, and the network connection is closed all the same.",
 ["histories", "inputs"], "all sessions and traffic fragmentations",
 "Existing tests only replay recordings made once with one server; recording itself is not exercised.",
 ["recorder.go", "conn.go"],
 [("record/replay of reads and writes", "recorder.go")],
 ["results of a recorded and of a replayed session"])

prop("C24", "Logging never changes behaviour and respects its level",
 "The results of every call are the same at every log level, and a message reaches a logger exactly if the configured level includes it: nothing at none, errors at error, errors and infos at info, everything at trace. Level names are accepted in any letter case and any other name means none.",
 ["configurations", "histories"], "all log levels, sessions and values logged",
 "Tests run at one level and look at no log output.",
 ["log/log.go", "util.go", "conn.go"],
 [("level checks", "log/log.go")],
 ["log.ErrorLog/InfoLog/TraceLog output", "results of a session at each level"])

prop("C25", "Timeouts bound every wait",
 "The timeout of the URL or of the connection setting (default 60 seconds) applies to each read and write, also while dialing and during the TLS and Bolt handshakes: a server that stops answering makes the pending call return an error after that time rather than block forever (the bad-connection error of the sql driver interface once the connection was opened). A server that answers more quickly than the timeout, however often it pauses, is never timed out.",
 ["schedules", "configurations"], "all stall points and timeout settings",
 "Replay has no time.",
 ["conn.go"],
 [("deadline before each read and write", "conn.go Read/Write"), ("dial timeout", "conn.go createConn")],
 ["error and duration of calls against a stalling server"])

prop("C26", "Drivers and pools are safe for concurrent use",
 "Any number of goroutines may open connections from one driver or one pool, use their own connections and close them concurrently: there is no data race, no deadlock, no lost connection, and each goroutine sees only its own session.",
 ["schedules"], "all interleavings of opens, uses and closes by concurrent goroutines, checked with the race detector",
 "The concurrent pool tests are skipped without a server and the suite is not run with the race detector.",
 ["driver.go", "conn.go", "encoding/*.go", "structures/messages/*.go"],
 [("no shared mutable state outside the pool", "driver.go"), ("pool lock and channel", "driver.go")],
 ["race detector reports", "results of concurrent sessions"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
