package checks

import (
	"database/sql/driver"
	"fmt"
	"io"
	"sort"
	"strings"
	"sync"
	"testing"

	"pgregory.net/rapid"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/encoding"
	"verif/boltfake"
	"verif/refps"
	"verif/vh"
)

// The session engine: a generated history of calls on one connection, run
// against the fake server and a model of what every call has to return and
// what the server has to see.

type opWeights struct {
	conn     int // queries and execs straight on the connection
	stmt     int // prepared statements
	pipe     int // pipelines
	tx       int // transactions
	stale    int // use of closed or busy objects
	misc     int // chunk size, columns, metadata
	failPct  int // percentage of plans that fail
	steps    int
	poison   int  // calls with unencodable parameters
	hardFail bool // ack / reset refusals
	poolPct  int  // percentage of histories on a connection of a pool
}

type mPlan struct {
	id      int
	text    string
	plan    *boltfake.Plan
	params  map[string]interface{} // reference form (nil: nil map passed)
	runSeen bool
}

type mRows struct {
	plans   []*mPlan // one for a single query
	pipe    bool
	idx     int    // current query of the pipeline
	pos     int    // records of the current query read so far
	state   string // open, ended, failed, closed
	atEnd   bool   // was read to the end before closing
	rows    bolt.Rows
	prows   bolt.PipelineRows
	old     []bolt.PipelineRows
	stmt    *mStmt
	lazy    bool // PULL_ALL not sent yet (prepared statements)
	desc    string
	lastErr error
}

type mStmt struct {
	hidden bool
	pipe   bool
	texts  []string
	stmt   bolt.Stmt
	pstmt  bolt.PipelineStmt
	rows   *mRows
	closed bool
	desc   string
}

type mTx struct {
	tx     driver.Tx
	id     int
	closed bool
	failed bool // a statement in it failed: the server refuses to commit
	reset  bool // the server dropped it on RESET
	desc   string
}

type expRun struct {
	text     string
	params   map[string]interface{}
	tx       int
	optional bool
	plan     *mPlan
}

type sess struct {
	kept   []func() string // checks of what was returned
	t      *rapid.T
	w      opWeights
	srv    *boltfake.Server
	conn   bolt.Conn
	trace  []string
	mu     sync.Mutex
	plans  map[int64]*mPlan
	nextID int
	closed bool
	dead   bool
	stmt   *mStmt
	tx     *mTx
	exp    []expRun
	acks   int
	resets int
	txseq  int
	txexp  []string // expected transaction events, in order
	stStmt []*mStmt
	stRows []*mRows
	stTx   []*mTx
	cls    map[string]int
	noise  int
	nOps   int
	cid    int // server-side connection number
	pool   bolt.ClosableDriverPool
	other  *boltfake.Plan // what the next user of a pooled connection is reading
	oconn  bolt.Conn
	orows  bolt.Rows
	oread  int
}

func (s *sess) fail(f string, a ...interface{}) {
	s.t.Helper()
	var b strings.Builder
	for _, l := range s.trace {
		b.WriteString("  ")
		b.WriteString(l)
		b.WriteString("\n")
	}
	b.WriteString("server log:\n")
	for _, r := range s.srv.Reqs() {
		b.WriteString("  " + r.String() + "\n")
	}
	for _, r := range s.srv.Illegal() {
		b.WriteString("  ILLEGAL " + r + "\n")
	}
	s.t.Fatalf("%s\nhistory:\n%s", fmt.Sprintf(f, a...), b.String())
}

// call runs one driver call under the hang and panic guard.
func (s *sess) call(desc string, f func()) {
	s.t.Helper()
	s.trace = append(s.trace, desc)
	o := vh.Guard(s.srv.Activity, f)
	if b := o.Bad(); b != "" {
		s.fail("%s %s", desc, b)
	}
}

func newSess(t *rapid.T, w opWeights, cfg boltfake.Config) *sess {
	s := &sess{t: t, w: w, plans: map[int64]*mPlan{}, cls: map[string]int{}}
	cfg.Seed = rapid.Uint64().Draw(t, "srvseed")
	cfg.Noise = rapid.IntRange(0, 3).Draw(t, "noise")
	s.noise = cfg.Noise
	s.srv = boltfake.New(cfg)
	s.srv.Default(func(stmt string, params interface{}) *boltfake.Plan {
		m, _ := params.(map[string]interface{})
		s.mu.Lock()
		defer s.mu.Unlock()
		if k, ok := m["k"].(int64); ok {
			if p := s.plans[k]; p != nil {
				return p.plan
			}
		}
		return nil
	})
	return s
}

func (s *sess) open() {
	var err error
	if s.w.poolPct > 0 && rapid.IntRange(0, 99).Draw(s.t, "pooled") < s.w.poolPct {
		s.cls["pooled"]++
		s.call("OpenPool", func() {
			if s.pool, err = bolt.NewClosableDriverPool("bolt://"+s.srv.Addr+"?timeout=3600", 1); err == nil {
				s.conn, err = s.pool.OpenPool()
			}
		})
		if err != nil {
			s.fail("opening a pooled connection to a healthy server failed: %s", vh.Brief(err))
		}
		return
	}
	s.call("OpenNeo", func() { s.conn, err = bolt.NewDriver().OpenNeo("bolt://" + s.srv.Addr + "?timeout=3600") })
	if err != nil {
		s.fail("opening a connection to a healthy server failed: %s", vh.Brief(err))
	}
}

// ---- generation of plans ----

var failCodes = []string{"Neo.ClientError.Statement.SyntaxError", "Neo.TransientError.Transaction.DeadlockDetected", "Neo.TransientError.Oops", "", "Neo.DatabaseError.General.UnknownError",
	"Neo.ClientError.Security.Unauthorized", "Neo.ClientError.Transaction.TransactionTimedOut", "Neo.ClientError.Schema.ConstraintValidationFailed", "Neo.ClientError.Request.Invalid", "EOF", "driver: bad connection"}

func (s *sess) genFail(n int) *boltfake.Fail {
	t := s.t
	f := &boltfake.Fail{At: rapid.IntRange(-1, n).Draw(t, "failat")}
	f.Meta = map[string]interface{}{"code": rapid.SampledFrom(failCodes).Draw(t, "code"),
		"message": fmt.Sprintf("failure %d %s", s.nextID, vh.Str(t, "fmsg", false))}
	switch rapid.IntRange(0, 9).Draw(t, "fshape") {
	case 0:
		f.Meta = map[string]interface{}{}
	case 1:
		delete(f.Meta, rapid.SampledFrom([]string{"code", "message"}).Draw(t, "fdrop"))
	case 2:
		f.Meta[rapid.SampledFrom([]string{"code", "message"}).Draw(t, "ftype")] = vh.Val(t, &vh.Opt{Budget: 3, Depth: 2})
	}
	if rapid.IntRange(0, 3).Draw(t, "fx") == 0 {
		f.Meta["extra"] = vh.Val(t, &vh.Opt{Budget: 4, Depth: 2})
	}
	if s.w.hardFail && rapid.IntRange(0, 3).Draw(t, "ackfails") == 0 {
		f.AckFails = true
		if rapid.IntRange(0, 4).Draw(t, "resetfails") == 0 {
			f.ResetFails = true
		}
	}
	return f
}

func (s *sess) genPlan(text string) *mPlan {
	t := s.t
	s.nextID++
	id := s.nextID
	p := &mPlan{id: id, text: text}
	nf := rapid.IntRange(1, 3).Draw(t, "nf")
	if rapid.IntRange(0, 11).Draw(t, "nofields") == 0 {
		nf = 0
	}
	nr := rapid.IntRange(0, 4).Draw(t, "nr")
	if rapid.IntRange(0, 15).Draw(t, "many") == 0 {
		nr = rapid.IntRange(5, 60).Draw(t, "nrmany")
	}
	fields := make([]interface{}, nf)
	for i := range fields {
		fields[i] = fmt.Sprintf("c%d_%d", id, i)
	}
	pl := &boltfake.Plan{RunMeta: map[string]interface{}{"fields": fields, "run": int64(id)}}
	if nf == 0 && rapid.Bool().Draw(t, "without") {
		delete(pl.RunMeta, "fields")
	}
	for r := 0; r < nr; r++ {
		rec := make([]interface{}, nf)
		if nf > 0 {
			rec[0] = fmt.Sprintf("q%d r%d", id, r)
		}
		for i := 1; i < nf; i++ {
			rec[i] = vh.Val(t, &vh.Opt{Budget: 3, Depth: 2, Graph: true})
		}
		pl.Records = append(pl.Records, rec)
	}
	pl.Summary = map[string]interface{}{"sum": int64(id), "type": "rw"}
	if rapid.IntRange(0, 2).Draw(t, "stats") == 0 {
		pl.Summary["stats"] = map[string]interface{}{"nodes-created": int64(rapid.IntRange(0, 300).Draw(t, "nc")), "properties-set": int64(3)}
	}
	vh.Meta(t, pl.RunMeta)
	vh.Meta(t, pl.Summary)
	if rapid.IntRange(0, 99).Draw(t, "failpct") < s.w.failPct {
		pl.Fail = s.genFail(nr)
	}
	p.plan = pl
	p.params = map[string]interface{}{"k": int64(id)}
	for i := rapid.IntRange(0, 2).Draw(t, "np"); i > 0; i-- {
		p.params["p"+vh.Key(t)] = vh.Val(t, &vh.Opt{Budget: 3, Depth: 2})
	}
	s.mu.Lock()
	s.plans[int64(id)] = p
	s.mu.Unlock()
	return p
}

func (s *sess) text() string {
	s.nextID++
	return vh.Cypher(s.t, s.nextID)
}

func (s *sess) in(p *mPlan) map[string]interface{} {
	return vh.Input(s.t, p.params).(map[string]interface{})
}

func (s *sess) txid() int {
	if s.tx != nil && !s.tx.reset {
		return s.tx.id
	}
	return 0
}

// sent notes that the plan's RUN has to appear in the server's log.
func (s *sess) sent(p *mPlan) {
	s.exp = append(s.exp, expRun{text: p.text, params: p.params, tx: s.txid(), plan: p})
}

// hit notes that the driver reads the plan's failure in this call.
func (s *sess) hit(f *boltfake.Fail) {
	s.acks++
	s.cls["failure"]++
	if s.tx != nil {
		s.tx.failed = true
	}
	if f.AckFails {
		s.resets++
		s.cls["ack-refused"]++
		if f.ResetFails {
			s.dead = true
			s.cls["reset-refused"]++
			return
		}
		if s.tx != nil && !s.tx.reset {
			s.tx.reset = true
			s.txexp = append(s.txexp, fmt.Sprintf("%d reset", s.tx.id))
		}
	}
}

// wantFail checks that err reports exactly this failure.
func (s *sess) wantFail(what string, err error, f *boltfake.Fail) {
	if err == nil {
		s.fail("%s returned no error although the server reported failure %s", what, vh.Show(meta0(f.Meta)))
	}
	if err == io.EOF {
		s.fail("%s signalled a clean end although the server reported a failure", what)
	}
	if f.AckFails && f.ResetFails {
		return // any error
	}
	m, ok := vh.Failure(err)
	if !ok {
		s.fail("%s: innermost error is not the server's failure but %s", what, vh.Brief(err))
	}
	if d := vh.SameMap(m, meta0(f.Meta)); d != "" {
		s.fail("%s: failure metadata differ: %s", what, d)
	}
}

func meta0(m map[string]interface{}) map[string]interface{} {
	if m == nil {
		return map[string]interface{}{}
	}
	return m
}

func (s *sess) wantOK(what string, err error) {
	if err != nil {
		s.fail("%s failed although the server answered with success: %s", what, vh.Brief(err))
	}
}

func (s *sess) wantRefused(what string, err error) {
	if err == nil {
		s.fail("%s was not refused", what)
	}
	if _, ok := vh.Failure(err); ok {
		s.fail("%s returned a server failure instead of being refused: %s", what, vh.Brief(err))
	}
}

func (s *sess) wantMeta(what string, got, want map[string]interface{}) {
	if d := vh.SameMap(got, meta0(want)); d != "" {
		s.fail("%s: metadata differ: %s", what, d)
	}
	s.kept = append(s.kept, func() string {
		if d := vh.SameMap(got, meta0(want)); d != "" {
			return fmt.Sprintf("the metadata returned by %s changed later: %s", what, d)
		}
		return ""
	})
}

// checkKept makes sure that what calls returned still is what it was.
func (s *sess) checkKept() {
	for _, f := range s.kept {
		if d := f(); d != "" {
			s.fail("%s", d)
		}
	}
}

func (s *sess) wantRow(what string, got, want []interface{}) {
	if d := vh.SameRow(got, want); d != "" {
		s.fail("%s: row differs: %s", what, d)
	}
	s.kept = append(s.kept, func() string {
		if d := vh.SameRow(got, want); d != "" {
			return fmt.Sprintf("the row returned by %s changed later: %s", what, d)
		}
		return ""
	})
}

func (s *sess) wantResult(what string, r bolt.Result, p *mPlan) {
	if r == nil {
		s.fail("%s returned no result", what)
	}
	s.wantMeta(what, r.Metadata(), p.plan.Summary)
	n, err := r.RowsAffected()
	want := int64(0)
	if st, ok := p.plan.Summary["stats"].(map[string]interface{}); ok {
		want = st["nodes-created"].(int64)
	}
	if err != nil || n != want {
		s.fail("%s: RowsAffected %d, %v, want %d", what, n, err, want)
	}
}

func (s *sess) busy() bool { return s.stmt != nil }

// ---- the interface of database/sql/driver ----

// sqlWay decides whether the next call uses the interface of
// database/sql/driver instead of the neo-specific one, where x has it.
func (s *sess) sqlWay(x interface{}) bool {
	ok := false
	switch x.(type) {
	case bolt.Conn:
		_, q := x.(driver.Queryer)
		_, e := x.(driver.Execer)
		_, c := x.(driver.Conn)
		ok = q && e && c
	case bolt.Rows:
		_, ok = x.(driver.Rows)
	case bolt.Stmt:
		_, ok = x.(driver.Stmt)
	}
	if !ok || rapid.IntRange(0, 3).Draw(s.t, "sqlway") != 0 {
		return false
	}
	s.cls["sql-interface"]++
	return true
}

// sqlArgs are the parameters as database/sql passes them.
func (s *sess) sqlArgs(in map[string]interface{}) []driver.Value {
	if in == nil {
		return nil
	}
	parts := []map[string]interface{}{{}, {}}
	n := rapid.IntRange(1, 2).Draw(s.t, "sqlargs")
	var keys []string
	for k := range in {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for i, k := range keys {
		parts[i%n][k] = in[k]
	}
	var out []driver.Value
	for _, m := range parts[:n] {
		b, err := encoding.Marshal(m)
		if err != nil {
			s.fail("marshalling %s failed: %v", vh.Show(m), err)
		}
		out = append(out, b)
	}
	return out
}

// sqlResult makes a result of the sql interface look like one of the neo-specific.
type sqlResult struct {
	driver.Result
	meta map[string]interface{}
}

func (r sqlResult) Metadata() map[string]interface{} { return r.meta }

func (s *sess) exec(x interface{}, text string, in map[string]interface{}, p *mPlan) (bolt.Result, error) {
	args := s.sqlArgs(in)
	var r driver.Result
	var err error
	s.call("(as database/sql)", func() {
		if c, ok := x.(driver.Conn); ok {
			r, err = c.(driver.Execer).Exec(text, args)
		} else {
			r, err = x.(driver.Stmt).Exec(args)
		}
	})
	if err != nil || r == nil {
		return nil, err
	}
	return sqlResult{r, p.plan.Summary}, nil
}

func (s *sess) query(x interface{}, text string, in map[string]interface{}) (bolt.Rows, error) {
	args := s.sqlArgs(in)
	var r driver.Rows
	var err error
	s.call("(as database/sql)", func() {
		if c, ok := x.(driver.Conn); ok {
			r, err = c.(driver.Queryer).Query(text, args)
		} else {
			r, err = x.(driver.Stmt).Query(args)
		}
	})
	if err != nil {
		return nil, err
	}
	rows, ok := r.(bolt.Rows)
	if !ok {
		s.fail("HARNESS: the rows of the sql interface are %T", r)
	}
	return rows, nil
}

// next reads a row the way database/sql does.
func (s *sess) next(rows bolt.Rows, p *mPlan) ([]interface{}, error) {
	n := 0
	if len(p.plan.Records) > 0 {
		n = len(p.plan.Records[0])
	}
	dest := make([]driver.Value, n)
	var err error
	s.call("(as database/sql)", func() { err = rows.(driver.Rows).Next(dest) })
	if err != nil {
		return nil, err
	}
	row := make([]interface{}, n)
	for i, v := range dest {
		row[i] = v
		if b, ok := v.([]byte); ok {
			if row[i], err = encoding.Unmarshal(b); err != nil {
				s.fail("column %d of a row doesn't unmarshal: %v", i, err)
			}
			if scalar(row[i]) {
				s.fail("column %d is the encoded form of a plain value: %v", i, row[i])
			}
		}
	}
	return row, nil
}

// ---- operations ----

func (s *sess) opExec() {
	p := s.genPlan(s.text())
	in := s.in(p)
	var r bolt.Result
	var err error
	what := fmt.Sprintf("conn.ExecNeo(q%d)%s", p.id, failNote(p))
	if s.sqlWay(s.conn) {
		r, err = s.exec(s.conn, p.text, in, p)
	} else {
		s.call(what, func() { r, err = s.conn.ExecNeo(p.text, in) })
	}
	if s.refuses(what, err, nil) {
		return
	}
	s.sent(p)
	if f := p.plan.Fail; f != nil {
		s.hit(f)
		s.wantFail(what, err, f)
		return
	}
	s.wantOK(what, err)
	s.wantResult(what, r, p)
}

func failNote(ps ...*mPlan) string {
	out := ""
	for _, p := range ps {
		out += fmt.Sprintf(" [%d rows", len(p.plan.Records))
		if f := p.plan.Fail; f != nil {
			out += fmt.Sprintf(", fails at %d", f.At)
			if f.AckFails {
				out += ", ack refused"
			}
			if f.ResetFails {
				out += ", reset refused"
			}
		}
		out += "]"
	}
	return out
}

// refuses handles calls that need an idle connection. It reports whether the
// call had to be refused.
func (s *sess) refuses(what string, err error, extra *bool) bool {
	if s.closed || s.dead || s.busy() {
		s.cls["refused"]++
		if err == nil {
			why := "while a statement or rows are open"
			if s.closed {
				why = "after the connection was closed"
			}
			if s.dead {
				why = "after the server refused the reset"
			}
			s.fail("%s was accepted %s", what, why)
		}
		if !s.dead {
			s.wantRefused(what, err)
		}
		return true
	}
	return false
}

func (s *sess) opQueryAll() {
	p := s.genPlan(s.text())
	in := s.in(p)
	var data [][]interface{}
	var m1, m2 map[string]interface{}
	var err error
	what := fmt.Sprintf("conn.QueryNeoAll(q%d)%s", p.id, failNote(p))
	s.call(what, func() { data, m1, m2, err = s.conn.QueryNeoAll(p.text, in) })
	if s.refuses(what, err, nil) {
		return
	}
	s.sent(p)
	if f := p.plan.Fail; f != nil {
		s.hit(f)
		s.wantFail(what, err, f)
		return
	}
	s.wantOK(what, err)
	s.wantAll(what, data, p, 0)
	s.wantMeta(what+" run metadata", m1, p.plan.RunMeta)
	s.wantMeta(what+" summary", m2, p.plan.Summary)
}

func (s *sess) wantAll(what string, data [][]interface{}, p *mPlan, from int) {
	if len(data) != len(p.plan.Records)-from {
		s.fail("%s returned %d rows, the server sent %d", what, len(data), len(p.plan.Records)-from)
	}
	for i := range data {
		s.wantRow(fmt.Sprintf("%s row %d", what, i), data[i], p.plan.Records[from+i])
	}
}

func (s *sess) opQuery() {
	p := s.genPlan(s.text())
	in := s.in(p)
	var rows bolt.Rows
	var err error
	what := fmt.Sprintf("conn.QueryNeo(q%d)%s", p.id, failNote(p))
	if s.sqlWay(s.conn) {
		rows, err = s.query(s.conn, p.text, in)
	} else {
		s.call(what, func() { rows, err = s.conn.QueryNeo(p.text, in) })
	}
	if s.refuses(what, err, nil) {
		return
	}
	s.sent(p)
	if f := p.plan.Fail; f != nil && f.At < 0 {
		s.hit(f)
		s.wantFail(what, err, f)
		return
	}
	s.wantOK(what, err)
	st := &mStmt{hidden: true, texts: []string{p.text}, desc: "hidden"}
	st.rows = &mRows{plans: []*mPlan{p}, state: "open", rows: rows, stmt: st, desc: fmt.Sprintf("rows(q%d)", p.id)}
	s.stmt = st
	s.checkRunMeta(st.rows)
}

func (s *sess) checkRunMeta(r *mRows) {
	p := r.plans[r.idx]
	var got map[string]interface{}
	var cols []string
	s.call(r.desc+".Metadata/Columns", func() {
		if r.pipe {
			got, cols = r.prows.Metadata(), r.prows.Columns()
		} else {
			got, cols = r.rows.Metadata(), r.rows.Columns()
		}
	})
	s.wantMeta(r.desc, got, p.plan.RunMeta)
	want, _ := p.plan.RunMeta["fields"].([]interface{})
	if len(cols) != len(want) {
		s.fail("%s: columns %q, want %v", r.desc, cols, want)
	}
	for i := range cols {
		if cols[i] != want[i] {
			s.fail("%s: columns %q, want %v", r.desc, cols, want)
		}
	}
}

func (s *sess) genPipe() []*mPlan {
	n := rapid.IntRange(1, 4).Draw(s.t, "npipe")
	switch k := rapid.IntRange(0, 99).Draw(s.t, "longpipe"); {
	case k < 12:
		n = rapid.IntRange(5, 12).Draw(s.t, "npipe2")
	case k == 99:
		n = rapid.IntRange(13, 80).Draw(s.t, "npipe3")
	}
	ps := make([]*mPlan, n)
	for i := range ps {
		ps[i] = s.genPlan(s.text())
	}
	if n > 1 && rapid.IntRange(0, 3).Draw(s.t, "sametext") == 0 {
		for i := range ps {
			ps[i].text = ps[0].text
		}
	}
	return ps
}

func texts(ps []*mPlan) []string {
	out := make([]string, len(ps))
	for i, p := range ps {
		out[i] = p.text
	}
	return out
}

func (s *sess) ins(ps []*mPlan) []map[string]interface{} {
	out := make([]map[string]interface{}, len(ps))
	for i, p := range ps {
		out[i] = s.in(p)
	}
	return out
}

// firstFail returns the first plan of a pipeline that fails.
func firstFail(ps []*mPlan) (int, *boltfake.Fail) {
	for i, p := range ps {
		if p.plan.Fail != nil {
			return i, p.plan.Fail
		}
	}
	return -1, nil
}

// badCount perturbs the number of parameter maps.
func (s *sess) badCount(in []map[string]interface{}) ([]map[string]interface{}, bool) {
	if rapid.IntRange(0, 9).Draw(s.t, "badcount") != 0 {
		return in, false
	}
	s.cls["bad-param-count"]++
	if rapid.Bool().Draw(s.t, "fewer") {
		return in[:rapid.IntRange(0, len(in)-1).Draw(s.t, "nfew")], true
	}
	return append(in, nil), true
}

func (s *sess) checkExecPipe(what string, rs []bolt.Result, err error, ps []*mPlan) {
	for _, p := range ps {
		s.sent(p)
	}
	if _, f := firstFail(ps); f != nil {
		s.hit(f)
		s.wantFail(what, err, f)
		return
	}
	s.wantOK(what, err)
	if len(rs) != len(ps) {
		s.fail("%s returned %d results for %d queries", what, len(rs), len(ps))
	}
	for i := range rs {
		s.wantResult(fmt.Sprintf("%s result %d", what, i), rs[i], ps[i])
	}
}

func (s *sess) opExecPipe() {
	ps := s.genPipe()
	in, bad := s.badCount(s.ins(ps))
	var rs []bolt.Result
	var err error
	what := fmt.Sprintf("conn.ExecPipeline(%d queries from q%d, %d params)%s", len(ps), ps[0].id, len(in), failNote(ps...))
	s.call(what, func() { rs, err = s.conn.ExecPipeline(texts(ps), in...) })
	if s.refuses(what, err, nil) {
		return
	}
	if bad {
		s.wantRefused(what, err)
		return
	}
	s.checkExecPipe(what, rs, err, ps)
}

// startPipeRows models the start of a pipeline query; nil if its first run fails.
func (s *sess) startPipeRows(what string, prows bolt.PipelineRows, err error, ps []*mPlan, st *mStmt) {
	for _, p := range ps {
		s.sent(p)
	}
	if f := ps[0].plan.Fail; f != nil && f.At < 0 {
		s.hit(f)
		s.wantFail(what, err, f)
		return
	}
	s.wantOK(what, err)
	st.rows = &mRows{plans: ps, pipe: true, state: "open", prows: prows, stmt: st, desc: fmt.Sprintf("prows(q%d..)", ps[0].id)}
	s.stmt = st
	s.checkRunMeta(st.rows)
}

func (s *sess) opQueryPipe() {
	ps := s.genPipe()
	in, bad := s.badCount(s.ins(ps))
	var rows bolt.PipelineRows
	var err error
	what := fmt.Sprintf("conn.QueryPipeline(%d queries from q%d, %d params)%s", len(ps), ps[0].id, len(in), failNote(ps...))
	s.call(what, func() { rows, err = s.conn.QueryPipeline(texts(ps), in...) })
	if s.refuses(what, err, nil) {
		return
	}
	if bad {
		s.wantRefused(what, err)
		return
	}
	s.startPipeRows(what, rows, err, ps, &mStmt{hidden: true, pipe: true, texts: texts(ps), desc: "hidden pipeline"})
}

// opEmptyPipe: a pipeline without queries sends nothing and does not block.
func (s *sess) opEmptyPipe() {
	if s.dead {
		return
	}
	s.cls["empty-pipeline"]++
	if rapid.Bool().Draw(s.t, "exec") {
		var rs []bolt.Result
		var err error
		s.call("conn.ExecPipeline()", func() { rs, err = s.conn.ExecPipeline(nil) })
		if s.refuses("conn.ExecPipeline()", err, nil) {
			return
		}
		if len(rs) != 0 {
			s.fail("an empty pipeline returned %d results", len(rs))
		}
		return
	}
	var err error
	var rows bolt.PipelineRows
	s.call("conn.QueryPipeline()", func() { rows, err = s.conn.QueryPipeline(nil) })
	if s.refuses("conn.QueryPipeline()", err, nil) {
		return
	}
	if err == nil { // an implementation may give empty rows
		s.call("empty prows.Close", func() { err = rows.Close() })
		s.wantOK("closing the rows of an empty pipeline", err)
	}
}

func (s *sess) opPrepare() {
	text := s.text()
	var st bolt.Stmt
	var err error
	what := "conn.PrepareNeo(" + text + ")"
	if s.sqlWay(s.conn) {
		var x driver.Stmt
		s.call(what+" as database/sql", func() { x, err = s.conn.(driver.Conn).Prepare(text) })
		if err == nil {
			var ok bool
			if st, ok = x.(bolt.Stmt); !ok {
				s.fail("HARNESS: the statement of the sql interface is %T", x)
			}
		}
	} else {
		s.call(what, func() { st, err = s.conn.PrepareNeo(text) })
	}
	if s.refuses(what, err, nil) {
		return
	}
	s.wantOK(what, err)
	s.stmt = &mStmt{texts: []string{text}, stmt: st, desc: fmt.Sprintf("stmt%d", s.nextID)}
}

func (s *sess) opPreparePipe() {
	n := rapid.IntRange(1, 3).Draw(s.t, "npp")
	var tx []string
	for i := 0; i < n; i++ {
		tx = append(tx, s.text())
	}
	var st bolt.PipelineStmt
	var err error
	what := fmt.Sprintf("conn.PreparePipeline(%d)", n)
	s.call(what, func() { st, err = s.conn.PreparePipeline(tx...) })
	if s.refuses(what, err, nil) {
		return
	}
	s.wantOK(what, err)
	s.stmt = &mStmt{pipe: true, texts: tx, pstmt: st, desc: fmt.Sprintf("pstmt%d", s.nextID)}
}

func (s *sess) opStmtUse() {
	st := s.stmt
	query := rapid.Bool().Draw(s.t, "query")
	refused := func(what string, err error) bool {
		if st.rows != nil {
			s.cls["refused"]++
			if err == nil {
				s.fail("%s was accepted while rows of the statement are open", what)
			}
			if !s.dead {
				s.wantRefused(what, err)
			}
			return true
		}
		if s.dead {
			if err == nil {
				s.fail("%s was accepted after the server refused the reset", what)
			}
			return true
		}
		return false
	}
	if !st.pipe {
		p := s.genPlan(st.texts[0])
		in := s.in(p)
		if !query {
			var r bolt.Result
			var err error
			what := fmt.Sprintf("%s.ExecNeo(q%d)%s", st.desc, p.id, failNote(p))
			if s.sqlWay(st.stmt) {
				r, err = s.exec(st.stmt, "", in, p)
			} else {
				s.call(what, func() { r, err = st.stmt.ExecNeo(in) })
			}
			if refused(what, err) {
				return
			}
			s.sent(p)
			if f := p.plan.Fail; f != nil {
				s.hit(f)
				s.wantFail(what, err, f)
				return
			}
			s.wantOK(what, err)
			s.wantResult(what, r, p)
			return
		}
		var rows bolt.Rows
		var err error
		what := fmt.Sprintf("%s.QueryNeo(q%d)%s", st.desc, p.id, failNote(p))
		if s.sqlWay(st.stmt) {
			rows, err = s.query(st.stmt, "", in)
		} else {
			s.call(what, func() { rows, err = st.stmt.QueryNeo(in) })
		}
		if refused(what, err) {
			return
		}
		s.sent(p)
		if f := p.plan.Fail; f != nil && f.At < 0 {
			s.hit(f)
			s.wantFail(what, err, f)
			return
		}
		s.wantOK(what, err)
		st.rows = &mRows{plans: []*mPlan{p}, state: "open", rows: rows, stmt: st, lazy: true, desc: fmt.Sprintf("rows(q%d)", p.id)}
		s.checkRunMeta(st.rows)
		return
	}
	ps := make([]*mPlan, len(st.texts))
	for i := range ps {
		ps[i] = s.genPlan(st.texts[i])
	}
	in, bad := s.badCount(s.ins(ps))
	if !query {
		var rs []bolt.Result
		var err error
		what := fmt.Sprintf("%s.ExecPipeline(q%d.., %d of %d params)%s", st.desc, ps[0].id, len(in), len(ps), failNote(ps...))
		s.call(what, func() { rs, err = st.pstmt.ExecPipeline(in...) })
		if refused(what, err) {
			return
		}
		if bad {
			s.wantRefused(what, err)
			return
		}
		s.checkExecPipe(what, rs, err, ps)
		return
	}
	var rows bolt.PipelineRows
	var err error
	what := fmt.Sprintf("%s.QueryPipeline(q%d.., %d of %d params)%s", st.desc, ps[0].id, len(in), len(ps), failNote(ps...))
	s.call(what, func() { rows, err = st.pstmt.QueryPipeline(in...) })
	if refused(what, err) {
		return
	}
	if bad {
		s.wantRefused(what, err)
		return
	}
	s.startPipeRows(what, rows, err, ps, st)
}

// opDrive reads on for a while, to reach places far into a result.
func (s *sess) opDrive() {
	r := s.stmt.rows
	for n := rapid.IntRange(2, 40).Draw(s.t, "drive"); n > 0 && r.state == "open" && s.stmt != nil && s.stmt.rows == r; n-- {
		s.opNext()
	}
	s.cls["drive"]++
}

func (s *sess) opNext() {
	r := s.stmt.rows
	if r.pipe {
		s.nextPipe(r)
		return
	}
	var row []interface{}
	var m map[string]interface{}
	var err error
	what := r.desc + ".NextNeo"
	way := s.sqlWay(r.rows)
	if way {
		row, err = s.next(r.rows, r.plans[0])
	} else {
		s.call(what, func() { row, m, err = r.rows.NextNeo() })
	}
	if s.pastEnd(what, r, row, err) {
		return
	}
	r.lazy = false
	p := r.plans[0]
	if f := p.plan.Fail; f != nil && (f.At == r.pos || r.pos == len(p.plan.Records)) {
		s.hit(f)
		r.state = "failed"
		s.wantFail(what, err, f)
		if row != nil {
			s.fail("%s returned a row together with a failure", what)
		}
		return
	}
	if r.pos < len(p.plan.Records) {
		s.wantOK(what, err)
		s.wantRow(fmt.Sprintf("%s %d", what, r.pos), row, p.plan.Records[r.pos])
		r.pos++
		return
	}
	if err != io.EOF {
		s.fail("%s at the end returned %s instead of io.EOF", what, vh.Brief(err))
	}
	if row != nil {
		s.fail("%s returned a row at the end: %v", what, row)
	}
	if !way {
		s.wantMeta(what+" summary", m, p.plan.Summary)
	}
	r.state = "ended"
	r.atEnd = true
}

// pastEnd handles reading of rows that are not open any more. It reports
// whether that was the case.
func (s *sess) pastEnd(what string, r *mRows, row []interface{}, err error) bool {
	if r.state == "open" && s.dead {
		s.fail("HARNESS: open rows on a dead connection")
	}
	if r.state == "open" {
		return false
	}
	s.cls["read-past-end"]++
	if row != nil {
		s.fail("%s returned a row after the rows were %s", what, r.state)
	}
	switch {
	case r.state == "ended":
		if err == nil && !r.pipe {
			s.fail("%s returned no error after the end of the rows", what)
		}
	case r.state == "failed":
		if err == nil || err == io.EOF {
			s.fail("%s returned %v after the rows failed", what, err)
		}
	default: // closed
		if err == nil {
			s.fail("%s returned no error after the rows were closed", what)
		}
		if err == io.EOF && !r.atEnd {
			s.fail("%s signals a clean end of rows that were closed before their end", what)
		}
	}
	return true
}

func (s *sess) nextPipe(r *mRows) {
	var row []interface{}
	var m map[string]interface{}
	var next bolt.PipelineRows
	var err error
	what := fmt.Sprintf("%s[%d].NextPipeline", r.desc, r.idx)
	s.call(what, func() { row, m, next, err = r.prows.NextPipeline() })
	if r.state != "open" && !isNilRows(next) {
		s.fail("%s returned another row set after the rows were %s", what, r.state)
	}
	if s.pastEnd(what, r, row, err) {
		return
	}
	p := r.plans[r.idx]
	if f := p.plan.Fail; f != nil && (f.At == r.pos || r.pos == len(p.plan.Records)) {
		s.hit(f)
		r.state = "failed"
		s.wantFail(what, err, f)
		if row != nil || !isNilRows(next) {
			s.fail("%s returned data together with a failure", what)
		}
		return
	}
	if r.pos < len(p.plan.Records) {
		s.wantOK(what, err)
		if !isNilRows(next) {
			s.fail("%s returned the next row set before the end of this one", what)
		}
		s.wantRow(fmt.Sprintf("%s %d", what, r.pos), row, p.plan.Records[r.pos])
		r.pos++
		return
	}
	if row != nil {
		s.fail("%s returned a row at the end: %v", what, row)
	}
	if r.idx == len(r.plans)-1 {
		if err != nil && err != io.EOF {
			s.fail("%s at the end of the pipeline failed: %s", what, vh.Brief(err))
		}
		if !isNilRows(next) {
			s.fail("%s returned a further row set after the last query", what)
		}
		r.state = "ended"
		r.atEnd = true
		return
	}
	q := r.plans[r.idx+1]
	if f := q.plan.Fail; f != nil && f.At < 0 {
		s.hit(f)
		r.state = "failed"
		s.wantFail(what, err, f)
		if !isNilRows(next) {
			s.fail("%s returned data together with a failure", what)
		}
		return
	}
	s.wantOK(what, err)
	if isNilRows(next) {
		s.fail("%s returned no row set for query %d of the pipeline", what, r.idx+1)
	}
	if vh.SameMap(m, meta0(q.plan.RunMeta)) != "" && vh.SameMap(m, meta0(p.plan.Summary)) != "" {
		s.fail("%s: metadata at the hand-over belong to neither query: %v", what, m)
	}
	r.old = append(r.old, r.prows)
	r.prows = next
	r.idx++
	r.pos = 0
	s.cls["hand-over"]++
	s.checkRunMeta(r)
}

func isNilRows(p bolt.PipelineRows) bool {
	if p == nil {
		return true
	}
	// a nil *boltRows inside the interface counts as nil
	return fmt.Sprintf("%v", p) == "<nil>"
}

func (s *sess) opAll() {
	r := s.stmt.rows
	var data [][]interface{}
	var m map[string]interface{}
	var err error
	what := r.desc + ".All"
	s.call(what, func() { data, m, err = r.rows.All() })
	if r.state != "open" {
		s.cls["read-past-end"]++
		if len(data) > 0 {
			s.fail("%s returned rows after the rows were %s", what, r.state)
		}
		if (r.state == "failed" || (r.state == "closed" && !r.atEnd)) && err == nil {
			s.fail("%s reported success after the rows were %s", what, r.state)
		}
		return
	}
	r.lazy = false
	p := r.plans[0]
	if f := p.plan.Fail; f != nil {
		s.hit(f)
		r.state = "failed"
		s.wantFail(what, err, f)
		return
	}
	s.wantOK(what, err)
	s.wantAll(what, data, p, r.pos)
	s.wantMeta(what+" summary", m, p.plan.Summary)
	r.pos = len(p.plan.Records)
	r.state = "ended"
	r.atEnd = true
}

// drainFail is the failure the driver meets when it closes the rows (nil: none).
func (r *mRows) drainFail() *boltfake.Fail {
	if r == nil || r.state != "open" {
		return nil
	}
	_, f := firstFail(r.plans[r.idx:])
	return f
}

func (s *sess) closeRowsModel(r *mRows) {
	if r == nil {
		return
	}
	if f := r.drainFail(); f != nil {
		s.hit(f)
		s.cls["close-meets-failure"]++
	} else if r.state == "open" {
		s.cls["close-unread"]++
	}
	r.state = "closed"
	s.stRows = append(s.stRows, r)
	st := r.stmt
	st.rows = nil
	if st.hidden {
		st.closed = true
		s.stmt = nil
	}
}

func (s *sess) opRowsClose() {
	r := s.stmt.rows
	var err error
	what := r.desc + ".Close"
	s.call(what, func() {
		if r.pipe {
			err = r.prows.Close()
		} else {
			err = r.rows.Close()
		}
	})
	f := r.drainFail()
	dead := s.dead
	s.closeRowsModel(r)
	if dead {
		return // any result
	}
	if f != nil {
		s.wantFail(what, err, f)
		return
	}
	s.wantOK(what, err)
}

func (s *sess) stmtClosedModel() {
	st := s.stmt
	if st == nil {
		return
	}
	if st.rows != nil {
		s.closeRowsModel(st.rows)
	}
	st.closed = true
	if !st.hidden {
		s.stStmt = append(s.stStmt, st)
	}
	s.stmt = nil
}

func (s *sess) opStmtClose() {
	st := s.stmt
	var err error
	what := st.desc + ".Close"
	cl := func() {
		if st.pipe {
			err = st.pstmt.Close()
		} else {
			err = st.stmt.Close()
		}
	}
	s.call(what, cl)
	f := st.rows.drainFail()
	dead := s.dead
	s.stmtClosedModel()
	if dead {
		return
	}
	if f != nil {
		s.wantFail(what, err, f)
		s.call(what+" again", cl)
	}
	if f == nil || !s.dead {
		s.wantOK(what, err)
	}
}

func (s *sess) opBegin() {
	var tx driver.Tx
	var err error
	what := "conn.Begin"
	var f *boltfake.Fail
	idle := !s.closed && !s.dead && !s.busy() && s.tx == nil
	if idle && rapid.IntRange(0, 99).Draw(s.t, "beginfail") < s.w.failPct {
		f = s.genFail(0)
		s.srv.TxFail("BEGIN", f)
		what += fmt.Sprintf(" [fails at %d]", f.At)
	}
	s.call(what, func() { tx, err = s.conn.Begin() })
	if s.tx != nil && !s.tx.reset && !s.closed && !s.dead && !s.busy() {
		s.cls["nested-begin"]++
		s.wantRefused("nested Begin", err)
		return
	}
	if s.tx != nil && s.tx.reset && !s.closed && !s.dead && !s.busy() {
		// the server dropped the transaction; refusing is what the driver does
		s.wantRefused("Begin with a transaction still open", err)
		return
	}
	if s.refuses(what, err, nil) {
		return
	}
	s.exp = append(s.exp, expRun{text: "BEGIN", tx: -1})
	if f != nil {
		s.hit(f)
		s.wantFail(what, err, f)
		return
	}
	s.wantOK(what, err)
	s.txseq++
	s.exp[len(s.exp)-1].tx = s.txseq
	s.tx = &mTx{tx: tx, id: s.txseq, desc: fmt.Sprintf("tx%d", s.txseq)}
	s.txexp = append(s.txexp, fmt.Sprintf("%d begin", s.txseq))
	s.cls["tx"]++
}

func (s *sess) opFinish() {
	tx := s.tx
	commit := rapid.Bool().Draw(s.t, "commit")
	kind := "ROLLBACK"
	if commit {
		kind = "COMMIT"
	}
	var f *boltfake.Fail
	if !tx.reset && s.drain() == nil && rapid.IntRange(0, 99).Draw(s.t, "finishfail") < s.w.failPct {
		f = s.genFail(0)
		s.srv.TxFail(kind, f)
	}
	what := fmt.Sprintf("%s %s", tx.desc, kind)
	if f != nil {
		what += fmt.Sprintf(" [fails at %d]", f.At)
	}
	var err error
	s.call(what, func() {
		if commit {
			err = tx.tx.Commit()
		} else {
			err = tx.tx.Rollback()
		}
	})
	if s.dead {
		if err == nil {
			s.fail("%s reported success on a connection whose reset was refused", what)
		}
		s.endTx()
		s.stmt = nil
		return
	}
	if s.stmt != nil {
		s.cls["finish-with-open-statement"]++
	}
	if d := s.drain(); d != nil {
		// The rows' failure is reported and the transaction stays open, or the
		// driver goes on and finishes it: then the server marked it failed.
		st := s.stmt
		s.stmtClosedModel()
		_ = st
		if err == nil && commit {
			s.fail("%s reported success although closing the open rows failed", what)
		}
		if s.dead {
			if err == nil {
				s.fail("%s reported success on a connection whose reset was refused", what)
			}
			s.endTx()
			return
		}
		if err != nil {
			s.wantFail(what, err, d)
		}
		// find out from the server whether the request was made
		if tx.reset {
			s.exp = append(s.exp, expRun{text: kind, tx: -1, optional: true})
			// whether the transaction object is still open is not modelled further
			s.cls["tx-reset-finish"]++
			s.quit()
			return
		}
		if _, id, _ := s.srv.State(s.cid); id == tx.id {
			s.cls["finish-kept-open"]++
			return // still open
		}
		s.fail("%s: the server finished the transaction although closing the open rows failed", what)
	}
	s.stmtClosedModel()
	e := expRun{text: kind, tx: tx.id}
	if tx.reset {
		e.optional = true
		e.tx = 0
		s.exp = append(s.exp, e)
		if err == nil && commit {
			s.fail("%s reported success although the server had dropped the transaction", what)
		}
		if _, ok := vh.Failure(err); ok {
			s.acks++
		}
		s.endTx()
		return
	}
	s.exp = append(s.exp, e)
	s.endTx()
	switch {
	case f != nil:
		ev := "rollback"
		if commit {
			ev = "commit-failed"
		}
		s.txexp = append(s.txexp, fmt.Sprintf("%d %s", tx.id, ev))
		s.hit(f)
		s.wantFail(what, err, f)
	case commit && tx.failed:
		s.txexp = append(s.txexp, fmt.Sprintf("%d commit-failed", tx.id))
		s.acks++
		if err == nil {
			s.fail("%s reported success although the server refused to commit", what)
		}
		if m, ok := vh.Failure(err); !ok || m["code"] != "Fake.Transaction.MarkedFailed" {
			s.fail("%s: the refusal of the commit is not reported: %s", what, vh.Brief(err))
		}
	default:
		s.wantOK(what, err)
		ev := "rollback"
		if commit {
			ev = "commit"
		}
		s.txexp = append(s.txexp, fmt.Sprintf("%d %s", tx.id, ev))
	}
}

func (s *sess) drain() *boltfake.Fail {
	if s.stmt == nil {
		return nil
	}
	return s.stmt.rows.drainFail()
}

func (s *sess) endTx() {
	if s.tx == nil {
		return
	}
	s.tx.closed = true
	s.stTx = append(s.stTx, s.tx)
	s.tx = nil
}

// quit ends the history in a state the model does not follow further.
func (s *sess) quit() {
	s.nOps = 1 << 20
}

func (s *sess) opConnClose() {
	if s.closed {
		var err error
		s.call("conn.Close again", func() { err = s.conn.Close() })
		s.wantOK("closing a closed connection", err)
		return
	}
	f := s.drain()
	tx := s.tx
	var tf *boltfake.Fail
	if tx != nil && !tx.reset && f == nil && !s.dead && rapid.IntRange(0, 99).Draw(s.t, "closefail") < s.w.failPct/2 {
		tf = s.genFail(0)
		s.srv.TxFail("ROLLBACK", tf)
	}
	var err error
	what := "conn.Close"
	if s.stmt != nil {
		what += " with an open statement"
		s.cls["close-with-statement"]++
	}
	if tx != nil {
		what += " with an open transaction"
		s.cls["close-with-tx"]++
	}
	s.call(what, func() { err = s.conn.Close() })
	dead := s.dead
	if s.stmt != nil {
		s.stmtClosedModel()
	}
	if tx != nil && !s.dead {
		e := expRun{text: "ROLLBACK", tx: tx.id}
		if tx.reset {
			e.optional, e.tx = true, 0
		} else {
			s.txexp = append(s.txexp, fmt.Sprintf("%d rollback", tx.id))
		}
		s.exp = append(s.exp, e)
	} else if tx != nil && !tx.reset {
		s.txexp = append(s.txexp, fmt.Sprintf("%d abandoned", tx.id))
	}
	s.endTx()
	s.closed = true
	if !dead && !s.dead && f == nil && tf == nil && (tx == nil || !tx.reset) {
		s.wantOK(what, err)
		s.openOther()
	}
	if tf != nil || (tx != nil && tx.reset) {
		s.acks, s.resets = -1, -1 // the failure of the final rollback may go unacknowledged
	}
}

// openOther lets somebody else use the pooled connection after it was returned.
func (s *sess) openOther() {
	if s.pool == nil || rapid.IntRange(0, 3).Draw(s.t, "other") == 0 {
		return
	}
	s.cls["next-user"]++
	p := s.genPlan(s.text())
	p.plan.Fail = nil
	var err error
	s.call("OpenPool by the next user", func() { s.oconn, err = s.pool.OpenPool() })
	s.wantOK("opening a returned connection", err)
	in := s.in(p)
	s.call("next user: "+p.text, func() { s.orows, err = s.oconn.QueryNeo(p.text, in) })
	s.wantOK("a query by the next user", err)
	s.sent(p)
	s.other = p.plan
	for n := rapid.IntRange(0, len(p.plan.Records)).Draw(s.t, "otherreads"); n > 0; n-- {
		s.readOther()
	}
}

func (s *sess) readOther() {
	var row []interface{}
	var meta map[string]interface{}
	var err error
	s.call("next user: NextNeo", func() { row, meta, err = s.orows.NextNeo() })
	if s.oread == len(s.other.Records) {
		if err != io.EOF {
			s.fail("the next user got %s %s instead of the end of the rows", vh.Show(row), vh.Brief(err))
		}
		s.wantMeta("the next user's rows", meta, s.other.Summary)
		return
	}
	s.wantOK("reading by the next user", err)
	if d := vh.SameRow(row, s.other.Records[s.oread]); d != "" {
		s.fail("the next user's row %d: %s", s.oread, d)
	}
	s.oread++
}

// closeOther ends the next user's query and the pool.
func (s *sess) closeOther() {
	if s.orows != nil {
		for s.oread < len(s.other.Records) {
			s.readOther()
		}
		s.readOther()
		var err error
		s.call("next user: Close", func() {
			if err = s.orows.Close(); err == nil {
				err = s.oconn.Close()
			}
		})
		s.wantOK("closing by the next user", err)
	}
	if s.pool != nil {
		s.call("closing the pool", func() { s.pool.Close() })
	}
}

func (s *sess) opStale() {
	t := s.t
	var opts []func()
	add := func(f func()) { opts = append(opts, f) }
	for _, r := range s.stRows {
		r := r
		if r.pipe {
			add(func() {
				var row []interface{}
				var next bolt.PipelineRows
				var err error
				what := "closed " + r.desc + ".NextPipeline"
				s.call(what, func() { row, _, next, err = r.prows.NextPipeline() })
				if !isNilRows(next) {
					s.fail("%s returned rows", what)
				}
				s.pastEnd(what, r, row, err)
			})
			add(func() {
				var err error
				s.call("closed "+r.desc+".Close", func() { err = r.prows.Close() })
				s.wantOK("closing closed pipeline rows", err)
			})
		} else {
			add(func() {
				var row []interface{}
				var err error
				what := "closed " + r.desc + ".NextNeo"
				if s.sqlWay(r.rows) {
					row, err = s.next(r.rows, r.plans[0])
				} else {
					s.call(what, func() { row, _, err = r.rows.NextNeo() })
				}
				s.pastEnd(what, r, row, err)
			})
			add(func() {
				var data [][]interface{}
				var err error
				what := "closed " + r.desc + ".All"
				s.call(what, func() { data, _, err = r.rows.All() })
				if len(data) > 0 || (err == nil && !r.atEnd) {
					s.fail("%s returned %d rows, error %v", what, len(data), err)
				}
			})
			add(func() {
				var err error
				s.call("closed "+r.desc+".Close", func() { err = r.rows.Close() })
				s.wantOK("closing closed rows", err)
			})
		}
	}
	if s.stmt != nil && s.stmt.rows != nil && len(s.stmt.rows.old) > 0 {
		r := s.stmt.rows
		i := rapid.IntRange(0, len(r.old)-1).Draw(t, "oldi")
		add(func() {
			var err error
			s.call(fmt.Sprintf("%s[%d] (superseded).Close", r.desc, i), func() { err = r.old[i].Close() })
			s.wantOK("closing a pipeline row set that was read to its end", err)
		})
		add(func() {
			var row []interface{}
			var next bolt.PipelineRows
			what := fmt.Sprintf("%s[%d] (superseded).NextPipeline", r.desc, i)
			s.call(what, func() { row, _, next, _ = r.old[i].NextPipeline() })
			if row != nil || !isNilRows(next) {
				s.fail("%s returned data", what)
			}
		})
	}
	for _, st := range s.stStmt {
		st := st
		add(func() {
			var err error
			what := "closed " + st.desc + " exec"
			way := !st.pipe && s.sqlWay(st.stmt)
			s.call(what, func() {
				if st.pipe {
					_, err = st.pstmt.ExecPipeline(make([]map[string]interface{}, len(st.texts))...)
				} else if way {
					_, err = st.stmt.(driver.Stmt).Exec(nil)
				} else {
					_, err = st.stmt.ExecNeo(nil)
				}
			})
			s.wantRefused(what, err)
		})
		add(func() {
			var err error
			what := "closed " + st.desc + " query"
			way := !st.pipe && s.sqlWay(st.stmt)
			s.call(what, func() {
				if st.pipe {
					_, err = st.pstmt.QueryPipeline(make([]map[string]interface{}, len(st.texts))...)
				} else if way {
					_, err = st.stmt.(driver.Stmt).Query(nil)
				} else {
					_, err = st.stmt.QueryNeo(nil)
				}
			})
			s.wantRefused(what, err)
		})
		add(func() {
			var err error
			s.call("closed "+st.desc+".Close", func() {
				if st.pipe {
					err = st.pstmt.Close()
				} else {
					err = st.stmt.Close()
				}
			})
			s.wantOK("closing a closed statement", err)
		})
	}
	for _, tx := range s.stTx {
		tx := tx
		add(func() {
			var err error
			s.call("finished "+tx.desc+".Commit", func() { err = tx.tx.Commit() })
			s.wantRefused("committing a finished transaction", err)
		})
		add(func() {
			var err error
			s.call("finished "+tx.desc+".Rollback", func() { err = tx.tx.Rollback() })
			s.wantRefused("rolling back a finished transaction", err)
		})
	}
	if len(opts) == 0 {
		return
	}
	s.cls["stale"]++
	opts[rapid.IntRange(0, len(opts)-1).Draw(t, "stale")]()
}

func (s *sess) opMisc() {
	switch rapid.IntRange(0, 2).Draw(s.t, "misc") {
	case 0:
		n := rapid.SampledFrom([]uint16{0, 1, 2, 7, 16, 100, 255, 4096, 32768, 65535}).Draw(s.t, "chunk")
		s.call(fmt.Sprintf("conn.SetChunkSize(%d)", n), func() { s.conn.SetChunkSize(n) })
	default:
		if s.stmt != nil && s.stmt.rows != nil {
			s.checkRunMeta(s.stmt.rows)
		}
	}
}

// step runs one generated operation.
func (s *sess) step() {
	type alt struct {
		n int
		f func()
	}
	var alts []alt
	add := func(n int, f func()) {
		if n > 0 {
			alts = append(alts, alt{n, f})
		}
	}
	w := s.w
	idle := !s.busy() && !s.closed && !s.dead
	scale := func(n int) int { // calls that have to be refused are rarer
		if idle {
			return n * 4
		}
		if w.stale > 0 && n > 0 {
			return 1
		}
		return 0
	}
	failed := s.busy() && s.stmt.rows != nil && s.stmt.rows.state == "failed"
	if !failed {
		add(scale(w.conn), s.opExec)
		add(scale(w.conn), s.opQueryAll)
		add(scale(w.conn), s.opQuery)
		add(scale(w.pipe), s.opExecPipe)
		add(scale(w.pipe), s.opQueryPipe)
		if w.pipe > 0 && rapid.IntRange(0, 5).Draw(s.t, "ep") == 0 {
			add(scale(1), s.opEmptyPipe)
		}
		add(scale(w.stmt), s.opPrepare)
		add(scale(min(w.stmt, w.pipe)), s.opPreparePipe)
		if s.tx == nil {
			add(scale(w.tx), s.opBegin)
		} else if w.stale > 0 {
			add(1, s.opBegin)
		}
	}
	if s.busy() && !s.closed {
		st := s.stmt
		if !st.hidden {
			if st.rows == nil || (w.stale > 0 && !failed) {
				n := 12
				if st.rows != nil {
					n = 1
				}
				add(n, s.opStmtUse)
			}
			add(6, s.opStmtClose)
		}
		if st.rows != nil {
			n := 24
			if st.rows.state != "open" {
				n = 2
			}
			add(n, s.opNext)
			if st.rows.state == "open" {
				add(8, s.opDrive)
			}
			if !st.rows.pipe {
				add(min(n, 5), s.opAll)
			}
			add(8, s.opRowsClose)
		}
	}
	if s.tx != nil && !s.closed {
		add(w.tx*3, s.opFinish)
	}
	if w.poison > 0 && !s.closed && !s.dead && (!s.busy() || (!s.stmt.hidden && s.stmt.rows == nil)) {
		add(w.poison, s.opPoison)
	}
	add(w.stale, s.opStale)
	if !s.closed {
		add(w.misc, s.opMisc)
	}
	if s.closed {
		add(2, s.opConnClose)
	} else {
		add(1, s.opConnClose)
	}
	tot := 0
	for _, a := range alts {
		tot += a.n
	}
	k := rapid.IntRange(0, tot-1).Draw(s.t, "op")
	for _, a := range alts {
		if k < a.n {
			a.f()
			return
		}
		k -= a.n
	}
}

// finish closes the connection and compares the server's log with the model.
func (s *sess) finish() {
	defer s.checkKept()
	quit := s.nOps > 1<<19
	if !s.closed {
		s.opConnClose()
	}
	if s.dead {
		// the session has to be over for the server as well
		var err error
		s.call("conn.Close", func() { err = s.conn.Close() })
		_ = err
	}
	s.closeOther()
	if !s.srv.WaitGone(s.cid, 400) {
		s.fail("the connection was closed but its socket is still open")
	}
	if il := s.srv.Illegal(); len(il) > 0 {
		s.fail("the driver sent a request that is illegal in its state: %s", il[0])
	}
	var got []boltfake.Req
	acks, resets, fails := 0, 0, 0
	for _, r := range s.srv.ReqsOf(s.cid) {
		switch r.Kind {
		case boltfake.SigRun:
			got = append(got, r)
		case boltfake.SigAck:
			acks++
		case boltfake.SigReset:
			resets++
		}
		if r.Answer == "FAILURE" && r.Kind != boltfake.SigAck && r.Kind != boltfake.SigReset {
			fails++
		}
	}
	i := 0
	for _, e := range s.exp {
		if i >= len(got) {
			if e.optional {
				continue
			}
			s.fail("the server never received %q", e.text)
		}
		g := got[i]
		if e.optional && g.Stmt != e.text {
			continue
		}
		if g.Stmt != e.text {
			s.fail("request %d: the server received %q, want %q", i, g.Stmt, e.text)
		}
		want := e.params
		if want == nil {
			want = map[string]interface{}{}
		}
		if !refps.Equal(g.Params, want) {
			s.fail("request %d (%q): parameters %s, want %s", i, g.Stmt, vh.Show(g.Params), vh.Show(want))
		}
		if e.tx >= 0 && g.Tx != e.tx && g.Answer != "IGNORED" && !quit {
			s.fail("request %d (%q) ran in transaction %d, want %d (0: none)", i, g.Stmt, g.Tx, e.tx)
		}
		i++
	}
	if i < len(got) {
		s.fail("the server received an unexpected request %q (%d more than made)", got[i].Stmt, len(got)-i)
	}
	if !quit && !s.dead {
		if s.resets >= 0 && resets != s.resets {
			s.fail("%d RESETs were sent, want %d", resets, s.resets)
		}
		if s.acks >= 0 && (acks != fails || acks != s.acks) {
			s.fail("%d of %d failures were acknowledged (%d expected)", acks, fails, s.acks)
		}
	}
	var evs []string
	for _, e := range s.srv.TxLog() {
		if e.Conn == s.cid {
			evs = append(evs, fmt.Sprintf("%d %s", e.Tx, e.What))
		}
	}
	if s.dead && len(evs) == len(s.txexp)+1 && strings.HasSuffix(evs[len(evs)-1], "abandoned") {
		evs = evs[:len(evs)-1]
	}
	if !quit && strings.Join(evs, ", ") != strings.Join(s.txexp, ", ") {
		s.fail("transactions went [%s] on the server, want [%s]", strings.Join(evs, ", "), strings.Join(s.txexp, ", "))
	}
}

func runSession(t *rapid.T, prop string, w opWeights) {
	s := newSess(t, w, boltfake.Config{})
	defer s.srv.Close()
	s.open()
	n := rapid.IntRange(1, w.steps).Draw(t, "n")
	for s.nOps = 0; s.nOps < n; s.nOps++ {
		s.step()
	}
	s.finish()
	cl := []string{fmt.Sprintf("noise%d", s.noise)}
	for k := range s.cls {
		cl = append(cl, k)
	}
	vh.Note(prop, strings.Join(s.trace, "\n"), len(s.exp) >= 2, cl...)
}

func TestC07Sessions(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		runSession(t, "C07", opWeights{conn: 3, stmt: 3, pipe: 2, tx: 2, stale: 2, misc: 2, failPct: 20, steps: 30, hardFail: true, poolPct: 15})
	})
}

func TestC08Pipelines(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		runSession(t, "C08", opWeights{conn: 1, stmt: 2, pipe: 6, tx: 0, stale: 1, misc: 1, failPct: 8, steps: 40, poolPct: 10})
	})
}

func TestC09Failures(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		runSession(t, "C09", opWeights{conn: 3, stmt: 2, pipe: 2, tx: 2, stale: 0, misc: 1, failPct: 50, steps: 24, hardFail: true, poolPct: 25})
	})
}

func TestC10Transactions(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		runSession(t, "C10", opWeights{conn: 2, stmt: 2, pipe: 1, tx: 10, stale: 2, misc: 1, failPct: 12, steps: 30, hardFail: true, poolPct: 20})
	})
}

func TestC22Refusals(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		runSession(t, "C22", opWeights{conn: 2, stmt: 3, pipe: 2, tx: 2, stale: 14, misc: 1, failPct: 6, steps: 30, poolPct: 60})
	})
}
