// Package script generates histories of driver calls as data, so that the same
// history can be run several times (with and without a fault, a recorder, a
// log level, other sessions next to it) and the outcomes compared call by call.
package script

import (
	"database/sql/driver"
	"fmt"
	"io"
	"reflect"
	"strings"

	"pgregory.net/rapid"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	"verif/boltfake"
	"verif/vh"
)

// P is a statement with its parameters and the server's answer.
type P struct {
	ID     int64
	Text   string
	Params map[string]interface{} // reference form
	Plan   *boltfake.Plan
}

// Op is one operation of a history.
type Op struct {
	Kind string // exec all rows stmt-exec stmt-rows pexec prows pstmt-exec pstmt-rows begin commit rollback
	Ps   []*P
	Read int            // rows: how many Next calls at most
	All  bool           // rows: read the rest with All
	Open bool           // rows: leave open (only the last operation)
	Fail *boltfake.Fail // begin commit rollback
}

func (o Op) String() string {
	s := o.Kind
	for _, p := range o.Ps {
		s += fmt.Sprintf(" q%d[%d rows", p.ID, len(p.Plan.Records))
		if p.Plan.Fail != nil {
			s += fmt.Sprintf(" fail@%d", p.Plan.Fail.At)
		}
		s += "]"
	}
	if strings.HasSuffix(o.Kind, "rows") {
		s += fmt.Sprintf(" read=%d all=%v open=%v", o.Read, o.All, o.Open)
	}
	if o.Fail != nil {
		s += fmt.Sprintf(" fail@%d", o.Fail.At)
	}
	return s
}

// Script is a history.
type Script struct {
	Ops   []Op
	Base  int64 // statement ids are Base+1...
	Chunk uint16
	byID  map[int64]*P
}

func (s *Script) String() string {
	var b []string
	for _, o := range s.Ops {
		b = append(b, o.String())
	}
	return strings.Join(b, "; ")
}

// Opt steers generation.
type Opt struct {
	Base     int64
	MaxOps   int
	FailPct  int
	NoOpen   bool // no rows or transaction left open at the end
	NoTx     bool
	Big      bool
	MaxRows  int
	OnlyOK   bool
	NoTxFail bool // begin, commit and rollback succeed
	OneKey   bool // maps with a single key only, so that the order of keys can't change a request's bytes
}

// Gen generates a history.
func Gen(t *rapid.T, o Opt) *Script {
	s := &Script{Base: o.Base, byID: map[int64]*P{}}
	if o.MaxRows == 0 {
		o.MaxRows = 4
	}
	n := rapid.IntRange(1, o.MaxOps).Draw(t, "ops")
	if rapid.IntRange(0, 3).Draw(t, "chunked") == 0 {
		s.Chunk = uint16(rapid.SampledFrom([]int{1, 2, 3, 7, 16, 100, 1000}).Draw(t, "chunk"))
	}
	id := o.Base
	fail := func(nr int) *boltfake.Fail {
		if rapid.IntRange(0, 99).Draw(t, "failpct") >= o.FailPct {
			return nil
		}
		return &boltfake.Fail{At: rapid.IntRange(-1, nr).Draw(t, "at"), Meta: map[string]interface{}{"code": rapid.SampledFrom([]string{"Neo.X", "Neo.ClientError.Security.Unauthorized", "Neo.TransientError.Y", "Neo.DatabaseError.Z"}).Draw(t, "code"), "message": fmt.Sprintf("failure of q%d", id)}}
	}
	newP := func() *P {
		id++
		nf := rapid.IntRange(1, 3).Draw(t, "nf")
		nr := rapid.IntRange(0, o.MaxRows).Draw(t, "nr")
		pl := &boltfake.Plan{RunMeta: map[string]interface{}{"run": id}, Summary: map[string]interface{}{"sum": id, "stats": map[string]interface{}{"nodes-created": id}}}
		var f []interface{}
		for i := 0; i < nf; i++ {
			f = append(f, fmt.Sprintf("c%d_%d", id, i))
		}
		pl.RunMeta["fields"] = f
		big := 0
		if o.Big && rapid.IntRange(0, 5).Draw(t, "big") == 0 {
			big = rapid.SampledFrom([]int{300, 5000, 70000}).Draw(t, "bigsize")
		}
		for r := 0; r < nr; r++ {
			rec := []interface{}{fmt.Sprintf("q%d r%d", id, r)}
			for i := 1; i < nf; i++ {
				rec = append(rec, vh.Val(t, &vh.Opt{Budget: 3, Depth: 2, Graph: true}))
			}
			if big > 0 {
				rec[0] = fmt.Sprintf("q%d r%d %s", id, r, strings.Repeat("x", big))
			}
			pl.Records = append(pl.Records, rec)
		}
		if !o.OnlyOK {
			pl.Fail = fail(nr)
		}
		p := &P{ID: id, Text: vh.Cypher(t, int(id)), Params: map[string]interface{}{"k": id}, Plan: pl}
		if o.OneKey {
			p.Text += strings.Repeat(" ", rapid.SampledFrom([]int{0, 0, 1, 7, 40, 300}).Draw(t, "pad"))
			if big > 0 {
				p.Text += "//" + strings.Repeat("y", big)
			}
			s.byID[id] = p
			return p
		}
		for i := rapid.IntRange(0, 2).Draw(t, "np"); i > 0; i-- {
			p.Params["p"+vh.Key(t)] = vh.Val(t, &vh.Opt{Budget: 3, Depth: 2})
		}
		if big > 0 {
			p.Params["big"] = strings.Repeat("y", big)
		}
		s.byID[id] = p
		return p
	}
	inTx := false
	for i := 0; i < n; i++ {
		kinds := []string{"exec", "all", "rows", "rows", "stmt-exec", "stmt-rows", "stmt-rows", "pexec", "prows", "prows", "pstmt-exec", "pstmt-rows"}
		if !o.NoTx {
			if inTx {
				kinds = append(kinds, "commit", "commit", "commit", "rollback", "rollback")
			} else {
				kinds = append(kinds, "begin", "begin", "begin", "begin")
			}
		}
		op := Op{Kind: rapid.SampledFrom(kinds).Draw(t, "kind")}
		switch op.Kind {
		case "begin", "commit", "rollback":
			if !o.OnlyOK && !o.NoTxFail {
				op.Fail = fail(0)
			}
			if op.Kind == "begin" {
				inTx = op.Fail == nil
			} else {
				inTx = false
			}
		case "pexec", "prows", "pstmt-exec", "pstmt-rows":
			for k := rapid.IntRange(1, 4).Draw(t, "npipe"); k > 0; k-- {
				op.Ps = append(op.Ps, newP())
			}
		default:
			op.Ps = []*P{newP()}
		}
		if strings.HasSuffix(op.Kind, "rows") {
			op.Read = rapid.IntRange(0, 8).Draw(t, "read")
			op.All = op.Kind[0] != 'p' && rapid.IntRange(0, 3).Draw(t, "rest") == 0
			op.Open = !o.NoOpen && i == n-1 && rapid.IntRange(0, 3).Draw(t, "open") == 0
		}
		s.Ops = append(s.Ops, op)
	}
	if o.NoOpen && inTx {
		s.Ops = append(s.Ops, Op{Kind: "rollback"})
	}
	return s
}

// Lookup returns the plan for a request, for the server.
func (s *Script) Lookup(params interface{}) *boltfake.Plan {
	m, _ := params.(map[string]interface{})
	if k, ok := m["k"].(int64); ok {
		if p := s.byID[k]; p != nil {
			return p.Plan
		}
	}
	return nil
}

// Serve makes the server answer the statements of the history. Failures of
// begin, commit and rollback are queued.
func (s *Script) Serve(srv *boltfake.Server) {
	srv.Default(func(_ string, params interface{}) *boltfake.Plan { return s.Lookup(params) })
	for _, o := range s.Ops {
		switch o.Kind {
		case "begin", "commit", "rollback":
			srv.TxFail(strings.ToUpper(o.Kind), o.Fail)
		}
	}
}

// Classes of call outcomes.
const (
	OK   = "ok"
	EOF  = "eof"
	Fail = "fail" // the server's failure
	Bad  = "bad"  // bad-connection error
	Err  = "err"  // any other error
)

// Call is the outcome of one driver call.
type Call struct {
	Desc    string
	Class   string
	Out     string // canonical form of everything returned
	Err     error
	Need    int    // number of response messages the call must have read (with a server to count)
	Abnorm  string // panic or hang
	Closing bool   // a Close call
}

func (c Call) String() string {
	s := fmt.Sprintf("%s -> %s", c.Desc, c.Class)
	if c.Out != "" {
		o := c.Out
		if len(o) > 160 {
			o = o[:160] + "..."
		}
		s += " " + o
	}
	if c.Err != nil && c.Class != EOF {
		s += " (" + vh.Brief(c.Err) + ")"
	}
	return s + c.Abnorm
}

// Runner runs a history.
type Runner struct {
	Activity func() int64
	Srv      *boltfake.Server // optional: for counting messages
	ConnID   int
	Calls    []Call
	After    func(r *Runner, c *Call) // called after each call; may set Stop
	Stop     bool
	Raw      bool // no guard goroutine
	msgs     int
	tx       driver.Tx
	kept     []kept
}

type kept struct {
	what string
	v    interface{}
	out  string
}

// keep notes returned data, which must not change later.
func (r *Runner) keep(what string, v interface{}, out string) string {
	if len(out) < 5000 {
		r.kept = append(r.kept, kept{what, v, out})
	}
	return out
}

// checkKept adds an abnormal call if returned data changed.
func (r *Runner) checkKept() {
	for _, k := range r.kept {
		now := ""
		switch x := k.v.(type) {
		case []interface{}:
			now = rowStr(x)
		case map[string]interface{}:
			now = metaStr(x)
		}
		if now != k.out {
			r.Calls = append(r.Calls, Call{Desc: k.what, Class: Err, Abnorm: fmt.Sprintf(" returned data that changed later from %s to %s", k.out, now)})
			return
		}
	}
	r.kept = nil
}

// Classify returns the class of an error.
func Classify(err error) string {
	switch {
	case err == nil:
		return OK
	case err == io.EOF:
		return EOF
	case vh.IsBadConn(err):
		return Bad
	}
	if _, ok := vh.Failure(err); ok {
		return Fail
	}
	return Err
}

func canon(v interface{}) string {
	r, err := vh.FromDriver(v)
	if err != nil {
		return "!" + err.Error()
	}
	return vh.Show(r)
}

func rowStr(r []interface{}) string {
	if r == nil {
		return "-"
	}
	return canon(r)
}

func metaStr(m map[string]interface{}) string {
	if m == nil {
		return "-"
	}
	return canon(m)
}

// Do runs one call. f returns the canonical output and the error; idle says
// that no unread responses are left when the call returns normally, add is the
// number of messages it reads otherwise.
func (r *Runner) Do(desc string, closing bool, f func() (out string, idle bool, add int, err error)) *Call {
	if r.Stop {
		return &Call{Desc: desc, Class: Err}
	}
	c := Call{Desc: desc, Closing: closing}
	var idle bool
	var add int
	if r.Raw {
		c.Out, idle, add, c.Err = f()
	} else {
		o := vh.Guard(r.Activity, func() { c.Out, idle, add, c.Err = f() })
		c.Abnorm = o.Bad()
		if c.Abnorm != "" {
			// the call may still be running: leave its variables alone
			c = Call{Desc: desc, Closing: closing, Abnorm: c.Abnorm, Class: Err}
			r.Calls = append(r.Calls, c)
			r.Stop = true
			return &r.Calls[len(r.Calls)-1]
		}
	}
	c.Class = Classify(c.Err)
	if c.Class == Fail {
		m, _ := vh.Failure(c.Err)
		c.Out += " failure " + metaStr(m)
		idle = true
	}
	if r.Srv != nil {
		if idle {
			r.msgs = r.Srv.Msgs(r.ConnID)
		} else {
			r.msgs += add
		}
		c.Need = r.msgs
	}
	r.Calls = append(r.Calls, c)
	p := &r.Calls[len(r.Calls)-1]
	if r.After != nil {
		r.After(r, p)
	}
	return p
}

func resStr(x bolt.Result) string {
	if x == nil {
		return "-"
	}
	n, err := x.RowsAffected()
	return fmt.Sprintf("%s rows=%d %v", metaStr(x.Metadata()), n, err)
}

// Run runs the history on a fresh connection and closes it at the end (unless
// keep). Values passed as parameters are built per call.
func (s *Script) Run(r *Runner, conn bolt.Conn, keep bool) {
	if r.Srv != nil {
		r.msgs = 1
	}
	if s.Chunk > 0 {
		conn.SetChunkSize(s.Chunk)
	}
	for i := range s.Ops {
		if r.Stop {
			break
		}
		s.op(r, conn, &s.Ops[i])
	}
	defer r.checkKept()
	if !keep && !r.Stop {
		r.Do("conn.Close", true, func() (string, bool, int, error) { return "", true, 0, conn.Close() })
	}
}

func (s *Script) in(p *P) map[string]interface{} {
	return vh.ToDriver(p.Params).(map[string]interface{})
}

func (s *Script) op(r *Runner, conn bolt.Conn, o *Op) {
	d := o.String()
	p0 := func() *P { return o.Ps[0] }
	qs := func() (q []string, in []map[string]interface{}) {
		for _, p := range o.Ps {
			q = append(q, p.Text)
			in = append(in, s.in(p))
		}
		return
	}
	results := func(rs []bolt.Result) string {
		out := ""
		for _, x := range rs {
			out += resStr(x) + ";"
		}
		return out
	}
	switch o.Kind {
	case "exec":
		r.Do("conn."+d, false, func() (string, bool, int, error) {
			x, err := conn.ExecNeo(p0().Text, s.in(p0()))
			return resStr(x), true, 0, err
		})
	case "all":
		r.Do("conn."+d, false, func() (string, bool, int, error) {
			rows, m1, m2, err := conn.QueryNeoAll(p0().Text, s.in(p0()))
			out := ""
			for _, x := range rows {
				out += rowStr(x) + ";"
			}
			return out + metaStr(m1) + metaStr(m2), true, 0, err
		})
	case "rows":
		var rows bolt.Rows
		c := r.Do("conn.Query "+d, false, func() (string, bool, int, error) {
			x, err := conn.QueryNeo(p0().Text, s.in(p0()))
			if err != nil {
				return "", false, 0, err
			}
			rows = x
			return metaStr(x.Metadata()) + fmt.Sprint(x.Columns()), false, 1, nil
		})
		if c.Class == OK {
			s.rows(r, rows, o)
		}
	case "stmt-exec", "stmt-rows":
		var st bolt.Stmt
		c := r.Do("conn.PrepareNeo "+d, false, func() (string, bool, int, error) {
			x, err := conn.PrepareNeo(p0().Text)
			st = x
			return "", false, 0, err
		})
		if c.Class != OK {
			return
		}
		if o.Kind == "stmt-exec" {
			r.Do("stmt.ExecNeo "+d, false, func() (string, bool, int, error) {
				x, err := st.ExecNeo(s.in(p0()))
				return resStr(x), true, 0, err
			})
		} else {
			var rows bolt.Rows
			c := r.Do("stmt.QueryNeo "+d, false, func() (string, bool, int, error) {
				x, err := st.QueryNeo(s.in(p0()))
				if err != nil {
					return "", false, 0, err
				}
				rows = x
				return metaStr(x.Metadata()) + fmt.Sprint(x.Columns()), false, 1, nil
			})
			if c.Class == OK {
				s.rows(r, rows, o)
			}
		}
		if !o.Open {
			r.Do("stmt.Close", true, func() (string, bool, int, error) { return "", true, 0, st.Close() })
		}
	case "pexec":
		q, in := qs()
		r.Do("conn."+d, false, func() (string, bool, int, error) {
			x, err := conn.ExecPipeline(q, in...)
			return results(x), true, 0, err
		})
	case "prows":
		q, in := qs()
		var rows bolt.PipelineRows
		c := r.Do("conn.QueryPipeline "+d, false, func() (string, bool, int, error) {
			x, err := conn.QueryPipeline(q, in...)
			if err != nil {
				return "", false, 0, err
			}
			rows = x
			return metaStr(x.Metadata()) + fmt.Sprint(x.Columns()), false, 1, nil
		})
		if c.Class == OK {
			s.prows(r, rows, o)
		}
	case "pstmt-exec", "pstmt-rows":
		q, in := qs()
		var st bolt.PipelineStmt
		c := r.Do("conn.PreparePipeline "+d, false, func() (string, bool, int, error) {
			x, err := conn.PreparePipeline(q...)
			st = x
			return "", false, 0, err
		})
		if c.Class != OK {
			return
		}
		if o.Kind == "pstmt-exec" {
			r.Do("pstmt.ExecPipeline "+d, false, func() (string, bool, int, error) {
				x, err := st.ExecPipeline(in...)
				return results(x), true, 0, err
			})
		} else {
			var rows bolt.PipelineRows
			c := r.Do("pstmt.QueryPipeline "+d, false, func() (string, bool, int, error) {
				x, err := st.QueryPipeline(in...)
				if err != nil {
					return "", false, 0, err
				}
				rows = x
				return metaStr(x.Metadata()) + fmt.Sprint(x.Columns()), false, 1, nil
			})
			if c.Class == OK {
				s.prows(r, rows, o)
			}
		}
		if !o.Open {
			r.Do("pstmt.Close", true, func() (string, bool, int, error) { return "", true, 0, st.Close() })
		}
	case "begin":
		r.Do("conn."+d, false, func() (string, bool, int, error) {
			tx, err := conn.Begin()
			if err == nil {
				r.tx = tx
			}
			return "", true, 0, err
		})
	case "commit", "rollback":
		if r.tx == nil {
			return
		}
		tx := r.tx
		r.tx = nil
		r.Do("tx."+d, false, func() (string, bool, int, error) {
			if o.Kind == "commit" {
				return "", true, 0, tx.Commit()
			}
			return "", true, 0, tx.Rollback()
		})
	}
}

func (s *Script) rows(r *Runner, rows bolt.Rows, o *Op) {
	over := false
	for i := 0; i < o.Read && !over && !r.Stop; i++ {
		c := r.Do("rows.NextNeo of "+o.String(), false, func() (string, bool, int, error) {
			row, m, err := rows.NextNeo()
			return r.keep(o.String(), row, rowStr(row)) + r.keep(o.String(), m, metaStr(m)), err != nil, 1, err
		})
		over = c.Class != OK
	}
	if !over && o.All {
		r.Do("rows.All of "+o.String(), false, func() (string, bool, int, error) {
			all, m, err := rows.All()
			out := ""
			for _, x := range all {
				out += rowStr(x) + ";"
			}
			return out + metaStr(m), true, 0, err
		})
	}
	if !o.Open {
		r.Do("rows.Close", true, func() (string, bool, int, error) { return "", true, 0, rows.Close() })
	}
}

func (s *Script) prows(r *Runner, rows bolt.PipelineRows, o *Op) {
	over := false
	for i := 0; i < o.Read && !over && !r.Stop; i++ {
		var next bolt.PipelineRows
		end := false
		c := r.Do("rows.NextPipeline of "+o.String(), false, func() (string, bool, int, error) {
			row, m, n, err := rows.NextPipeline()
			out := r.keep(o.String(), row, rowStr(row)) + r.keep(o.String(), m, metaStr(m))
			add := 1
			if row == nil && err == nil {
				if isNil(n) {
					out += " end"
					end = true
				} else {
					next = n
					add = 2
					out += " next " + metaStr(n.Metadata())
				}
			}
			return out, err != nil || end, add, err
		})
		over = c.Class != OK || end
		if next != nil {
			rows = next
		}
	}
	if !o.Open {
		r.Do("rows.Close", true, func() (string, bool, int, error) { return "", true, 0, rows.Close() })
	}
}

func isNil(p bolt.PipelineRows) bool {
	if p == nil {
		return true
	}
	v := reflect.ValueOf(p)
	return v.Kind() == reflect.Ptr && v.IsNil()
}
