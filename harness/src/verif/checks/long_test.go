package checks

import (
	"database/sql/driver"
	"fmt"
	"io"
	"testing"

	"pgregory.net/rapid"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	"verif/boltfake"
	"verif/vh"
)

// Long pipelines, results and sessions: nothing counted may wrap or run full.
// The data is cheap, so that the length can be large; the server derives its
// answer from the parameters k (number of the statement), n (number of records)
// and f (records before a failure, -1: on the run).

func cheapPlan(_ string, params interface{}) *boltfake.Plan {
	m, _ := params.(map[string]interface{})
	k, _ := m["k"].(int64)
	n, _ := m["n"].(int64)
	p := &boltfake.Plan{RunMeta: map[string]interface{}{"fields": []interface{}{"k", "i"}, "of": k}, Records: make([][]interface{}, n), Summary: map[string]interface{}{"own": k}}
	for i := range p.Records {
		p.Records[i] = []interface{}{k, int64(i)}
	}
	if f, ok := m["f"].(int64); ok {
		p.Fail = &boltfake.Fail{At: int(f), Meta: map[string]interface{}{"code": "Neo.Test", "message": fmt.Sprint("failure of ", k)}}
	}
	return p
}

type longRun struct {
	t    *rapid.T
	srv  *boltfake.Server
	conn bolt.Conn
	desc string
	in   bool    // in a call of do
	msg  string  // the problem found there
	sent []int64 // numbers of the statements sent
}

func newLong(t *rapid.T, desc string) *longRun {
	vh.Last(desc)
	l := &longRun{t: t, desc: desc, srv: boltfake.New(boltfake.Config{Seed: rapid.Uint64().Draw(t, "seed"), Noise: rapid.IntRange(0, 1).Draw(t, "noise")})}
	l.srv.Default(cheapPlan)
	conn, err := bolt.NewDriver().OpenNeo(openURL(l.srv.Addr))
	if err != nil {
		l.srv.Close()
		t.Fatalf("HARNESS: opening failed: %v", err)
	}
	l.conn = conn
	return l
}

func (l *longRun) fail(f string, a ...interface{}) {
	msg := fmt.Sprintf("%s (%s)", fmt.Sprintf(f, a...), l.desc)
	if l.in {
		l.msg = msg
		panic(msg)
	}
	l.t.Fatalf("%s", msg)
}

func (l *longRun) do(what string, f func()) {
	l.in, l.msg = true, ""
	o := vh.Guard(l.srv.Activity, f)
	l.in = false
	if l.msg != "" {
		l.t.Fatalf("%s", l.msg)
	}
	if o.Bad() != "" {
		l.fail("%s %s", what, o.Bad())
	}
}

func (l *longRun) params(k, n int64, fail int64) map[string]interface{} {
	m := map[string]interface{}{"k": k, "n": n}
	if fail >= -1 {
		m["f"] = fail
	}
	return m
}

func (l *longRun) wantRow(what string, row []interface{}, k int64, i int) {
	if len(row) != 2 || row[0] != k || row[1] != int64(i) {
		l.fail("%s: row %v, want [%d %d]", what, row, k, i)
	}
}

func (l *longRun) wantOwn(what string, m map[string]interface{}, k int64) {
	if len(m) != 1 || m["own"] != k {
		l.fail("%s: summary %v, want that of %d", what, m, k)
	}
}

func (l *longRun) wantFail(what string, err error, k int64) {
	if m, ok := vh.Failure(err); !ok || m["message"] != fmt.Sprint("failure of ", k) {
		l.fail("%s: %s, want the failure of %d", what, vh.Brief(err), k)
	}
}

// end runs a last query and checks what the server saw.
func (l *longRun) end() {
	last := int64(1 << 40)
	l.do("last exec", func() {
		res, err := l.conn.ExecNeo("last", l.params(last, 0, -2))
		if err != nil {
			l.fail("the connection is not usable afterwards: %s", vh.Brief(err))
		}
		l.wantOwn("last exec", res.Metadata(), last)
	})
	l.do("Close", func() {
		if err := l.conn.Close(); err != nil {
			l.fail("Close: %s", vh.Brief(err))
		}
	})
	if !l.srv.WaitGone(0, 300) {
		l.fail("the connection is still open after Close")
	}
	if bad := l.srv.Illegal(); len(bad) > 0 {
		l.fail("illegal requests: %v", bad)
	}
	runs, i := l.srv.Runs(), 0
	sent := append(l.sent, last)
	for _, r := range runs {
		m, _ := r.Params.(map[string]interface{})
		k, ok := m["k"].(int64)
		if !ok {
			continue // BEGIN, COMMIT, ROLLBACK
		}
		if i >= len(sent) || sent[i] != k {
			l.fail("statement %d that reached the server is %d", i, k)
		}
		i++
	}
	if i != len(sent) {
		l.fail("%d statements reached the server, %d were sent", i, len(sent))
	}
}

// genLen draws a number around the places where counters end, or any up to max.
func genLen(t *rapid.T, max int, around ...int) int {
	if rapid.Bool().Draw(t, "edge") {
		n := rapid.SampledFrom(around).Draw(t, "around") + rapid.IntRange(-2, 3).Draw(t, "off")
		if n < 1 {
			n = 1
		}
		return n
	}
	return rapid.IntRange(1, max).Draw(t, "n")
}

func TestC08Long(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		n := genLen(t, 400, 16, 32, 64, 100, 128, 256)
		recs := int64(rapid.IntRange(0, 3).Draw(t, "recs"))
		mode := rapid.SampledFrom([]string{"conn query", "stmt query", "conn exec", "stmt exec"}).Draw(t, "mode")
		failAt, failRec := -1, int64(-2)
		if rapid.IntRange(0, 3).Draw(t, "fails") == 0 {
			failAt, failRec = rapid.IntRange(0, n-1).Draw(t, "failat"), int64(rapid.IntRange(-1, int(recs)).Draw(t, "failrec"))
		}
		stop := n // the row set to close in
		if rapid.IntRange(0, 2).Draw(t, "stops") == 0 {
			stop = rapid.IntRange(0, n-1).Draw(t, "stop")
		}
		desc := fmt.Sprintf("%s, pipeline of %d queries with %d records each, closed in row set %d", mode, n, recs, stop)
		if failAt >= 0 {
			desc += fmt.Sprintf(", query %d fails after %d records", failAt, failRec)
		}
		l := newLong(t, desc)
		defer l.srv.Close()
		qs, ps := make([]string, n), make([]map[string]interface{}, n)
		for i := range qs {
			qs[i], ps[i] = fmt.Sprint("q", i), l.params(int64(i), recs, -2)
			if i == failAt {
				ps[i]["f"] = failRec
			}
			l.sent = append(l.sent, int64(i))
		}
		var st bolt.PipelineStmt
		if mode[:4] == "stmt" {
			var err error
			if st, err = l.conn.PreparePipeline(qs...); err != nil {
				l.fail("PreparePipeline: %s", vh.Brief(err))
			}
		}
		switch mode {
		case "conn exec", "stmt exec":
			var rs []bolt.Result
			var err error
			l.do("ExecPipeline", func() {
				if st != nil {
					rs, err = st.ExecPipeline(ps...)
				} else {
					rs, err = l.conn.ExecPipeline(qs, ps...)
				}
			})
			if failAt >= 0 {
				l.wantFail("ExecPipeline", err, int64(failAt))
				break
			}
			if err != nil || len(rs) != n {
				l.fail("ExecPipeline: %d results, %s", len(rs), vh.Brief(err))
			}
			for i, r := range rs {
				l.wantOwn(fmt.Sprint("result ", i), r.Metadata(), int64(i))
			}
		default:
			l.readPipe(qs, ps, st, n, stop, int(recs), failAt, int(failRec))
		}
		if st != nil {
			l.do("Close of the statement", func() { st.Close() })
		}
		l.end()
		vh.Note("C08Long:", desc, n > 4, mode, fmt.Sprintf("size-%d", 1<<uint(bits(n))))
	})
}

func bits(n int) (b int) {
	for ; n > 0; n >>= 1 {
		b++
	}
	return b
}

func (l *longRun) readPipe(qs []string, ps []map[string]interface{}, st bolt.PipelineStmt, n, stop, recs, failAt, failRec int) {
	var rows bolt.PipelineRows
	var err error
	l.do("QueryPipeline", func() {
		if st != nil {
			rows, err = st.QueryPipeline(ps...)
		} else {
			rows, err = l.conn.QueryPipeline(qs, ps...)
		}
	})
	if failAt == 0 && failRec == -1 {
		l.wantFail("QueryPipeline", err, 0)
		return
	}
	if err != nil {
		l.fail("QueryPipeline: %s", vh.Brief(err))
	}
	closeIt := func(what string, mayFail bool) {
		l.do("Close of "+what, func() { err = rows.Close() })
		if err != nil && !mayFail {
			l.fail("Close of %s: %s", what, vh.Brief(err))
		}
	}
	for i := 0; ; i++ {
		what := fmt.Sprint("row set ", i)
		if m := rows.Metadata(); m["of"] != int64(i) {
			l.fail("%s has metadata %v", what, m)
		}
		if i == stop {
			closeIt(what, failAt >= i)
			return
		}
		var row []interface{}
		var next bolt.PipelineRows
		for k := 0; ; k++ {
			l.do("NextPipeline of "+what, func() { row, _, next, err = rows.NextPipeline() })
			if i == failAt && k == failRec {
				l.wantFail(what, err, int64(i))
				closeIt(what, true)
				return
			}
			if k == recs {
				break
			}
			if err != nil {
				l.fail("%s: %s", what, vh.Brief(err))
			}
			l.wantRow(what, row, int64(i), k)
		}
		switch {
		case i == n-1:
			if err != nil && err != io.EOF || row != nil || !isNilRows(next) {
				l.fail("the end of the pipeline is %v, %v, %s", row, next, vh.Brief(err))
			}
			closeIt(what, false)
			return
		case i+1 == failAt && failRec == -1:
			l.wantFail(what, err, int64(i+1))
			closeIt(what, true)
			return
		}
		if err != nil || isNilRows(next) || row != nil {
			l.fail("the end of %s is %v, %v, %s", what, row, next, vh.Brief(err))
		}
		rows = next
	}
}

func TestC06Long(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		n := genLen(t, 3000, 16, 128, 256, 1000, 1024, 4096, 32768, 65536)
		mode := rapid.SampledFrom([]string{"next", "next", "all", "conn all", "exec", "sql"}).Draw(t, "mode")
		stmt := rapid.Bool().Draw(t, "stmt")
		fails := rapid.IntRange(0, 5).Draw(t, "fails") == 0
		stop := n + 1 // calls before closing
		if mode != "all" && rapid.IntRange(0, 2).Draw(t, "stops") == 0 {
			stop = rapid.IntRange(0, n).Draw(t, "stop")
		}
		desc := fmt.Sprintf("%s (prepared: %v), %d records, closed after %d calls, failure at the end: %v", mode, stmt, n, stop, fails)
		l := newLong(t, desc)
		defer l.srv.Close()
		f := int64(-2)
		if fails {
			f = int64(n)
		}
		ps := l.params(7, int64(n), f)
		l.sent = append(l.sent, 7)
		all := func(data [][]interface{}, m map[string]interface{}, err error) {
			if fails {
				l.wantFail("All", err, 7)
				return
			}
			if err != nil || len(data) != n {
				l.fail("All: %d rows, %s", len(data), vh.Brief(err))
			}
			for i, row := range data {
				l.wantRow("All", row, 7, i)
			}
			l.wantOwn("All", m, 7)
		}
		var st bolt.Stmt
		if stmt {
			var err error
			if st, err = l.conn.PrepareNeo("long"); err != nil {
				l.fail("PrepareNeo: %s", vh.Brief(err))
			}
		}
		if mode == "conn all" && !stmt {
			l.do("QueryNeoAll", func() {
				data, _, m, err := l.conn.QueryNeoAll("long", ps)
				all(data, m, err)
			})
		} else if mode == "exec" {
			l.do("ExecNeo", func() {
				var res bolt.Result
				var err error
				if stmt {
					res, err = st.ExecNeo(ps)
				} else {
					res, err = l.conn.ExecNeo("long", ps)
				}
				if fails {
					l.wantFail("ExecNeo", err, 7)
				} else if err != nil {
					l.fail("ExecNeo: %s", vh.Brief(err))
				} else {
					l.wantOwn("ExecNeo", res.Metadata(), 7)
				}
			})
		} else {
			var rows bolt.Rows
			var err error
			l.do("QueryNeo", func() {
				if stmt {
					rows, err = st.QueryNeo(ps)
				} else {
					rows, err = l.conn.QueryNeo("long", ps)
				}
			})
			if err != nil {
				l.fail("QueryNeo: %s", vh.Brief(err))
			}
			sqlRows, isSQL := rows.(driver.Rows)
			switch {
			case mode == "all" || mode == "conn all":
				l.do("All", func() { all(rows.All()) })
			default:
				l.do("reading", func() {
					dest := make([]driver.Value, 2)
					for i := 0; i < stop; i++ {
						var row []interface{}
						var m map[string]interface{}
						if mode == "sql" && isSQL {
							if err = sqlRows.Next(dest); err == nil {
								row = []interface{}{dest[0], dest[1]}
							}
						} else {
							row, m, err = rows.NextNeo()
						}
						if i < n {
							if err != nil {
								l.fail("row %d: %s", i, vh.Brief(err))
							}
							l.wantRow("NextNeo", row, 7, i)
						} else if fails {
							l.wantFail("NextNeo", err, 7)
						} else if err != io.EOF {
							l.fail("end of rows: %v, %s", row, vh.Brief(err))
						} else if mode != "sql" || !isSQL {
							l.wantOwn("NextNeo", m, 7)
						}
					}
				})
			}
			l.do("Close of the rows", func() { err = rows.Close() })
			if err != nil && !fails {
				l.fail("Close of the rows: %s", vh.Brief(err))
			}
		}
		if st != nil {
			l.do("Close of the statement", func() { st.Close() })
		}
		l.end()
		vh.Note("C06Long:", desc, n > 16, mode, fmt.Sprintf("size-%d", 1<<uint(bits(n))))
	})
}

func TestC07Long(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		n := genLen(t, 900, 64, 128, 256, 512, 1024)
		seed := rapid.Uint64().Draw(t, "ops")
		failPct := rapid.SampledFrom([]int{0, 5, 50, 100}).Draw(t, "failpct")
		only := rapid.SampledFrom([]int{-1, -1, -1, 0, 1, 2, 3, 4, 5}).Draw(t, "only")
		desc := fmt.Sprintf("%d calls (ops %x, only kind %d, %d%% fail)", n, seed, only, failPct)
		l := newLong(t, desc)
		defer l.srv.Close()
		r := &prng{seed}
		var tx driver.Tx
		var txs []string
		left := 0 // calls before the transaction is finished
		check := func(what string, err error) {
			if err != nil {
				l.fail("%s: %s", what, vh.Brief(err))
			}
		}
		finish := func() {
			l.do("end of transaction", func() {
				if r.Choose(2) == 0 {
					txs = append(txs, "commit")
					check("Commit", tx.Commit())
				} else {
					txs = append(txs, "rollback")
					check("Rollback", tx.Rollback())
				}
			})
			tx = nil
		}
		for i := 0; i < n; i++ {
			k := int64(i)
			what := fmt.Sprint("call ", i)
			if tx != nil {
				if left--; left < 0 {
					finish()
				}
			}
			recs := int64(r.Choose(4))
			fail := int64(-2)
			if tx == nil && r.Choose(100) < failPct {
				fail = int64(r.Choose(int(recs)+2)) - 1
			}
			op := r.Choose(6)
			if only >= 0 {
				op = only
			}
			if op == 4 && tx != nil {
				op = 0
			}
			if op != 4 {
				l.sent = append(l.sent, k)
			}
			ps := l.params(k, recs, fail)
			l.do(what, func() {
				switch op {
				case 0:
					res, err := l.conn.ExecNeo("q", ps)
					if fail > -2 {
						l.wantFail(what, err, k)
						return
					}
					check(what, err)
					l.wantOwn(what, res.Metadata(), k)
				case 1, 2: // query, directly or by a statement; read some rows
					var rows bolt.Rows
					var err error
					var st bolt.Stmt
					if op == 1 {
						rows, err = l.conn.QueryNeo("q", ps)
					} else {
						st, err = l.conn.PrepareNeo("q")
						check(what+" prepare", err)
						defer st.Close()
						rows, err = st.QueryNeo(ps)
					}
					if fail == -1 {
						l.wantFail(what, err, k)
						return
					}
					check(what, err)
					defer rows.Close()
					for j := r.Choose(int(recs) + 2); j > 0; j-- {
						row, m, err := rows.NextNeo()
						switch {
						case fail > -2 && err != nil && err != io.EOF:
							l.wantFail(what, err, k)
							return
						case err == io.EOF:
							l.wantOwn(what, m, k)
							return
						}
						check(what, err)
						if len(row) != 2 || row[0] != k {
							l.fail("%s: row %v", what, row)
						}
					}
				case 3:
					data, _, m, err := l.conn.QueryNeoAll("q", ps)
					if fail > -2 {
						l.wantFail(what, err, k)
						return
					}
					check(what, err)
					if int64(len(data)) != recs {
						l.fail("%s: %d rows, want %d", what, len(data), recs)
					}
					for j, row := range data {
						l.wantRow(what, row, k, j)
					}
					l.wantOwn(what, m, k)
				case 4:
					var err error
					tx, err = l.conn.Begin()
					check(what+" begin", err)
					txs = append(txs, "begin")
					left = r.Choose(4)
				case 5:
					rs, err := l.conn.ExecPipeline([]string{"p", "p"}, ps, l.params(k+1<<20, 0, -2))
					l.sent = append(l.sent, k+1<<20)
					if fail > -2 {
						l.wantFail(what, err, k)
						return
					}
					check(what, err)
					l.wantOwn(what, rs[0].Metadata(), k)
					l.wantOwn(what, rs[1].Metadata(), k+1<<20)
				}
			})
		}
		if tx != nil {
			finish()
		}
		l.end()
		log := l.srv.TxLog()
		if len(log) != len(txs) {
			l.fail("%d transaction events at the server, want %d", len(log), len(txs))
		}
		for i := range log {
			if log[i].What != txs[i] {
				l.fail("transaction event %d is %s, want %s", i, log[i].What, txs[i])
			}
		}
		vh.Note("C07Long:", desc, n > 16, fmt.Sprintf("only-%d", only), fmt.Sprintf("fail-%d", failPct), fmt.Sprintf("size-%d", 1<<uint(bits(n))))
	})
}
