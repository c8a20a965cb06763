package checks

import (
	"context"
	"database/sql"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"testing"

	"pgregory.net/rapid"

	"github.com/johnnadratowski/golang-neo4j-bolt-driver/encoding"
	"verif/boltfake"
	"verif/refps"
	"verif/vh"
)

// ---- C19: the database/sql interface ----

type sqlSess struct {
	t     *rapid.T
	srv   *boltfake.Server
	db    *sql.DB
	max   int
	trace []string
	key   int
	mu    sync.Mutex
	plans map[string]*boltfake.Plan
	cls   map[string]int
	lost  int // that many errors for lost connections may still come
	txs   []*openTx
}

func (s *sqlSess) fail(f string, a ...interface{}) {
	s.t.Helper()
	var b strings.Builder
	for _, l := range s.trace {
		b.WriteString("  " + l + "\n")
	}
	b.WriteString("server log:\n")
	for _, r := range s.srv.Reqs() {
		b.WriteString("  " + r.String() + "\n")
	}
	s.t.Fatalf("%s\nhistory (at most %d connections):\n%s", fmt.Sprintf(f, a...), s.max, b.String())
}

func (s *sqlSess) call(desc string, f func()) {
	s.t.Helper()
	s.trace = append(s.trace, desc)
	if b := vh.Guard(s.srv.Activity, f).Bad(); b != "" {
		s.fail("%s %s", desc, b)
	}
}

// runner is what sql.DB and sql.Tx have in common.
type sqlRunner interface {
	Exec(string, ...interface{}) (sql.Result, error)
	Query(string, ...interface{}) (*sql.Rows, error)
	QueryRow(string, ...interface{}) *sql.Row
	Prepare(string) (*sql.Stmt, error)
}

type sqlPlan struct {
	text   string
	args   []interface{}
	merged map[string]interface{} // reference form
	plan   *boltfake.Plan
	nf     int
	stats  int64
}

func scalar(v interface{}) bool {
	switch v.(type) {
	case nil, bool, int64, float64, string:
		return true
	}
	return false
}

func (s *sqlSess) genPlan(failPct int) *sqlPlan {
	t := s.t
	s.key++
	x := &sqlPlan{text: vh.Cypher(t, s.key), merged: map[string]interface{}{}, plan: &boltfake.Plan{}}
	for n := rapid.IntRange(0, 3).Draw(t, "maps"); n > 0; n-- {
		m := vh.Map(t, &vh.Opt{Graph: true, Budget: rapid.IntRange(1, 10).Draw(t, "budget"), Depth: 3, Big: rapid.IntRange(0, 9).Draw(t, "big") == 0})
		b, err := encoding.Marshal(vh.Input(t, m))
		if err != nil {
			s.fail("marshalling %s failed: %v", vh.Show(m), err)
		}
		x.args = append(x.args, b)
		for k, v := range m {
			x.merged[k] = v
		}
	}
	x.nf = rapid.IntRange(1, 4).Draw(t, "nf")
	var f []interface{}
	for i := 0; i < x.nf; i++ {
		f = append(f, fmt.Sprintf("c%d_%d", s.key, i))
	}
	x.plan.RunMeta = map[string]interface{}{"fields": f}
	for n := rapid.IntRange(0, 4).Draw(t, "nr"); n > 0; n-- {
		rec := make([]interface{}, x.nf)
		for i := range rec {
			rec[i] = vh.Val(t, &vh.Opt{Graph: true, Budget: 4, Depth: 2, Big: rapid.IntRange(0, 19).Draw(t, "big") == 0})
		}
		x.plan.Records = append(x.plan.Records, rec)
	}
	x.plan.Summary = map[string]interface{}{"n": int64(s.key)}
	if rapid.Bool().Draw(t, "stats") {
		st := map[string]interface{}{}
		for _, k := range []string{"nodes-created", "nodes-deleted", "relationships-created", "relationships-deleted", "properties-set"} {
			if rapid.Bool().Draw(t, "stat") {
				v := rapid.Int64Range(0, 100000).Draw(t, "statv")
				st[k] = v
				if k != "properties-set" {
					x.stats += v
				}
			}
		}
		x.plan.Summary["stats"] = st
	}
	if rapid.IntRange(0, 99).Draw(t, "failpct") < failPct {
		x.plan.Fail = &boltfake.Fail{At: rapid.IntRange(-1, len(x.plan.Records)).Draw(t, "at"), Meta: map[string]interface{}{"code": "Neo.X", "message": x.text}}
	}
	s.mu.Lock()
	s.plans[x.text] = x.plan
	s.mu.Unlock()
	return x
}

// checkSent: the statement reached the server once, with the merged parameters.
func (s *sqlSess) checkSent(what string, x *sqlPlan, tx int, exactly bool) {
	n := 0
	for _, r := range s.srv.Runs() {
		if r.Stmt != x.text {
			continue
		}
		n++
		if d := refps.Equal(r.Params, x.merged); !d {
			s.fail("%s: the server received the parameters %s instead of %s", what, vh.Show(r.Params), vh.Show(x.merged))
		}
		if exactly && r.Tx != tx {
			s.fail("%s: ran in transaction %d instead of %d", what, r.Tx, tx)
		}
	}
	if n > 1 {
		s.fail("%s: was sent to the server %d times", what, n)
	}
	if exactly && n != 1 {
		s.fail("%s: never reached the server", what)
	}
}

// scan reads the current row in a generated way and compares it.
func (s *sqlSess) scanRow(what string, scan func(...interface{}) error, rec []interface{}) error {
	dest := make([]interface{}, len(rec))
	for i, v := range rec {
		dest[i] = new(interface{})
		if rapid.IntRange(0, 2).Draw(s.t, "typed") == 0 {
			switch v.(type) {
			case bool:
				dest[i] = new(bool)
			case int64:
				dest[i] = new(int64)
			case float64:
				dest[i] = new(float64)
			case string:
				dest[i] = new(string)
			case nil:
				dest[i] = new(sql.NullString)
			default:
				dest[i] = new([]byte)
			}
		}
	}
	if err := scan(dest...); err != nil {
		return err
	}
	for i, v := range rec {
		got := reflect.ValueOf(dest[i]).Elem().Interface()
		if ns, ok := got.(sql.NullString); ok {
			if ns.Valid {
				s.fail("%s: null scanned as %q", what, ns.String)
			}
			continue
		}
		if !scalar(v) {
			b, ok := got.([]byte)
			if !ok {
				s.fail("%s: column %d is %s, scanned as %T", what, i, vh.Show(v), got)
			}
			u, err := encoding.Unmarshal(b)
			if err != nil {
				s.fail("%s: column %d is %s, its bytes don't unmarshal: %v", what, i, vh.Show(v), err)
			}
			got = u
		}
		if d := vh.Same(got, v); d != "" {
			s.fail("%s: column %d: %s", what, i, d)
		}
	}
	return nil
}

// wantErr: err is the expected failure of the plan.
func (s *sqlSess) wantFailure(what string, err error, f *boltfake.Fail) {
	m, ok := vh.Failure(err)
	if !ok {
		s.fail("%s: the server's failure was reported as %s", what, vh.Brief(err))
	}
	if d := vh.SameMap(m, f.Meta); d != "" {
		s.fail("%s: failure metadata: %s", what, d)
	}
}

// op runs one statement through r. lenient: the connection may be dead.
// It returns whether the server failed it and whether the connection was lost.
func (s *sqlSess) op(r sqlRunner, where string, tx int, lenient bool) (failed, lost bool) {
	t := s.t
	x := s.genPlan(12)
	kind := rapid.SampledFrom([]string{"Exec", "Query", "QueryRow", "stmt.Exec", "stmt.Query", "stmt.QueryRow"}).Draw(t, "kind")
	s.cls[kind]++
	what := fmt.Sprintf("%s.%s %s", where, kind, x.text)
	if x.plan.Fail != nil {
		what += fmt.Sprintf(" failing at %d", x.plan.Fail.At)
		s.cls["failing"]++
	}
	var stmt *sql.Stmt
	var err error
	if strings.HasPrefix(kind, "stmt.") {
		s.call(what+": Prepare", func() { stmt, err = r.Prepare(x.text) })
		if err != nil {
			if lenient && vh.IsBadConn(err) {
				return false, true
			}
			s.fail("%s: Prepare failed: %s", what, vh.Brief(err))
		}
		defer s.call(what+": stmt.Close", func() { stmt.Close() })
	}
	done := func(err error) bool {
		if err == nil {
			return false
		}
		if lenient && vh.IsBadConn(err) {
			s.checkSent(what, x, tx, false)
			lost = true
			return true
		}
		if x.plan.Fail != nil {
			s.wantFailure(what, err, x.plan.Fail)
			s.checkSent(what, x, tx, true)
			failed = true
			return true
		}
		s.fail("%s failed: %s", what, vh.Brief(err))
		return true
	}
	recs := x.plan.Records
	if x.plan.Fail != nil && x.plan.Fail.At >= 0 && x.plan.Fail.At < len(recs) {
		recs = recs[:x.plan.Fail.At]
	}
	if x.plan.Fail != nil && x.plan.Fail.At < 0 {
		recs = nil
	}
	switch strings.TrimPrefix(kind, "stmt.") {
	case "Exec":
		var res sql.Result
		s.call(what, func() {
			if stmt != nil {
				res, err = stmt.Exec(x.args...)
			} else {
				res, err = r.Exec(x.text, x.args...)
			}
		})
		if done(err) {
			return
		}
		if x.plan.Fail != nil {
			s.fail("%s: the server's failure was not reported", what)
		}
		n, err := res.RowsAffected()
		if err != nil || n != x.stats {
			s.fail("%s: RowsAffected = %d, %v instead of %d", what, n, err, x.stats)
		}
		if id, err := res.LastInsertId(); err != nil || id != -1 {
			s.fail("%s: LastInsertId = %d, %v instead of -1", what, id, err)
		}
	case "QueryRow":
		s.call(what, func() {
			var row *sql.Row
			if stmt != nil {
				row = stmt.QueryRow(x.args...)
			} else {
				row = r.QueryRow(x.text, x.args...)
			}
			var rec []interface{}
			if len(recs) > 0 {
				rec = recs[0]
			}
			err = s.scanRow(what, row.Scan, rec)
		})
		if err == sql.ErrNoRows && len(recs) == 0 && x.plan.Fail == nil {
			err = nil
		} else if err == nil && len(recs) == 0 {
			s.fail("%s: a row where there is none", what)
		}
		if err != nil {
			if done(err) {
				return
			}
		} else if x.plan.Fail != nil && x.plan.Fail.At < 0 {
			s.fail("%s: the server's failure was not reported", what)
		}
	case "Query":
		var rows *sql.Rows
		s.call(what, func() {
			if stmt != nil {
				rows, err = stmt.Query(x.args...)
			} else {
				rows, err = r.Query(x.text, x.args...)
			}
		})
		if done(err) {
			return
		}
		if x.plan.Fail != nil && x.plan.Fail.At < 0 {
			s.fail("%s: the server's failure was not reported", what)
		}
		cols, err := rows.Columns()
		var want []string
		for _, f := range x.plan.RunMeta["fields"].([]interface{}) {
			want = append(want, f.(string))
		}
		if err != nil || !reflect.DeepEqual(cols, want) {
			s.fail("%s: columns %q, %v instead of %q", what, cols, err, want)
		}
		read := rapid.IntRange(0, len(recs)+1).Draw(t, "read")
		ended := false
		for i := 0; i < read; i++ {
			var next bool
			s.call(fmt.Sprintf("%s: Next %d", what, i), func() { next = rows.Next() })
			if next && i >= len(recs) {
				s.fail("%s: %d rows where there are %d", what, i+1, len(recs))
			}
			if !next {
				ended = true
				if err := rows.Err(); err != nil {
					if done(err) {
						rows.Close()
						return
					}
				}
				if i < len(recs) {
					s.fail("%s: the rows ended after %d of %d", what, i, len(recs))
				}
				if x.plan.Fail != nil {
					s.fail("%s: the rows ended without reporting the server's failure", what)
				}
				break
			}
			if err := s.scanRow(fmt.Sprintf("%s row %d", what, i), rows.Scan, recs[i]); err != nil {
				s.fail("%s: scanning row %d failed: %v", what, i, err)
			}
		}
		_ = ended
		s.call(what+": rows.Close", func() { err = rows.Close() })
		if done(err) {
			return
		}
	}
	s.checkSent(what, x, tx, true)
	return x.plan.Fail != nil, false
}

type openTx struct {
	tx     *sql.Tx
	id     int
	failed bool
	doomed bool // its connection was ended
}

// badArgs: arguments that are not marshalled maps are refused without traffic.
func (s *sqlSess) badArgs(r sqlRunner, where string) {
	t := s.t
	s.key++
	text := vh.Cypher(s.t, s.key)
	s.mu.Lock()
	s.plans[text] = &boltfake.Plan{}
	s.mu.Unlock()
	good, err := encoding.Marshal(map[string]interface{}{"a": int64(1)})
	if err != nil {
		s.fail("marshalling a map failed: %v", err)
	}
	var bad interface{}
	switch rapid.IntRange(0, 7).Draw(t, "bad") {
	case 0:
		bad = "a string"
	case 1:
		bad = rapid.Int64().Draw(t, "int")
	case 2:
		bad = nil
	case 3:
		bad = []byte{}
	case 4:
		bad = good[:rapid.IntRange(1, len(good)-1).Draw(t, "cut")]
	case 5:
		bad = 1.5
	case 6:
		bad = true
	case 7:
		v := vh.Val(t, &vh.Opt{Graph: true, Budget: 4, Depth: 2})
		if _, isMap := v.(map[string]interface{}); isMap {
			v = []interface{}{v}
		}
		b, err := encoding.Marshal(vh.Input(t, v))
		if err != nil {
			s.fail("marshalling %s failed: %v", vh.Show(v), err)
		}
		bad = b
	}
	args := []interface{}{bad}
	switch rapid.IntRange(0, 2).Draw(t, "pos") {
	case 1:
		args = []interface{}{good, bad}
	case 2:
		args = []interface{}{bad, good}
	}
	kind := rapid.SampledFrom([]string{"Exec", "Query", "stmt.Exec", "stmt.Query"}).Draw(t, "kind")
	what := fmt.Sprintf("%s.%s with the argument %T %x", where, kind, bad, bad)
	s.call(what, func() {
		var rows *sql.Rows
		switch kind {
		case "Exec":
			_, err = r.Exec(text, args...)
		case "Query":
			rows, err = r.Query(text, args...)
		default:
			var st *sql.Stmt
			if st, err = r.Prepare(text); err != nil {
				return
			}
			defer st.Close()
			if kind == "stmt.Exec" {
				_, err = st.Exec(args...)
			} else {
				rows, err = st.Query(args...)
			}
		}
		if err == nil && rows != nil {
			rows.Close()
		}
	})
	if err == nil {
		s.fail("%s was not refused", what)
	}
	for _, r := range s.srv.Runs() {
		if r.Stmt == text {
			s.fail("%s was sent to the server", what)
		}
	}
	s.cls["bad-args"]++
}

// mismatch: a record that doesn't fit the columns is an error, not a panic or
// a row mixed from two records.
func (s *sqlSess) mismatch(r sqlRunner, where string) {
	t := s.t
	s.key++
	text := vh.Cypher(s.t, s.key)
	nf := rapid.IntRange(0, 3).Draw(t, "nf")
	var f []interface{}
	full := []interface{}{}
	for i := 0; i < nf; i++ {
		f = append(f, fmt.Sprintf("c%d", i))
		full = append(full, fmt.Sprintf("full%d", i))
	}
	n := rapid.IntRange(0, 5).Draw(t, "len")
	if n == nf {
		n++
	}
	odd := make([]interface{}, n)
	for i := range odd {
		odd[i] = fmt.Sprintf("odd%d", i)
	}
	p := &boltfake.Plan{RunMeta: map[string]interface{}{"fields": f}, Records: [][]interface{}{full, odd, full}}
	s.mu.Lock()
	s.plans[text] = p
	s.mu.Unlock()
	what := fmt.Sprintf("%s.Query with a record of %d values for %d columns", where, n, nf)
	var rows *sql.Rows
	var err error
	s.call(what, func() { rows, err = r.Query(text) })
	if err != nil {
		s.fail("%s: Query failed: %s", what, vh.Brief(err))
	}
	var n1, n2 bool
	s.call(what+": Next", func() { n1 = rows.Next() })
	s.call(what+": Next", func() { n2 = rows.Next() })
	if !n1 {
		s.fail("%s: the first row failed: %v", what, rows.Err())
	}
	if n2 {
		s.fail("%s was delivered as a row", what)
	}
	if rows.Err() == nil {
		s.fail("%s: taken for the end of the rows", what)
	}
	s.call(what+": Close", func() { rows.Close() })
	s.cls["mismatch"]++
}

func TestC19SQL(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		s := &sqlSess{t: t, max: rapid.IntRange(1, 3).Draw(t, "max"), plans: map[string]*boltfake.Plan{}, cls: map[string]int{}}
		s.srv = boltfake.New(boltfake.Config{Seed: rapid.Uint64().Draw(t, "seed"), Noise: rapid.IntRange(0, 2).Draw(t, "noise")})
		defer s.srv.Close()
		s.srv.Default(func(stmt string, _ interface{}) *boltfake.Plan {
			s.mu.Lock()
			defer s.mu.Unlock()
			return s.plans[stmt]
		})
		db, err := sql.Open("neo4j-bolt", openURL(s.srv.Addr))
		if err != nil {
			t.Fatalf("sql.Open: %v", err)
		}
		s.db = db
		db.SetMaxOpenConns(s.max)
		db.SetMaxIdleConns(rapid.IntRange(0, s.max).Draw(t, "idle"))
		n := rapid.IntRange(1, 12).Draw(t, "n")
		if rapid.IntRange(0, 39).Draw(t, "long") == 39 {
			n = rapid.IntRange(13, 100).Draw(t, "nlong")
		}
		for ; n > 0; n-- {
			free := len(s.txs) < s.max
			switch k := rapid.IntRange(0, 16).Draw(t, "what"); {
			case k <= 3 && free:
				s.dbOp()
			case k <= 5 && free:
				s.begin()
			case k <= 7 && len(s.txs) > 0:
				s.inside(s.txs[rapid.IntRange(0, len(s.txs)-1).Draw(t, "tx")])
			case k <= 9 && len(s.txs) > 0:
				i := rapid.IntRange(0, len(s.txs)-1).Draw(t, "tx")
				x := s.txs[i]
				s.txs = append(append([]*openTx{}, s.txs[:i]...), s.txs[i+1:]...)
				s.finish(x)
			case k == 10 && s.lost == 0 && free:
				s.badArgs(db, "db")
			case k == 11 && s.lost == 0 && free:
				s.mismatch(db, "db")
			case k == 13 && s.lost == 0 && free:
				s.reuse()
			case k == 14 && s.lost == 0 && free:
				s.cancelled()
			case k == 15 && s.lost == 0 && free:
				s.ownConn()
			case k == 12:
				// the server ends all connections
				open := 0
				for i := 0; i < s.srv.Accepted(); i++ {
					if !s.srv.Gone(i) {
						open++
						if rapid.Bool().Draw(t, "rst") {
							s.srv.Kill(i, true)
						} else {
							s.srv.KillIdle(i)
						}
					}
				}
				for _, x := range s.txs {
					x.doomed = true
				}
				s.trace = append(s.trace, fmt.Sprintf("the server ends its %d connections", open))
				if open > 0 {
					s.cls["killed"]++
				}
				s.lost += open
			}
		}
		for _, x := range s.txs {
			s.finish(x)
		}
		s.txs = nil
		// the handle recovers: at most one error per lost connection
		for i := s.lost + 1; i >= 0; i-- {
			s.dbOp()
		}
		if il := s.srv.Illegal(); len(il) > 0 {
			s.fail("illegal requests: %v", il)
		}
		s.call("db.Close", func() { db.Close() })
		if !s.srv.WaitOpen(0, 300) {
			s.fail("closing the database left %d connections open", s.srv.Open())
		}
		var cl []string
		for k := range s.cls {
			cl = append(cl, k)
		}
		vh.Note("C19", strings.Join(s.trace, "\n"), len(s.trace) > 3, cl...)
	})
}

func (s *sqlSess) dbOp() {
	if _, lost := s.op(s.db, "db", 0, s.lost > 0); lost {
		s.lost--
		s.cls["lost"]++
	}
}

func (s *sqlSess) begin() {
	x := &openTx{}
	var err error
	s.call("Begin", func() { x.tx, err = s.db.Begin() })
	if err != nil {
		if s.lost > 0 && vh.IsBadConn(err) {
			s.lost--
			s.cls["lost"]++
			return
		}
		s.fail("Begin failed: %s", vh.Brief(err))
	}
	s.cls["tx"]++
	for _, e := range s.srv.TxLog() {
		if e.What == "begin" {
			x.id = e.Tx
		}
	}
	for _, o := range s.txs {
		if o.id == x.id {
			s.fail("Begin started no transaction of its own")
		}
		s.cls["concurrent-tx"]++
	}
	s.txs = append(s.txs, x)
}

func (s *sqlSess) inside(x *openTx) {
	if x.failed {
		return
	}
	if x.doomed {
		if _, lost := s.op(x.tx, "tx", x.id, true); !lost {
			s.fail("a statement in a transaction succeeded after its connection was lost")
		}
		return
	}
	switch k := rapid.IntRange(0, 9).Draw(s.t, "txop"); {
	case k == 0:
		s.badArgs(x.tx, "tx")
	case k == 1:
		s.mismatch(x.tx, "tx")
	default:
		x.failed, _ = s.op(x.tx, "tx", x.id, false)
	}
}

func (s *sqlSess) finish(x *openTx) {
	commit := rapid.Bool().Draw(s.t, "commit")
	want := "rollback"
	var err error
	if commit {
		want = "commit"
		s.call(fmt.Sprintf("Commit of transaction %d", x.id), func() { err = x.tx.Commit() })
	} else {
		s.call(fmt.Sprintf("Rollback of transaction %d", x.id), func() { err = x.tx.Rollback() })
	}
	if x.doomed {
		if commit && err == nil {
			s.fail("Commit succeeded although its connection was lost")
		}
		return
	}
	if x.failed && commit {
		// a server refuses to commit what failed before
		if err == nil {
			s.fail("Commit succeeded although the server refused it")
		}
		want = "commit-failed"
	} else if err != nil {
		s.fail("%s failed: %s", want, vh.Brief(err))
	}
	got := ""
	for _, e := range s.srv.TxLog() {
		if e.Tx == x.id && e.What != "begin" {
			got += e.What
		}
	}
	if got != want {
		s.fail("transaction %d ended with %q instead of %q", x.id, got, want)
	}
}

// reuse prepares a statement once and uses it several times.
func (s *sqlSess) reuse() {
	t := s.t
	x := s.genPlan(15)
	where := "db"
	var st *sql.Stmt
	var err error
	var in *openTx
	for _, o := range s.txs {
		if !o.failed && !o.doomed {
			in = o
		}
	}
	tx := 0
	if in != nil && rapid.Bool().Draw(t, "intx") {
		tx, where = in.id, "tx"
	} else {
		in = nil
	}
	var base *sql.Stmt
	s.call("Prepare "+x.text+" in "+where, func() {
		switch {
		case in == nil:
			st, err = s.db.Prepare(x.text)
		case rapid.Bool().Draw(t, "stmt"):
			if base, err = s.db.Prepare(x.text); err == nil {
				st = in.tx.Stmt(base)
			}
		default:
			st, err = in.tx.Prepare(x.text)
		}
	})
	if err != nil {
		s.fail("Prepare failed: %s", vh.Brief(err))
	}
	var want []map[string]interface{}
	for i, n := 0, rapid.IntRange(1, 5).Draw(t, "uses"); i < n && (in == nil || !in.failed); i++ {
		m := map[string]interface{}{"use": int64(i)}
		if rapid.Bool().Draw(t, "more") {
			m["more"] = vh.Val(t, &vh.Opt{Graph: true, Budget: 4, Depth: 2})
		}
		var args []interface{}
		if rapid.IntRange(0, 5).Draw(t, "noargs") == 0 {
			m = map[string]interface{}{}
		} else {
			b, err := encoding.Marshal(vh.Input(t, m))
			if err != nil {
				s.fail("marshalling %s failed: %v", vh.Show(m), err)
			}
			args = append(args, b)
		}
		want = append(want, m)
		f := x.plan.Fail
		if rapid.Bool().Draw(t, "exec") {
			var res sql.Result
			s.call(fmt.Sprintf("use %d: Exec", i), func() { res, err = st.Exec(args...) })
			if f == nil && err == nil {
				if n, err := res.RowsAffected(); err != nil || n != x.stats {
					s.fail("use %d: RowsAffected = %d, %v instead of %d", i, n, err, x.stats)
				}
			}
		} else {
			part := rapid.IntRange(0, len(x.plan.Records)).Draw(t, "part")
			s.call(fmt.Sprintf("use %d: Query, %d rows", i, part), func() {
				var rows *sql.Rows
				if rows, err = st.Query(args...); err != nil {
					return
				}
				j := 0
				for ; (j < part || f != nil) && rows.Next(); j++ {
					if e := s.scanRow(fmt.Sprintf("use %d row %d", i, j), rows.Scan, x.plan.Records[j]); e != nil {
						s.fail("use %d: scanning row %d failed: %v", i, j, e)
					}
				}
				err = rows.Err()
				if e := rows.Close(); err == nil {
					err = e
				}
				if err == nil && j < part {
					s.fail("use %d: %d rows instead of %d", i, j, part)
				}
			})
		}
		if f == nil && err != nil {
			s.fail("use %d of the statement failed: %s", i, vh.Brief(err))
		} else if f != nil {
			s.wantFailure(fmt.Sprintf("use %d", i), err, f)
			if in != nil {
				in.failed = true
			}
		}
	}
	s.call("stmt.Close", func() { err = st.Close() })
	if err == nil && base != nil {
		s.call("stmt.Close", func() { err = base.Close() })
	}
	if err != nil {
		s.fail("closing the statement failed: %s", vh.Brief(err))
	}
	if base != nil {
		// database/sql keeps the statement open as long as the transaction uses
		// its connection, so there is nothing else to be done with it
		for i, o := range s.txs {
			if o == in {
				s.txs = append(append([]*openTx{}, s.txs[:i]...), s.txs[i+1:]...)
				break
			}
		}
		s.finish(in)
	}
	n := 0
	for _, r := range s.srv.Runs() {
		if r.Stmt != x.text {
			continue
		}
		if n >= len(want) {
			s.fail("the statement was sent more than the %d times it was used", len(want))
		}
		if !refps.Equal(r.Params, want[n]) {
			s.fail("use %d: the server received %s instead of %s", n, vh.Show(r.Params), vh.Show(want[n]))
		}
		if r.Tx != tx {
			s.fail("use %d: ran in transaction %d instead of %d", n, r.Tx, tx)
		}
		n++
	}
	if n != len(want) {
		s.fail("the statement was sent %d times and used %d times", n, len(want))
	}
	s.cls["reused-stmt"]++
}

// cancelled: a context ends before or while something is done; whatever was
// begun is not committed, and the handle goes on to work.
func (s *sqlSess) cancelled() {
	t := s.t
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	x := s.genPlan(0)
	var err error
	switch k := rapid.IntRange(0, 3).Draw(t, "cancel"); k {
	case 0:
		cancel()
		s.call("ExecContext when cancelled", func() { _, err = s.db.ExecContext(ctx, x.text, x.args...) })
		if err == nil {
			s.fail("ExecContext succeeded although its context had ended")
		}
		s.notSent(x)
	case 1:
		var rows *sql.Rows
		s.call("QueryContext "+x.text, func() { rows, err = s.db.QueryContext(ctx, x.text, x.args...) })
		if err != nil {
			s.fail("QueryContext failed: %s", vh.Brief(err))
		}
		read := rapid.IntRange(0, len(x.plan.Records)).Draw(t, "read")
		for i := 0; i < read; i++ {
			var next bool
			s.call("Next", func() { next = rows.Next() })
			if !next {
				s.fail("the rows ended after %d: %v", i, rows.Err())
			}
			if err := s.scanRow(fmt.Sprintf("row %d", i), rows.Scan, x.plan.Records[i]); err != nil {
				s.fail("scanning row %d failed: %v", i, err)
			}
		}
		cancel()
		s.call("cancel, Next until the end", func() {
			for i := read; rows.Next(); i++ {
				if i >= len(x.plan.Records) {
					s.fail("%d rows instead of %d", i+1, len(x.plan.Records))
				}
				if e := s.scanRow(fmt.Sprintf("row %d", i), rows.Scan, x.plan.Records[i]); e != nil && ctx.Err() == nil {
					s.fail("scanning row %d failed: %v", i, e)
				}
			}
			err = rows.Err()
			rows.Close()
		})
		if err != nil && err != context.Canceled {
			s.fail("the rows of a cancelled query ended with %s", vh.Brief(err))
		}
		s.checkSent("cancelled query", x, 0, true)
	default:
		var tx *sql.Tx
		s.call("BeginTx", func() { tx, err = s.db.BeginTx(ctx, nil) })
		if err != nil {
			s.fail("BeginTx failed: %s", vh.Brief(err))
		}
		id := 0
		for _, e := range s.srv.TxLog() {
			if e.What == "begin" {
				id = e.Tx
			}
		}
		s.call("ExecContext "+x.text, func() { _, err = tx.ExecContext(ctx, x.text, x.args...) })
		if err != nil {
			s.fail("ExecContext in the transaction failed: %s", vh.Brief(err))
		}
		s.checkSent("exec in a transaction", x, id, true)
		if k == 3 {
			var rows *sql.Rows
			y := s.genPlan(0)
			s.call("QueryContext "+y.text, func() { rows, err = tx.QueryContext(ctx, y.text, y.args...) })
			if err != nil {
				s.fail("QueryContext in the transaction failed: %s", vh.Brief(err))
			}
			if len(y.plan.Records) > 0 {
				s.call("Next", func() { rows.Next() })
			}
			defer rows.Close()
		}
		cancel()
		s.call("cancel, Commit", func() { err = tx.Commit() })
		if err == nil {
			s.fail("Commit succeeded although the context had ended")
		}
		over := ""
		if !boltfake.WaitFor(300, func() bool {
			for _, e := range s.srv.TxLog() {
				if e.Tx == id && e.What != "begin" {
					over = e.What
				}
			}
			return over != ""
		}) {
			s.fail("transaction %d is still open after its context ended", id)
		}
		if strings.Contains(over, "commit") {
			s.fail("transaction %d whose context ended was finished with %q", id, over)
		}
	}
	s.cls["cancelled"]++
}

func (s *sqlSess) notSent(x *sqlPlan) {
	for _, r := range s.srv.Runs() {
		if r.Stmt == x.text {
			s.fail("%s was sent to the server", x.text)
		}
	}
}

// ownConn uses a connection of its own: everything runs on it.
func (s *sqlSess) ownConn() {
	t := s.t
	ctx := context.Background()
	var c *sql.Conn
	var err error
	s.call("db.Conn", func() { c, err = s.db.Conn(ctx) })
	if err != nil {
		s.fail("db.Conn failed: %s", vh.Brief(err))
	}
	r := connRunner{c}
	from := len(s.srv.Runs())
	for n := rapid.IntRange(1, 3).Draw(t, "uses"); n > 0; n-- {
		if rapid.IntRange(0, 3).Draw(t, "tx") > 0 {
			s.op(r, "conn", 0, false)
			continue
		}
		x := &openTx{}
		s.call("conn.BeginTx", func() { x.tx, err = c.BeginTx(ctx, nil) })
		if err != nil {
			s.fail("BeginTx on a connection failed: %s", vh.Brief(err))
		}
		for _, e := range s.srv.TxLog() {
			if e.What == "begin" {
				x.id = e.Tx
			}
		}
		s.inside(x)
		s.finish(x)
	}
	conns := map[int]bool{}
	for _, q := range s.srv.Runs()[from:] {
		conns[q.Conn] = true
	}
	if len(conns) > 1 {
		s.fail("the requests of one connection were sent over %d", len(conns))
	}
	s.call("conn.Close", func() { err = c.Close() })
	if err != nil {
		s.fail("conn.Close failed: %s", vh.Brief(err))
	}
	s.cls["own-conn"]++
}

type connRunner struct{ *sql.Conn }

func (c connRunner) Exec(q string, args ...interface{}) (sql.Result, error) {
	return c.ExecContext(context.Background(), q, args...)
}
func (c connRunner) Query(q string, args ...interface{}) (*sql.Rows, error) {
	return c.QueryContext(context.Background(), q, args...)
}
func (c connRunner) QueryRow(q string, args ...interface{}) *sql.Row {
	return c.QueryRowContext(context.Background(), q, args...)
}
func (c connRunner) Prepare(q string) (*sql.Stmt, error) {
	return c.PrepareContext(context.Background(), q)
}
