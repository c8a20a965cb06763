package checks

import (
	"fmt"
	"io"
	"math"
	"strings"
	"testing"

	"pgregory.net/rapid"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/graph"
	"verif/boltfake"
	"verif/refps"
	"verif/vh"
)

// ---- C05: unencodable values ----

type opaque struct{ A int }

// poison draws a value without a wire representation.
func poison(t *rapid.T) (interface{}, string) {
	x := 7
	kinds := []struct {
		n string
		v interface{}
	}{
		{"chan", make(chan int)}, {"func", func() {}}, {"struct", opaque{1}}, {"complex", complex(1, 2)}, {"*int", &x},
		{"map[int]string", map[int]string{1: "a"}}, {"uintptr", uintptr(3)}, {"nil *Node", (*graph.Node)(nil)}, {"*opaque", &opaque{}},
		{"uint64 max", uint64(math.MaxUint64)}, {"uint64 2^63", uint64(1) << 63}, {"[]uint64", []uint64{1, math.MaxInt64 + 1}},
		{"[]chan", []chan int{nil}}, {"[]struct", []opaque{{1}}}, {"complex64", complex64(1)}, {"[]func", []func(){nil}},
	}
	k := kinds[rapid.IntRange(0, len(kinds)-1).Draw(t, "poison")]
	v := k.v
	if k.n == "uint64 2^63" {
		v = uint64(1)<<63 + uint64(rapid.IntRange(0, 1000).Draw(t, "above"))
	}
	for d := rapid.IntRange(0, 4).Draw(t, "wrap"); d > 0; d-- {
		switch rapid.IntRange(0, 4).Draw(t, "wrapk") {
		case 0:
			v = []interface{}{v}
		case 1:
			l := make([]interface{}, rapid.IntRange(0, 20).Draw(t, "before"))
			v = append(append(l, v), "after")
		case 2:
			v = map[string]interface{}{"p": v}
		case 3:
			v = map[string]interface{}{"a": int64(1), "p": v, "z": strings.Repeat("z", rapid.SampledFrom([]int{0, 300, 70000}).Draw(t, "zlen"))}
		case 4:
			v = graph.Node{NodeIdentity: 1, Labels: []string{"L"}, Properties: map[string]interface{}{"x": v}}
		}
	}
	return v, k.n
}

func (s *sess) poisoned() (map[string]interface{}, string) {
	v, n := poison(s.t)
	pad := rapid.SampledFrom([]int{0, 10, 300, 5000, 65500, 65536, 70000, 200000}).Draw(s.t, "pad")
	s.cls["poison:"+n]++
	if pad > 5000 {
		s.cls["poison-after-a-full-chunk"]++
	}
	return map[string]interface{}{"k": int64(-1), "l": []interface{}{strings.Repeat("p", pad), v, "tail"}}, fmt.Sprintf("%s after %d bytes", n, pad)
}

// opPoison makes a call with an unencodable parameter; nothing may change.
func (s *sess) opPoison() {
	bad, n := s.poisoned()
	var err error
	var what string
	text := s.text()
	s.cls["poison"]++
	pipeIn := func(texts int) ([]map[string]interface{}, int) {
		in := make([]map[string]interface{}, texts)
		at := rapid.IntRange(0, texts-1).Draw(s.t, "pat")
		for i := range in {
			in[i] = map[string]interface{}{"k": int64(-2)}
		}
		in[at] = bad
		return in, at
	}
	if st := s.stmt; st != nil { // prepared statement without rows
		if !st.pipe {
			if rapid.Bool().Draw(s.t, "pq") {
				what = st.desc + ".QueryNeo with " + n
				s.call(what, func() { _, err = st.stmt.QueryNeo(bad) })
			} else {
				what = st.desc + ".ExecNeo with " + n
				s.call(what, func() { _, err = st.stmt.ExecNeo(bad) })
			}
		} else {
			in, at := pipeIn(len(st.texts))
			if rapid.Bool().Draw(s.t, "pq") {
				what = fmt.Sprintf("%s.QueryPipeline with %s in parameters %d of %d", st.desc, n, at, len(in))
				s.call(what, func() { _, err = st.pstmt.QueryPipeline(in...) })
			} else {
				what = fmt.Sprintf("%s.ExecPipeline with %s in parameters %d of %d", st.desc, n, at, len(in))
				s.call(what, func() { _, err = st.pstmt.ExecPipeline(in...) })
			}
		}
	} else {
		switch k := rapid.IntRange(0, 4).Draw(s.t, "pk"); k {
		case 0:
			what = "conn.ExecNeo with " + n
			s.call(what, func() { _, err = s.conn.ExecNeo(text, bad) })
		case 1:
			what = "conn.QueryNeo with " + n
			s.call(what, func() { _, err = s.conn.QueryNeo(text, bad) })
		case 2:
			what = "conn.QueryNeoAll with " + n
			s.call(what, func() { _, _, _, err = s.conn.QueryNeoAll(text, bad) })
		default:
			np := rapid.IntRange(1, 4).Draw(s.t, "np")
			tx := make([]string, np)
			for i := range tx {
				tx[i] = s.text()
			}
			in, at := pipeIn(np)
			what = fmt.Sprintf("conn pipeline with %s in parameters %d of %d", n, at, np)
			if k == 3 {
				s.call("exec "+what, func() { _, err = s.conn.ExecPipeline(tx, in...) })
			} else {
				s.call("query "+what, func() { _, err = s.conn.QueryPipeline(tx, in...) })
			}
		}
	}
	s.wantRefused(what, err)
	if vh.IsBadConn(err) {
		s.fail("%s: reported as a broken connection", what)
	}
}

func TestC05Unencodable(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		w := opWeights{conn: 2, stmt: 3, pipe: 2, tx: 1, misc: 2, failPct: 4, steps: 16, poison: 20}
		s := newSess(t, w, boltfake.Config{})
		defer s.srv.Close()
		s.open()
		n := rapid.IntRange(1, w.steps).Draw(t, "n")
		for s.nOps = 0; s.nOps < n; s.nOps++ {
			s.step()
		}
		if !s.closed && !s.busy() && !s.dead {
			s.opExec()
		}
		s.finish()
		var cl []string
		for k := range s.cls {
			cl = append(cl, k)
		}
		vh.Note("C05", strings.Join(s.trace, "\n"), s.cls["poison"] > 0, cl...)
	})
}

// The known finding: uint above the int64 maximum.
func TestC05Uint(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		v := uint(1)<<63 + uint(rapid.Uint64Range(0, 1<<63-1).Draw(t, "v"))
		s := newSess(t, opWeights{}, boltfake.Config{})
		defer s.srv.Close()
		s.srv.Default(func(string, interface{}) *boltfake.Plan { return &boltfake.Plan{} })
		s.open()
		defer s.conn.Close()
		var err error
		s.call("ExecNeo", func() { _, err = s.conn.ExecNeo("RETURN", map[string]interface{}{"v": v}) })
		if err == nil {
			if !vh.Known("C05-uint-wrap") {
				s.fail("ExecNeo accepted uint %d, which has no wire representation", v)
			}
			// only this specific misbehaviour is known: the same bits, as a negative number
			r := s.srv.Runs()
			if len(r) != 1 || !refps.Equal(r[0].Params, map[string]interface{}{"v": int64(v)}) {
				s.fail("uint %d was sent as %s", v, vh.Show(r[len(r)-1].Params))
			}
			vh.Note("C05", fmt.Sprintf("uint %d", v), true, "known:C05-uint-wrap")
			return
		}
		vh.Note("C05", fmt.Sprintf("uint %d", v), true, "uint-refused")
	})
}

// ---- C06: exact transport ----

func bigOpt(t *rapid.T) *vh.Opt {
	return &vh.Opt{Big: rapid.IntRange(0, 5).Draw(t, "big") == 0, Graph: true, Budget: rapid.IntRange(1, 14).Draw(t, "budget"), Depth: rapid.IntRange(1, 4).Draw(t, "depth")}
}

type xplan struct {
	text   string
	params map[string]interface{}
	plan   *boltfake.Plan
}

func genX(t *rapid.T, i int) xplan {
	x := xplan{}
	if rapid.IntRange(0, 2).Draw(t, "cypher?") == 0 {
		x.text = vh.Cypher(t, i)
	} else {
		x.text = vh.Str(t, "stmt", true)
	}
	if x.text == "BEGIN" || x.text == "COMMIT" || x.text == "ROLLBACK" {
		x.text += ";"
	}
	switch rapid.IntRange(0, 5).Draw(t, "pk") {
	case 0: // nil
	case 1:
		x.params = map[string]interface{}{}
	default:
		x.params = vh.Map(t, bigOpt(t))
	}
	p := &boltfake.Plan{}
	nf := rapid.IntRange(0, 5).Draw(t, "nf")
	if rapid.IntRange(0, 9).Draw(t, "wide") == 0 {
		nf = rapid.SampledFrom([]int{15, 16, 17, 255, 256, 300}).Draw(t, "nfw")
	}
	switch rapid.IntRange(0, 5).Draw(t, "meta") {
	case 0:
		p.RunMeta = map[string]interface{}{}
	default:
		f := make([]interface{}, nf)
		for i := range f {
			f[i] = vh.Str(t, "col", false)
		}
		p.RunMeta = map[string]interface{}{"fields": f}
		if rapid.Bool().Draw(t, "extra") {
			p.RunMeta["result_available_after"] = vh.Val(t, &vh.Opt{Budget: 3, Depth: 2})
		}
	}
	nr := rapid.IntRange(0, 5).Draw(t, "nr")
	if rapid.IntRange(0, 9).Draw(t, "many") == 0 {
		nr = rapid.SampledFrom([]int{15, 16, 100, 257, 1000}).Draw(t, "nrm")
	}
	for r := 0; r < nr; r++ {
		rec := make([]interface{}, nf)
		for i := range rec {
			if nf > 10 || nr > 10 {
				rec[i] = fmt.Sprintf("%d/%d", r, i)
			} else {
				rec[i] = vh.Val(t, bigOpt(t))
			}
		}
		p.Records = append(p.Records, rec)
	}
	p.Summary = vh.Map(t, &vh.Opt{Budget: 6, Depth: 3, Graph: true})
	if rapid.Bool().Draw(t, "hasstats") {
		p.Summary["stats"] = map[string]interface{}{"nodes-created": int64(2), "relationships-deleted": int64(1)}
	} else {
		delete(p.Summary, "stats")
	}
	vh.Meta(t, p.Summary)
	vh.Meta(t, p.RunMeta)
	x.plan = p
	return x
}

func TestC06Transport(t *testing.T) {
	methods := []string{"ExecNeo", "QueryNeo", "QueryNeoAll", "ExecPipeline", "QueryPipeline", "stmt.ExecNeo", "stmt.QueryNeo", "stmt.All", "pstmt.ExecPipeline", "pstmt.QueryPipeline"}
	rapid.Check(t, func(t *rapid.T) {
		s := newSess(t, opWeights{}, boltfake.Config{})
		defer s.srv.Close()
		s.open()
		if rapid.Bool().Draw(t, "setchunk") {
			s.conn.SetChunkSize(genChunkSize(t))
		}
		var sent []xplan
		var q []*boltfake.Plan // plans in the order of the requests
		s.srv.Default(func(string, interface{}) *boltfake.Plan {
			s.mu.Lock()
			defer s.mu.Unlock()
			if len(q) == 0 {
				return nil
			}
			p := q[0]
			q = q[1:]
			return p
		})
		push := func(x xplan) {
			sent = append(sent, x)
			s.mu.Lock()
			q = append(q, x.plan)
			s.mu.Unlock()
		}
		var classes []string
		var given []func() string
		in := func(x xplan) map[string]interface{} {
			if x.params == nil {
				return nil
			}
			m := vh.Input(t, x.params).(map[string]interface{})
			before := fmt.Sprintf("%v", m)
			given = append(given, func() string {
				if after := fmt.Sprintf("%v", m); after != before {
					return fmt.Sprintf("the caller's parameters were changed from %.300s to %.300s", before, after)
				}
				return ""
			})
			return m
		}
		checkResult := func(what string, r bolt.Result, x xplan) {
			s.wantMeta(what, r.Metadata(), x.plan.Summary)
			want := int64(0)
			if x.plan.Summary["stats"] != nil {
				want = 3
			}
			if n, err := r.RowsAffected(); err != nil || n != want {
				s.fail("%s: RowsAffected = %d, %v, want %d", what, n, err, want)
			}
		}
		iterate := func(what string, rows bolt.Rows, x xplan) {
			s.wantMeta(what+" Metadata", rows.Metadata(), x.plan.RunMeta)
			for i, rec := range x.plan.Records {
				var row []interface{}
				var err error
				s.call(what+" NextNeo", func() { row, _, err = rows.NextNeo() })
				s.wantOK(what, err)
				s.wantRow(fmt.Sprintf("%s row %d", what, i), row, rec)
			}
			var row []interface{}
			var m map[string]interface{}
			var err error
			s.call(what+" NextNeo (end)", func() { row, m, err = rows.NextNeo() })
			if err != io.EOF || row != nil {
				s.fail("%s: after the last row NextNeo returned %v, %s", what, row, vh.Brief(err))
			}
			s.wantMeta(what+" summary", m, x.plan.Summary)
			s.call(what+" Close", func() { err = rows.Close() })
			s.wantOK(what+" Close", err)
		}
		iterPipe := func(what string, rows bolt.PipelineRows, xs []xplan) {
			for qi, x := range xs {
				s.wantMeta(what+" Metadata", rows.Metadata(), x.plan.RunMeta)
				for i, rec := range x.plan.Records {
					var row []interface{}
					var next bolt.PipelineRows
					var err error
					s.call(what+" NextPipeline", func() { row, _, next, err = rows.NextPipeline() })
					s.wantOK(what, err)
					if !isNilRows(next) {
						s.fail("%s: next rows together with a row", what)
					}
					s.wantRow(fmt.Sprintf("%s query %d row %d", what, qi, i), row, rec)
				}
				var row []interface{}
				var next bolt.PipelineRows
				var err error
				s.call(what+" NextPipeline (end)", func() { row, _, next, err = rows.NextPipeline() })
				if row != nil || (err != nil && err != io.EOF) {
					s.fail("%s: after the last row of query %d NextPipeline returned %v, %s", what, qi, row, vh.Brief(err))
				}
				if last := qi == len(xs)-1; isNilRows(next) != last {
					s.fail("%s: after query %d of %d next rows present: %v", what, qi, len(xs), !isNilRows(next))
				} else if !last {
					rows = next
				}
			}
			var err error
			s.call(what+" Close", func() { err = rows.Close() })
			s.wantOK(what+" Close", err)
		}
		nops := rapid.IntRange(1, 3).Draw(t, "nops")
		for o := 0; o < nops; o++ {
			m := rapid.SampledFrom(methods).Draw(t, "method")
			classes = append(classes, m)
			var err error
			switch m {
			case "ExecNeo", "QueryNeo", "QueryNeoAll", "stmt.ExecNeo", "stmt.QueryNeo", "stmt.All":
				x := genX(t, o)
				push(x)
				p := in(x)
				what := fmt.Sprintf("%s(%s, %s)", m, vh.Show(x.text), vh.Show(x.params))
				var st bolt.Stmt
				if strings.HasPrefix(m, "stmt") {
					s.call("PrepareNeo", func() { st, err = s.conn.PrepareNeo(x.text) })
					s.wantOK("PrepareNeo", err)
				}
				switch m {
				case "ExecNeo":
					var r bolt.Result
					s.call(what, func() { r, err = s.conn.ExecNeo(x.text, p) })
					s.wantOK(what, err)
					checkResult(what, r, x)
				case "stmt.ExecNeo":
					var r bolt.Result
					s.call(what, func() { r, err = st.ExecNeo(p) })
					s.wantOK(what, err)
					checkResult(what, r, x)
				case "QueryNeo":
					var r bolt.Rows
					s.call(what, func() { r, err = s.conn.QueryNeo(x.text, p) })
					s.wantOK(what, err)
					iterate(what, r, x)
				case "stmt.QueryNeo":
					var r bolt.Rows
					s.call(what, func() { r, err = st.QueryNeo(p) })
					s.wantOK(what, err)
					iterate(what, r, x)
				case "stmt.All":
					var r bolt.Rows
					var data [][]interface{}
					var m2 map[string]interface{}
					s.call(what, func() { r, err = st.QueryNeo(p) })
					s.wantOK(what, err)
					s.call(what+" All", func() { data, m2, err = r.All() })
					s.wantOK(what, err)
					s.wantAll(what, data, &mPlan{plan: x.plan}, 0)
					s.wantMeta(what, m2, x.plan.Summary)
					s.call("Close", func() { err = r.Close() })
					s.wantOK(what+" Close", err)
				case "QueryNeoAll":
					var data [][]interface{}
					var m1, m2 map[string]interface{}
					s.call(what, func() { data, m1, m2, err = s.conn.QueryNeoAll(x.text, p) })
					s.wantOK(what, err)
					s.wantAll(what, data, &mPlan{plan: x.plan}, 0)
					s.wantMeta(what+" run metadata", m1, x.plan.RunMeta)
					s.wantMeta(what+" summary", m2, x.plan.Summary)
				}
				if st != nil {
					s.call("stmt.Close", func() { err = st.Close() })
					s.wantOK("stmt.Close", err)
				}
			default:
				n := rapid.IntRange(1, 4).Draw(t, "n")
				xs := make([]xplan, n)
				tx := make([]string, n)
				ps := make([]map[string]interface{}, n)
				for i := range xs {
					xs[i] = genX(t, i)
					push(xs[i])
					tx[i] = xs[i].text
					ps[i] = in(xs[i])
				}
				what := fmt.Sprintf("%s(%d queries)", m, n)
				var st bolt.PipelineStmt
				if strings.HasPrefix(m, "pstmt") {
					s.call("PreparePipeline", func() { st, err = s.conn.PreparePipeline(tx...) })
					s.wantOK("PreparePipeline", err)
				}
				var rs []bolt.Result
				var rows bolt.PipelineRows
				switch m {
				case "ExecPipeline":
					s.call(what, func() { rs, err = s.conn.ExecPipeline(tx, ps...) })
				case "pstmt.ExecPipeline":
					s.call(what, func() { rs, err = st.ExecPipeline(ps...) })
				case "QueryPipeline":
					s.call(what, func() { rows, err = s.conn.QueryPipeline(tx, ps...) })
				case "pstmt.QueryPipeline":
					s.call(what, func() { rows, err = st.QueryPipeline(ps...) })
				}
				s.wantOK(what, err)
				if rows != nil {
					iterPipe(what, rows, xs)
				} else {
					if len(rs) != n {
						s.fail("%s returned %d results", what, len(rs))
					}
					for i := range rs {
						checkResult(fmt.Sprintf("%s result %d", what, i), rs[i], xs[i])
					}
				}
				if st != nil {
					s.call("pstmt.Close", func() { err = st.Close() })
					s.wantOK("pstmt.Close", err)
				}
			}
		}
		s.call("conn.Close", func() { s.conn.Close() })
		s.checkKept()
		for _, p := range given {
			if d := p(); d != "" {
				s.fail("%s", d)
			}
		}
		s.srv.WaitGone(0, 400)
		if il := s.srv.Illegal(); len(il) > 0 {
			s.fail("illegal request: %s", il[0])
		}
		runs := s.srv.Runs()
		if len(runs) != len(sent) {
			s.fail("%d queries made, the server received %d", len(sent), len(runs))
		}
		nt := false
		for i, r := range runs {
			want := sent[i].params
			if want == nil {
				want = map[string]interface{}{}
			}
			if r.Stmt != sent[i].text {
				s.fail("query %d: the server received statement %s, want %s", i, vh.Show(r.Stmt), vh.Show(sent[i].text))
			}
			if !refps.Equal(r.Params, want) {
				s.fail("query %d: the server received parameters %s, want %s", i, vh.Show(r.Params), vh.Show(want))
			}
			if len(want) > 0 || len(sent[i].plan.Records) > 0 {
				nt = true
			}
			if len(r.NonMinimal) > 0 {
				classes = append(classes, "non-minimal")
			}
			if len(r.Chunks) > 1 {
				classes = append(classes, "multi-chunk")
			}
		}
		vh.Note("C06", strings.Join(s.trace, "\n"), nt, classes...)
	})
}

// ---- C20: result accessors ----

func TestC20Accessors(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		s := newSess(t, opWeights{}, boltfake.Config{})
		defer s.srv.Close()
		var cl []string
		n := rapid.IntRange(1, 4).Draw(t, "n")
		type want struct {
			sum, run map[string]interface{}
			count    int64
			err      bool
			free     bool // not a number that adds up: no value prescribed, only no panic
			cols     []string
		}
		var wants []want
		for i := 0; i < n; i++ {
			var w want
			w.sum = vh.Map(t, &vh.Opt{Budget: 4, Depth: 2})
			delete(w.sum, "stats")
			switch rapid.IntRange(0, 7).Draw(t, "stats") {
			case 0:
				cl = append(cl, "no-stats")
			case 1:
				v := vh.Val(t, &vh.Opt{Budget: 3, Depth: 2})
				if _, ok := v.(map[string]interface{}); ok {
					v = "map"
				}
				w.sum["stats"] = v
				w.err = true
				if v == nil {
					w.err, w.free = false, true
				}
				cl = append(cl, "stats-not-a-map")
			default:
				m := map[string]interface{}{}
				for _, k := range []string{"nodes-created", "relationships-created", "nodes-deleted", "relationships-deleted"} {
					switch rapid.IntRange(0, 9).Draw(t, k) {
					case 0, 1:
					case 2:
						v := vh.Val(t, &vh.Opt{Budget: 2, Depth: 1})
						if x, ok := v.(int64); ok {
							v = fmt.Sprint(x)
						}
						m[k] = v
						w.err = true
						cl = append(cl, "stat-not-a-number")
						if _, ok := v.(float64); ok {
							w.free = true
						}
						if v == nil {
							w.free = true
						}
					default:
						x := rapid.Int64Range(0, 1<<40).Draw(t, "stat")
						if rapid.Bool().Draw(t, "smallstat") {
							x %= 300
						}
						m[k] = x
						w.count += x
					}
				}
				for _, k := range []string{"properties-set", "labels-added", "labels-removed", "indexes-added", "constraints-removed", "contains-updates", "nodes", "Nodes-created"} {
					if rapid.IntRange(0, 2).Draw(t, k) == 0 {
						m[k] = vh.Val(t, &vh.Opt{Budget: 2, Depth: 1})
					}
				}
				w.sum["stats"] = m
			}
			w.run = map[string]interface{}{}
			w.cols = []string{}
			switch rapid.IntRange(0, 6).Draw(t, "fields") {
			case 0:
				cl = append(cl, "no-fields")
			case 1:
				v := vh.Val(t, &vh.Opt{Budget: 3, Depth: 2})
				if _, ok := v.([]interface{}); ok {
					v = int64(3)
				}
				w.run["fields"] = v
				cl = append(cl, "fields-not-a-list")
			case 2:
				var l []interface{}
				for j := rapid.IntRange(0, 3).Draw(t, "before"); j > 0; j-- {
					l = append(l, vh.Str(t, "col", false))
				}
				v := vh.Val(t, &vh.Opt{Budget: 2, Depth: 1})
				if _, ok := v.(string); ok {
					v = int64(1)
				}
				l = append(l, v)
				for j := rapid.IntRange(0, 3).Draw(t, "after"); j > 0; j-- {
					l = append(l, vh.Str(t, "col", false))
				}
				w.run["fields"] = l
				cl = append(cl, "fields-not-strings")
			default:
				nf := rapid.SampledFrom([]int{0, 1, 2, 5, 15, 16, 17, 255, 256, 300}).Draw(t, "nf")
				l := make([]interface{}, nf)
				for i := range l {
					c := fmt.Sprintf("c%d", i)
					if nf < 6 {
						c = vh.Str(t, "col", false)
					}
					l[i] = c
					w.cols = append(w.cols, c)
				}
				w.run["fields"] = l
			}
			vh.Meta(t, w.run)
			vh.Meta(t, w.sum)
			var recs [][]interface{}
			for j := rapid.IntRange(0, 2).Draw(t, "recs"); j > 0; j-- {
				recs = append(recs, []interface{}{int64(j)})
			}
			s.srv.Plan(fmt.Sprintf("q%d", i), &boltfake.Plan{RunMeta: w.run, Summary: w.sum, Records: recs})
			wants = append(wants, w)
		}
		s.open()
		defer s.conn.Close()
		check := func(what string, r bolt.Result, w want) {
			s.wantMeta(what, r.Metadata(), w.sum)
			var c, id int64
			var err, err2 error
			s.call(what+".RowsAffected with stats "+vh.Show(w.sum["stats"]), func() { c, err = r.RowsAffected() })
			s.call("LastInsertId", func() { id, err2 = r.LastInsertId() })
			if id != -1 || err2 != nil {
				s.fail("LastInsertId = %d, %v", id, err2)
			}
			if w.free {
				return
			}
			if w.err != (err != nil) {
				s.fail("RowsAffected with stats %s: error %v", vh.Show(w.sum["stats"]), err)
			}
			if !w.err && c != w.count {
				s.fail("RowsAffected with stats %s = %d, want %d", vh.Show(w.sum["stats"]), c, w.count)
			}
			s.wantMeta(what+" afterwards", r.Metadata(), w.sum)
			if c2, err2 := r.RowsAffected(); (err2 != nil) != (err != nil) || c2 != c {
				s.fail("RowsAffected is %d, %v at first and then %d, %v", c, err, c2, err2)
			}
		}
		columns := func(what string, f func() []string, w want) {
			var cols []string
			s.call(what+" Columns", func() { cols = f() })
			if len(cols) != len(w.cols) || strings.Join(cols, "\x00") != strings.Join(w.cols, "\x00") {
				s.fail("%s: Columns = %q for fields %s", what, cols, vh.Show(w.run["fields"]))
			}
			if cols == nil {
				s.fail("%s: Columns returned nil instead of an empty list", what)
			}
		}
		tx := make([]string, n)
		for i, w := range wants {
			tx[i] = fmt.Sprintf("q%d", i)
			var r bolt.Result
			var err error
			s.call("ExecNeo", func() { r, err = s.conn.ExecNeo(tx[i], nil) })
			s.wantOK("ExecNeo", err)
			check("ExecNeo", r, w)
			var rows bolt.Rows
			var st bolt.Stmt
			how := rapid.SampledFrom([]string{"QueryNeo", "stmt.QueryNeo", "QueryNeoAll", "stmt.ExecNeo"}).Draw(t, "how")
			cl = append(cl, how)
			if strings.HasPrefix(how, "stmt") {
				s.call("PrepareNeo", func() { st, err = s.conn.PrepareNeo(tx[i]) })
				s.wantOK("PrepareNeo", err)
			}
			switch how {
			case "QueryNeoAll":
				var m1, m2 map[string]interface{}
				s.call(how, func() { _, m1, m2, err = s.conn.QueryNeoAll(tx[i], nil) })
				s.wantOK(how, err)
				s.wantMeta(how+" run metadata", m1, w.run)
				s.wantMeta(how+" summary", m2, w.sum)
				continue
			case "stmt.ExecNeo":
				s.call(how, func() { r, err = st.ExecNeo(nil) })
				s.wantOK(how, err)
				check(how, r, w)
				s.call("stmt.Close", func() { err = st.Close() })
				s.wantOK("stmt.Close", err)
				continue
			case "QueryNeo":
				s.call(how, func() { rows, err = s.conn.QueryNeo(tx[i], nil) })
			default:
				s.call(how, func() { rows, err = st.QueryNeo(nil) })
			}
			s.wantOK(how, err)
			columns(how, rows.Columns, w)
			s.wantMeta(how+" Metadata", rows.Metadata(), w.run)
			if rapid.Bool().Draw(t, "read") {
				var m map[string]interface{}
				s.call("All", func() { _, m, err = rows.All() })
				s.wantOK("All", err)
				s.wantMeta("All", m, w.sum)
				columns(how+" at the end", rows.Columns, w)
				s.wantMeta(how+" Metadata at the end", rows.Metadata(), w.run)
			}
			s.call("rows.Close", func() { err = rows.Close() })
			s.wantOK("rows.Close", err)
			if st != nil {
				s.call("stmt.Close", func() { err = st.Close() })
				s.wantOK("stmt.Close", err)
			}
		}
		if rapid.Bool().Draw(t, "piperows") {
			cl = append(cl, "QueryPipeline")
			var pr bolt.PipelineRows
			var err error
			s.call("QueryPipeline", func() { pr, err = s.conn.QueryPipeline(tx, make([]map[string]interface{}, n)...) })
			s.wantOK("QueryPipeline", err)
			for i, w := range wants {
				what := fmt.Sprintf("pipeline rows %d", i)
				columns(what, pr.Columns, w)
				s.wantMeta(what+" Metadata", pr.Metadata(), w.run)
				cur := pr
				for j := 0; j < 4; j++ {
					var row []interface{}
					var next bolt.PipelineRows
					s.call(what+" NextPipeline", func() { row, _, next, err = cur.NextPipeline() })
					if row == nil {
						if !isNilRows(next) {
							pr = next
						}
						break
					}
				}
			}
			s.call("pipeline rows.Close", func() { err = pr.Close() })
			s.wantOK("pipeline rows.Close", err)
		}
		var rs []bolt.Result
		var err error
		s.call("ExecPipeline", func() { rs, err = s.conn.ExecPipeline(tx, make([]map[string]interface{}, n)...) })
		s.wantOK("ExecPipeline", err)
		if len(rs) != n {
			s.fail("ExecPipeline returned %d results", len(rs))
		}
		for i := range rs {
			check("pipeline result", rs[i], wants[i])
		}
		s.checkKept()
		vh.Note("C20", fmt.Sprint(len(wants), vh.Show(wants[0].sum), vh.Show(wants[0].run)), true, cl...)
	})
}
