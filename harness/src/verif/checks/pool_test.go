package checks

import (
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	"verif/boltfake"
	"verif/script"
	"verif/vh"
)

// ---- C13: concurrent use of a pool ----

type worker struct {
	scripts []*script.Script
	dry     [][]script.Call
	hold    []int // microseconds to keep the connection idle before and after
	again   []int // 1: closed twice, 2: closed again while the next one is in use
	problem string
}

// dryOf runs a history on a connection of its own, for comparison.
func dryOf(t *rapid.T, sc *script.Script, cfg boltfake.Config) []script.Call {
	f := &faultRun{t: t, sc: sc}
	f.dryRun(cfg)
	return f.dry
}

func sameCalls(got, want []script.Call) string {
	for i, c := range got {
		if c.Abnorm != "" {
			return c.Desc + " " + c.Abnorm
		}
		if i >= len(want) || c.Desc != want[i].Desc {
			return "HARNESS: runs diverge at " + c.Desc
		}
		if c.Class != want[i].Class || c.Out != want[i].Out {
			return fmt.Sprintf("%s\nwant %s", c, want[i])
		}
	}
	if len(got) != len(want) {
		return fmt.Sprintf("HARNESS: %d calls instead of %d", len(got), len(want))
	}
	return ""
}

// genWorkers generates the histories of n goroutines; statement ids tell whose
// request the server sees: id / 1000 numbers the round, unique over all workers.
func genWorkers(t *rapid.T, n, rounds int, o script.Opt) (ws []*worker, all map[int64]*script.Script) {
	all = map[int64]*script.Script{}
	round := int64(0)
	for i := 0; i < n; i++ {
		w := &worker{}
		for k := rapid.IntRange(1, rounds).Draw(t, "rounds"); k > 0; k-- {
			round++
			o.Base = round * 1000
			sc := script.Gen(t, o)
			sc.Chunk = 0
			w.scripts = append(w.scripts, sc)
			w.dry = append(w.dry, dryOf(t, sc, boltfake.Config{Seed: 1}))
			w.hold = append(w.hold, rapid.IntRange(0, 300).Draw(t, "hold"))
			w.again = append(w.again, rapid.IntRange(0, 5).Draw(t, "again"))
			all[round] = sc
		}
		ws = append(ws, w)
	}
	return ws, all
}

func serveAll(srv *boltfake.Server, all map[int64]*script.Script) {
	srv.Default(func(_ string, params interface{}) *boltfake.Plan {
		m, _ := params.(map[string]interface{})
		k, _ := m["k"].(int64)
		if sc := all[k/1000]; sc != nil {
			return sc.Lookup(params)
		}
		return &boltfake.Plan{RunMeta: map[string]interface{}{"fields": []interface{}{"k"}}, Records: [][]interface{}{{k}}, Summary: map[string]interface{}{"own": k}}
	})
}

func TestC13Pool(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		max := rapid.IntRange(1, 4).Draw(t, "max")
		n := rapid.IntRange(1, 7).Draw(t, "workers")
		rounds := 4
		if rapid.IntRange(0, 29).Draw(t, "large") == 29 {
			max = rapid.IntRange(5, 40).Draw(t, "maxlarge")
			n = rapid.IntRange(2, max+8).Draw(t, "workerslarge")
			rounds = 2
		}
		ws, all := genWorkers(t, n, rounds, script.Opt{MaxOps: 3, FailPct: 10, NoTxFail: true})
		srv := boltfake.New(boltfake.Config{Seed: rapid.Uint64().Draw(t, "seed"), Noise: rapid.IntRange(0, 3).Draw(t, "noise"), MaxConns: max})
		defer srv.Close()
		serveAll(srv, all)
		pool, err := bolt.NewClosableDriverPool(openURL(srv.Addr), max)
		if err != nil {
			t.Fatalf("creating the pool failed: %v", err)
		}
		var inUse, peak int32
		var wg sync.WaitGroup
		bad := func() string {
			for i, w := range ws {
				if w.problem != "" {
					return fmt.Sprintf("worker %d: %s", i, w.problem)
				}
			}
			return ""
		}
		o := vh.Guard(srv.Activity, func() {
			for _, w := range ws {
				wg.Add(1)
				go func(w *worker) {
					defer wg.Done()
					defer func() {
						if r := recover(); r != nil {
							w.problem = fmt.Sprintf("panic: %v", r)
						}
					}()
					var stale []bolt.Conn
					for i, sc := range w.scripts {
						conn, err := pool.OpenPool()
						for _, c := range stale {
							c.Close()
						}
						stale = nil
						if err != nil {
							w.problem = fmt.Sprintf("OpenPool failed: %s", vh.Brief(err))
							return
						}
						u := atomic.AddInt32(&inUse, 1)
						for {
							p := atomic.LoadInt32(&peak)
							if u <= p || atomic.CompareAndSwapInt32(&peak, p, u) {
								break
							}
						}
						time.Sleep(time.Duration(w.hold[i]) * time.Microsecond)
						r := &script.Runner{Raw: true}
						sc.Run(r, conn, true)
						time.Sleep(time.Duration(w.hold[i]) * time.Microsecond)
						atomic.AddInt32(&inUse, -1)
						r.Do("conn.Close", true, func() (string, bool, int, error) { return "", true, 0, conn.Close() })
						switch w.again[i] {
						case 1:
							conn.Close()
						case 2:
							stale = append(stale, conn)
						}
						if p := sameCalls(r.Calls, w.dry[i]); p != "" {
							w.problem = fmt.Sprintf("round %d (%s): %s", sc.Base/1000, sc, p)
							return
						}
					}
				}(w)
			}
			wg.Wait()
		})
		desc := fmt.Sprintf("pool of %d, %d workers", max, n)
		for _, w := range ws {
			for _, s := range w.scripts {
				desc += " | " + s.String()
			}
			desc += " ||"
		}
		if o.Bad() != "" {
			t.Fatalf("%s: the workers did not finish: %s\nserver: %v", desc, o.Bad(), srv.Reqs())
		}
		if p := bad(); p != "" {
			t.Fatalf("%s\n(%s)", p, desc)
		}
		if int(peak) > max {
			t.Fatalf("%d connections were handed out at once, the maximum is %d (%s)", peak, max, desc)
		}
		if il := srv.Illegal(); len(il) > 0 {
			t.Fatalf("%v (%s)", il, desc)
		}
		// on every server connection the rounds must not interleave
		seen := map[int64]int{}
		last := map[int]int64{}
		for _, r := range srv.Runs() {
			m, _ := r.Params.(map[string]interface{})
			k, ok := m["k"].(int64)
			if !ok {
				continue
			}
			rd := k / 1000
			if c, ok := seen[rd]; ok && c != r.Conn {
				t.Fatalf("round %d was served on two connections (%s)", rd, desc)
			}
			if _, ok := seen[rd]; ok && last[r.Conn] != rd {
				t.Fatalf("round %d and round %d share connection %d at the same time (%s)", rd, last[r.Conn], r.Conn, desc)
			}
			seen[rd] = r.Conn
			last[r.Conn] = rd
		}
		if ov := srv.Over(); ov != "" {
			t.Fatalf("%s (%s)", ov, desc)
		}
		if a := srv.Accepted(); a > max {
			t.Fatalf("%d connections were opened although none of the %d broke (%s)", a, max, desc)
		}
		if o := vh.Guard(srv.Activity, func() { pool.Close() }); o.Bad() != "" {
			t.Fatalf("closing the pool %s (%s)", o.Bad(), desc)
		}
		if !srv.WaitOpen(0, 300) {
			t.Fatalf("closing the pool left %d sockets open (%s)", srv.Open(), desc)
		}
		cl := "uncontended"
		if n > max {
			cl = "contended"
		}
		vh.Note("C13", desc, n > 1, cl, fmt.Sprintf("max-in-use-%d", peak))
	})
}

// ---- C14: sequential histories on a pool ----

type hconn struct {
	conn   bolt.Conn
	sid    int  // server connection
	broken bool // known to be broken
	n      int
}

type poolSess struct {
	t      *rapid.T
	srv    *boltfake.Server
	pool   bolt.ClosableDriverPool
	max    int
	held   []*hconn
	stale  []*hconn
	trace  []string
	key    int64
	mu     sync.Mutex
	refuse bool
	plans  map[int64]*boltfake.Plan
	opened int
	cls    map[string]int
	dead   map[int]bool // server connections that must not be handed out again
}

func (s *poolSess) fail(f string, a ...interface{}) {
	s.t.Helper()
	var b strings.Builder
	for _, l := range s.trace {
		b.WriteString("  " + l + "\n")
	}
	b.WriteString("server log:\n")
	for _, r := range s.srv.Reqs() {
		b.WriteString("  " + r.String() + "\n")
	}
	for _, r := range s.srv.Illegal() {
		b.WriteString("  ILLEGAL " + r + "\n")
	}
	s.t.Fatalf("%s\nhistory (pool of %d):\n%s", fmt.Sprintf(f, a...), s.max, b.String())
}

func (s *poolSess) call(desc string, f func()) {
	s.t.Helper()
	s.trace = append(s.trace, desc)
	if b := vh.Guard(s.srv.Activity, f).Bad(); b != "" {
		s.fail("%s %s", desc, b)
	}
}

func (s *poolSess) setRefuse(b bool) {
	s.mu.Lock()
	s.refuse = b
	s.mu.Unlock()
}

// plan registers a statement.
func (s *poolSess) plan(p *boltfake.Plan) (string, map[string]interface{}) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.key++
	s.plans[s.key] = p
	return vh.Cypher(s.t, int(s.key)), map[string]interface{}{"k": s.key}
}

// fresh checks a connection that was just handed out and finds out which
// server connection it is.
func (s *poolSess) fresh(h *hconn) {
	k := s.key + 1
	q, p := s.plan(&boltfake.Plan{RunMeta: map[string]interface{}{"fields": []interface{}{"v"}}, Records: [][]interface{}{{fmt.Sprintf("row %d", k)}}, Summary: map[string]interface{}{"own": k}})
	var rows [][]interface{}
	var m2 map[string]interface{}
	var err error
	what := fmt.Sprintf("first query on c%d", h.n)
	s.call(what, func() { rows, _, m2, err = h.conn.QueryNeoAll(q, p) })
	if err != nil {
		s.fail("%s: a connection just taken from the pool does not work: %s", what, vh.Brief(err))
	}
	if len(rows) != 1 || vh.SameRow(rows[0], []interface{}{fmt.Sprintf("row %d", k)}) != "" || vh.SameMap(m2, map[string]interface{}{"own": k}) != "" {
		s.fail("%s: a connection just taken from the pool returned %v %v", what, rows, m2)
	}
	h.sid = -1
	for _, r := range s.srv.Runs() {
		if r.Stmt == q {
			if h.sid >= 0 {
				s.fail("%s was sent twice", what)
			}
			h.sid = r.Conn
			if r.Tx != 0 {
				s.fail("%s ran inside transaction %d of an earlier user", what, r.Tx)
			}
		}
	}
	for _, o := range s.held {
		if o != h && o.sid == h.sid {
			s.fail("c%d and c%d share a connection", o.n, h.n)
		}
	}
	if s.dead[h.sid] {
		s.fail("c%d is a connection that failed before", h.n)
	}
	s.cls["handed-out"]++
}

func (s *poolSess) take() {
	var c bolt.Conn
	var err error
	s.mu.Lock()
	refuse := s.refuse
	s.mu.Unlock()
	s.opened++
	h := &hconn{n: s.opened}
	s.call(fmt.Sprintf("c%d = OpenPool (refusing: %v)", h.n, refuse), func() { c, err = s.pool.OpenPool() })
	if err != nil {
		if !refuse {
			s.fail("OpenPool failed although %d of %d connections are in use and the server is healthy: %s", len(s.held), s.max, vh.Brief(err))
		}
		s.cls["refused-init"]++
		s.trace = append(s.trace, "  refused")
		return
	}
	h.conn = c
	s.held = append(s.held, h)
	s.fresh(h)
}

// exhausted: with all connections in use opening waits until one is returned.
func (s *poolSess) exhausted() {
	type res struct {
		c   bolt.Conn
		err error
	}
	s.opened++
	n := s.opened
	s.trace = append(s.trace, fmt.Sprintf("c%d = OpenPool with all connections in use", n))
	ch := make(chan res, 1)
	go func() {
		c, err := s.pool.OpenPool()
		ch <- res{c, err}
	}()
	select {
	case r := <-ch:
		if r.err == nil {
			s.fail("OpenPool handed out another connection although all %d are in use", s.max)
		}
		s.fail("OpenPool failed instead of waiting: %s", vh.Brief(r.err))
	case <-time.After(time.Duration(rapid.IntRange(1, 4).Draw(s.t, "wait")) * time.Millisecond):
	}
	i := rapid.IntRange(0, len(s.held)-1).Draw(s.t, "which")
	s.give(i)
	var r res
	s.call("waiting OpenPool is served", func() { r = <-ch })
	s.mu.Lock()
	refuse := s.refuse
	s.mu.Unlock()
	if r.err != nil {
		if !refuse {
			s.fail("the waiting OpenPool failed: %s", vh.Brief(r.err))
		}
		return
	}
	h := &hconn{n: n, conn: r.c}
	s.held = append(s.held, h)
	s.fresh(h)
	s.cls["waited"]++
}

func (s *poolSess) give(i int) {
	h := s.held[i]
	s.held = append(append([]*hconn{}, s.held[:i]...), s.held[i+1:]...)
	s.stale = append(s.stale, h)
	s.call(fmt.Sprintf("c%d.Close", h.n), func() { h.conn.Close() })
}

// use does something with a held connection and may leave it in any state.
func (s *poolSess) use(h *hconn) {
	t := s.t
	meta := map[string]interface{}{"fields": []interface{}{"v"}}
	recs := [][]interface{}{{"a"}, {"b"}, {"c"}}
	switch k := rapid.SampledFrom([]string{"rows", "rows", "tx", "tx", "stmt", "pipe", "fail", "failrows", "ackfail", "resetfail", "txfail", "kill", "killuse"}).Draw(t, "use"); k {
	case "rows":
		q, p := s.plan(&boltfake.Plan{RunMeta: meta, Records: recs})
		n := rapid.IntRange(0, 3).Draw(t, "read")
		s.call(fmt.Sprintf("c%d: query, %d rows read", h.n, n), func() {
			rows, err := h.conn.QueryNeo(q, p)
			for i := 0; err == nil && i < n; i++ {
				_, _, err = rows.NextNeo()
			}
		})
	case "tx":
		q, p := s.plan(&boltfake.Plan{RunMeta: meta, Records: recs})
		n := rapid.IntRange(0, 2).Draw(t, "inside")
		s.call(fmt.Sprintf("c%d: begin left open, %d", h.n, n), func() {
			h.conn.Begin()
			if n > 0 {
				h.conn.ExecNeo(q, p)
			}
			if n > 1 {
				h.conn.QueryNeo(q, p)
			}
		})
	case "stmt":
		q, p := s.plan(&boltfake.Plan{RunMeta: meta, Records: recs})
		n := rapid.IntRange(0, 2).Draw(t, "inside")
		s.call(fmt.Sprintf("c%d: statement left open, %d", h.n, n), func() {
			st, err := h.conn.PrepareNeo(q)
			if err == nil && n > 0 {
				rows, err := st.QueryNeo(p)
				if err == nil && n > 1 {
					rows.NextNeo()
				}
			}
		})
	case "pipe":
		q1, p1 := s.plan(&boltfake.Plan{RunMeta: meta, Records: recs})
		q2, p2 := s.plan(&boltfake.Plan{RunMeta: meta, Records: recs})
		n := rapid.IntRange(0, 5).Draw(t, "read")
		s.call(fmt.Sprintf("c%d: pipeline, %d read", h.n, n), func() {
			rows, err := h.conn.QueryPipeline([]string{q1, q2}, p1, p2)
			for i := 0; err == nil && i < n; i++ {
				var nx bolt.PipelineRows
				_, _, nx, err = rows.NextPipeline()
				if err == nil && !isNilRows(nx) {
					rows = nx
				}
			}
		})
	case "fail", "ackfail", "resetfail", "failrows":
		f := &boltfake.Fail{At: rapid.IntRange(-1, 2).Draw(t, "at"), Meta: map[string]interface{}{"code": "x"}, AckFails: k == "ackfail" || k == "resetfail", ResetFails: k == "resetfail"}
		q, p := s.plan(&boltfake.Plan{RunMeta: meta, Records: recs, Fail: f})
		s.call(fmt.Sprintf("c%d: %s", h.n, k), func() {
			if k == "failrows" {
				h.conn.QueryNeo(q, p) // the failure is met when the rows are closed
				return
			}
			h.conn.QueryNeoAll(q, p)
		})
	case "txfail":
		what := rapid.SampledFrom([]string{"COMMIT", "ROLLBACK", "BEGIN"}).Draw(t, "txwhat")
		if _, tx, _ := s.srv.State(h.sid); tx == 0 {
			f := &boltfake.Fail{At: rapid.IntRange(-1, 0).Draw(t, "at"), Meta: map[string]interface{}{"code": "x"}}
			used := false
			if what == "ROLLBACK" && f.At < 0 && rapid.Bool().Draw(t, "keep") {
				f.KeepTx, f.OnConn = true, h.sid
			}
			s.call(fmt.Sprintf("c%d: begin, %s fails (transaction left open %v)", h.n, what, f.KeepTx), func() {
				s.srv.TxFail(what, f)
				tx, err := h.conn.Begin()
				if err != nil {
					used = what == "BEGIN"
					return
				}
				switch what {
				case "COMMIT":
					tx.Commit()
					used = true
				case "ROLLBACK":
					used = true // now or on closing
					if f.At == 0 {
						tx.Rollback()
					}
				}
			})
			if !used {
				s.srv.ClearTx()
			}
		}
	case "kill", "killuse":
		if h.broken {
			return
		}
		h.broken = true
		s.dead[h.sid] = true
		rst := rapid.Bool().Draw(t, "rst")
		s.trace = append(s.trace, fmt.Sprintf("server ends the connection of c%d (rst %v)", h.n, rst))
		if rst {
			s.srv.Kill(h.sid, true)
		} else {
			s.srv.KillIdle(h.sid)
		}
		if k == "killuse" {
			q, p := s.plan(&boltfake.Plan{RunMeta: meta, Records: recs})
			s.call(fmt.Sprintf("c%d: query on the ended connection", h.n), func() { h.conn.QueryNeoAll(q, p) })
		}
		s.cls["killed-in-use"]++
	}
}

func TestC14Pool(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) { poolHistory(t, "C14") })
}

func poolHistory(t *rapid.T, prop string) {
	max := rapid.IntRange(1, 3).Draw(t, "max")
	large := rapid.IntRange(0, 29).Draw(t, "large") == 29
	if large {
		max = rapid.IntRange(4, 40).Draw(t, "maxlarge")
	}
	s := &poolSess{t: t, max: max, plans: map[int64]*boltfake.Plan{}, cls: map[string]int{}, dead: map[int]bool{}}
	s.srv = boltfake.New(boltfake.Config{Seed: rapid.Uint64().Draw(t, "seed"), Noise: rapid.IntRange(0, 2).Draw(t, "noise"), MaxConns: s.max,
		InitHook: func(int) map[string]interface{} {
			s.mu.Lock()
			defer s.mu.Unlock()
			if s.refuse {
				return map[string]interface{}{"code": "refused"}
			}
			return nil
		}})
	defer s.srv.Close()
	s.srv.Default(func(_ string, params interface{}) *boltfake.Plan {
		m, _ := params.(map[string]interface{})
		k, _ := m["k"].(int64)
		s.mu.Lock()
		defer s.mu.Unlock()
		return s.plans[k]
	})
	var err error
	s.pool, err = bolt.NewClosableDriverPool(openURL(s.srv.Addr), s.max)
	if err != nil {
		t.Fatalf("creating the pool failed: %v", err)
	}
	n := rapid.IntRange(2, 16).Draw(t, "n")
	if rapid.IntRange(0, 39).Draw(t, "long") == 39 {
		n = rapid.IntRange(17, 150).Draw(t, "nlong")
	}
	if large {
		s.cls["large"]++
		for k := rapid.IntRange(s.max/2, s.max).Draw(t, "fill"); len(s.held) < k; {
			s.take()
		}
	}
	for ; n > 0; n-- {
		switch k := rapid.IntRange(0, 13).Draw(t, "op"); {
		case k <= 3:
			if len(s.held) < s.max {
				s.take()
			} else {
				s.exhausted()
			}
		case k <= 6 && len(s.held) > 0:
			s.use(s.held[rapid.IntRange(0, len(s.held)-1).Draw(t, "which")])
		case k <= 9 && len(s.held) > 0:
			s.give(rapid.IntRange(0, len(s.held)-1).Draw(t, "which"))
		case k == 10 && len(s.stale) > 0:
			h := s.stale[rapid.IntRange(0, len(s.stale)-1).Draw(t, "stale")]
			s.call(fmt.Sprintf("c%d.Close again", h.n), func() { h.conn.Close() })
			s.cls["closed-again"]++
		case k == 11 && len(s.stale) > 0:
			h := s.stale[rapid.IntRange(0, len(s.stale)-1).Draw(t, "stale")]
			q, p := s.plan(&boltfake.Plan{})
			var err error
			s.call(fmt.Sprintf("c%d.ExecNeo after it was closed", h.n), func() { _, err = h.conn.ExecNeo(q, p) })
			if err == nil {
				s.fail("c%d was usable after it had been given back", h.n)
			}
			for _, r := range s.srv.Runs() {
				if r.Stmt == q {
					s.fail("c%d sent a request after it had been given back", h.n)
				}
			}
		case k == 12:
			// the server ends idle connections
			use := map[int]bool{}
			for _, h := range s.held {
				use[h.sid] = true
			}
			for i := 0; i < s.srv.Accepted(); i++ {
				if !use[i] && !s.dead[i] && rapid.Bool().Draw(t, "idle") {
					s.trace = append(s.trace, fmt.Sprintf("server ends idle connection %d", i))
					s.srv.KillIdle(i)
					s.dead[i] = true
					s.cls["killed-idle"]++
				}
			}
		case k == 13:
			s.setRefuse(!s.refuse)
			s.trace = append(s.trace, fmt.Sprintf("server refuses initialisations: %v", s.refuse))
		}
	}
	// whatever happened, the pool has its full capacity again, and not more
	s.setRefuse(false)
	s.trace = append(s.trace, "all connections are given back, the server is healthy")
	for len(s.held) > 0 {
		s.give(0)
	}
	for i := 0; i < s.max; i++ {
		s.take()
	}
	s.exhausted()
	if ov := s.srv.Over(); ov != "" {
		s.fail("%s", ov)
	}
	if !boltfake.WaitFor(300, func() bool { return s.srv.Open() <= s.max }) {
		s.fail("%d sockets are open with a pool of %d: a replaced connection was not closed", s.srv.Open(), s.max)
	}
	for _, h := range s.held {
		if st, tx, _ := s.srv.State(h.sid); st != "READY" || tx != 0 {
			s.fail("c%d is in state %s, transaction %d", h.n, st, tx)
		}
	}
	if il := s.srv.Illegal(); len(il) > 0 {
		s.fail("illegal requests: %v", il)
	}
	for len(s.held) > 0 {
		s.give(0)
	}
	s.call("pool.Close", func() { s.pool.Close() })
	if !s.srv.WaitOpen(0, 300) {
		s.fail("closing the pool left %d sockets open", s.srv.Open())
	}
	var cl []string
	for k := range s.cls {
		cl = append(cl, k)
	}
	vh.Note(prop, strings.Join(s.trace, "\n"), s.opened > s.max+1, cl...)
}

// ---- C15: closing ----

func TestC15PoolClose(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		max := rapid.IntRange(1, 4).Draw(t, "max")
		if rapid.IntRange(0, 14).Draw(t, "large") == 14 {
			max = rapid.IntRange(5, 40).Draw(t, "maxlarge")
		}
		srv := boltfake.New(boltfake.Config{Seed: rapid.Uint64().Draw(t, "seed"), Noise: rapid.IntRange(0, 2).Draw(t, "noise")})
		defer srv.Close()
		srv.Default(func(string, interface{}) *boltfake.Plan {
			return &boltfake.Plan{RunMeta: map[string]interface{}{"fields": []interface{}{"v"}}, Records: [][]interface{}{{"a"}, {"b"}}}
		})
		pool, err := bolt.NewClosableDriverPool(openURL(srv.Addr), max)
		if err != nil {
			t.Fatalf("creating the pool failed: %v", err)
		}
		desc := fmt.Sprintf("pool of %d", max)
		call := func(what string, f func()) {
			if b := vh.Guard(srv.Activity, f).Bad(); b != "" {
				t.Fatalf("%s: %s %s", desc, what, b)
			}
		}
		opened := rapid.IntRange(0, max).Draw(t, "opened")
		var held []bolt.Conn
		for i := 0; i < opened; i++ {
			call("OpenPool", func() {
				c, err := pool.OpenPool()
				if err != nil {
					t.Fatalf("OpenPool failed: %v", err)
				}
				held = append(held, c)
			})
		}
		var state []string
		for i, c := range held {
			k := rapid.SampledFrom([]string{"idle", "rows", "tx", "stmt", "broken", "brokenseen"}).Draw(t, "state")
			state = append(state, k)
			call(k, func() {
				switch k {
				case "rows":
					r, err := c.QueryNeo("RETURN", nil)
					if err == nil {
						r.NextNeo()
					}
				case "tx":
					c.Begin()
				case "stmt":
					c.PrepareNeo("RETURN")
				case "broken":
					srv.KillIdle(i)
				case "brokenseen":
					srv.KillIdle(i)
					c.ExecNeo("RETURN", nil)
				}
			})
		}
		back := 0
		if len(held) > 0 {
			back = rapid.IntRange(0, len(held)).Draw(t, "back")
		}
		for i := 0; i < back; i++ {
			call("conn.Close", func() { held[i].Close() })
		}
		waiters := 0
		nw := rapid.IntRange(0, 3).Draw(t, "waiters")
		results := make(chan error, 8)
		if opened-back == max {
			waiters = nw
		}
		for i := 0; i < waiters; i++ {
			go func() {
				_, err := pool.OpenPool()
				results <- err
			}()
		}
		if waiters > 0 {
			time.Sleep(time.Duration(rapid.IntRange(0, 2000).Draw(t, "settle")) * time.Microsecond)
		}
		desc = fmt.Sprintf("pool of %d, states %v, %d given back, %d waiting", max, state, back, waiters)
		closers := rapid.IntRange(1, 3).Draw(t, "closes")
		conc := rapid.Bool().Draw(t, "concurrent")
		for k := 0; k < closers; k++ {
			if conc && k > 0 {
				break
			}
			errs := make([]error, closers)
			call("pool.Close", func() {
				if !conc {
					errs[k] = pool.Close()
					return
				}
				var wg sync.WaitGroup
				for i := 0; i < closers; i++ {
					i := i
					wg.Add(1)
					go func() { defer wg.Done(); errs[i] = pool.Close() }()
				}
				wg.Wait()
			})
			for _, err := range errs {
				if err != nil {
					t.Fatalf("%s: closing the pool failed although nobody else had closed its connections: %v", desc, err)
				}
			}
		}
		for i := 0; i < waiters; i++ {
			call("an OpenPool waiting when the pool was closed", func() {
				if err := <-results; err == nil {
					t.Fatalf("%s: an OpenPool waiting when the pool was closed succeeded", desc)
				}
			})
		}
		call("OpenPool on a closed pool", func() {
			if _, err := pool.OpenPool(); err == nil {
				t.Fatalf("%s: a closed pool handed out a connection", desc)
			}
		})
		early := rapid.Bool().Draw(t, "early")
		if early && !srv.WaitOpen(0, 300) {
			t.Fatalf("%s: closing the pool left %d sockets open", desc, srv.Open())
		}
		for i := 0; i < len(held); i++ {
			call("closing a connection taken from a closed pool", func() { held[i].Close() })
			if rapid.Bool().Draw(t, "again") {
				call("closing it again", func() { held[i].Close() })
			}
		}
		if !srv.WaitOpen(0, 300) {
			t.Fatalf("%s: %d sockets are still open", desc, srv.Open())
		}
		acc := srv.Accepted()
		call("OpenPool on a closed pool", func() {
			if _, err := pool.OpenPool(); err == nil {
				t.Fatalf("%s: a closed pool handed out a connection", desc)
			}
		})
		if srv.Accepted() != acc {
			t.Fatalf("%s: a closed pool opened a connection", desc)
		}
		vh.Note("C15", desc, opened > 0, "pool", fmt.Sprintf("waiters-%d", waiters))
	})
}

// A pool closed while connections are being opened: they must not be handed
// out and not be left open.
func TestC15Opening(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		max := rapid.IntRange(1, 5).Draw(t, "max")
		first := rapid.IntRange(0, max-1).Draw(t, "first")
		opening := rapid.IntRange(1, max-first).Draw(t, "opening")
		at := rapid.Int64Range(0, 14).Draw(t, "at")
		renew := rapid.IntRange(0, first).Draw(t, "renew") // of the first are lost and have to be opened again
		giveBack := rapid.Bool().Draw(t, "back")
		mode := rapid.SampledFrom([]string{"answer", "answer", "answer", "refuse", "hangup"}).Draw(t, "mode")
		desc := fmt.Sprintf("pool of %d, %d opened, %d of them lost, %d being opened (stalled at byte %d), server then %s, the others given back: %v", max, first, renew, opening, at, mode, giveBack)
		vh.Last(desc)
		cfg := boltfake.Config{Seed: rapid.Uint64().Draw(t, "seed"), Fault: func(id int) *boltfake.Fault {
			if id < first {
				return nil
			}
			return &boltfake.Fault{Mode: boltfake.Stall, OutAt: at}
		}}
		if mode == "refuse" {
			cfg.InitHook = func(id int) map[string]interface{} {
				if id < first {
					return nil
				}
				return map[string]interface{}{"code": "Neo.ClientError.Security.Unauthorized"}
			}
		}
		srv := boltfake.New(cfg)
		defer srv.Close()
		pool, err := bolt.NewClosableDriverPool(openURL(srv.Addr), max)
		if err != nil {
			t.Fatalf("creating the pool failed: %v", err)
		}
		call := func(what string, f func()) {
			if b := vh.Guard(srv.Activity, f).Bad(); b != "" {
				t.Fatalf("%s: %s %s", desc, what, b)
			}
		}
		var held []bolt.Conn
		for i := 0; i < first; i++ {
			call("OpenPool", func() {
				c, err := pool.OpenPool()
				if err != nil {
					t.Fatalf("OpenPool failed: %v", err)
				}
				held = append(held, c)
			})
		}
		for i := 0; i < renew; i++ {
			srv.KillIdle(i)
		}
		n := renew
		if giveBack {
			n = len(held)
		}
		for i := 0; i < n; i++ {
			call("conn.Close", func() { held[i].Close() })
		}
		total := opening
		if giveBack {
			total += rapid.IntRange(0, len(held)).Draw(t, "more")
		} else {
			total += renew
		}
		type res struct {
			c   bolt.Conn
			err error
		}
		results := make(chan res, total)
		for i := 0; i < total; i++ {
			go func() {
				c, err := pool.OpenPool()
				results <- res{c, err}
			}()
		}
		// at least this many have to dial
		if !boltfake.WaitFor(300, func() bool { return srv.Accepted() >= first+opening }) {
			vh.Note("C15", desc, false, "not dialing")
			return
		}
		closed := make(chan struct{})
		go func() { pool.Close(); close(closed) }()
		time.Sleep(time.Duration(rapid.IntRange(0, 1500).Draw(t, "settle")) * time.Microsecond)
		quick := false
		select {
		case <-closed:
			quick = true
		default:
		}
		if mode == "hangup" {
			for i := first; i < srv.Accepted(); i++ {
				srv.KillIdle(i)
			}
		}
		srv.Release()
		ok := 0
		for i := 0; i < total; i++ {
			call("an OpenPool in progress when the pool was closed", func() {
				r := <-results
				if r.err == nil {
					ok++
					held = append(held, r.c)
				}
			})
		}
		call("pool.Close", func() { <-closed })
		// those that got a healthy connection before the pool was closed succeed
		may := 0
		if giveBack {
			may = first
		}
		if quick && ok > may {
			t.Fatalf("%s: %d of the connections being opened when the pool was closed were handed out", desc, ok)
		}
		if !srv.WaitOpen(0, 300) {
			t.Fatalf("%s: %d sockets are still open", desc, srv.Open())
		}
		for _, c := range held {
			call("closing a connection taken from a closed pool", func() { c.Close() })
		}
		call("OpenPool on a closed pool", func() {
			if _, err := pool.OpenPool(); err == nil {
				t.Fatalf("%s: a closed pool handed out a connection", desc)
			}
		})
		if !srv.WaitOpen(0, 300) {
			t.Fatalf("%s: %d sockets are still open", desc, srv.Open())
		}
		vh.Note("C15", desc, true, "closed while opening", mode)
	})
}

// Plain connections: the socket is gone after Close whatever happened, and a
// failed opening leaves none.
func TestC15ConnClose(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		f := &faultRun{t: t, sc: script.Gen(t, script.Opt{MaxOps: 3, FailPct: 15})}
		cfg := boltfake.Config{Seed: rapid.Uint64().Draw(t, "seed"), Noise: rapid.IntRange(0, 2).Draw(t, "noise")}
		f.dryRun(cfg)
		// the faults here keep the server's side open, so that only the driver can close
		fl := &boltfake.Fault{Mode: rapid.SampledFrom([]string{boltfake.FIN, boltfake.Garble, boltfake.Garble, "none", boltfake.Stall}).Draw(t, "mode"), Xor: byte(rapid.IntRange(1, 255).Draw(t, "xor"))}
		fl.OutAt = f.offset(t, 0)
		url := openURL
		short := fl.Mode == boltfake.Garble || fl.Mode == boltfake.Stall
		if short && fl.OutAt < f.ends[1] && rapid.IntRange(0, 5).Draw(t, "slow") > 0 {
			fl.OutAt = f.ends[1] // keep most cases from waiting for the smallest URL timeout
		}
		if short {
			url = func(a string) string { return "bolt://" + a + "?timeout=1" }
		}
		f.desc = fmt.Sprintf("%s at byte %d of %d, xor %x", fl.Mode, fl.OutAt, f.out, fl.Xor)
		vh.Last(f.sc.String() + "\n" + f.desc)
		if fl.Mode != "none" {
			cfg.Fault = func(int) *boltfake.Fault { return fl }
		}
		srv := boltfake.New(cfg)
		defer srv.Close()
		f.sc.Serve(srv)
		var conn bolt.Conn
		var err error
		if b := vh.Guard(srv.Activity, func() { conn, err = bolt.NewDriver().OpenNeo(url(srv.Addr)) }).Bad(); b != "" {
			f.fail("opening %s", b)
		}
		if err != nil {
			if !srv.WaitOpen(0, 300) {
				f.fail("a failed opening left its socket open (%s)", vh.Brief(err))
			}
			vh.Note("C15", f.sc.String()+" | "+f.desc, true, "failed-open")
			return
		}
		if short {
			conn.SetTimeout(time.Duration(rapid.IntRange(5, 20).Draw(t, "ms")) * time.Millisecond)
		}
		keep := rapid.IntRange(0, len(f.dry)).Draw(t, "calls")
		f.r = &script.Runner{Activity: srv.Activity}
		f.r.After = func(r *script.Runner, c *script.Call) {
			if len(r.Calls) >= keep {
				r.Stop = true
			}
		}
		f.sc.Run(f.r, conn, true)
		for _, c := range f.r.Calls {
			if strings.HasPrefix(c.Abnorm, "panicked") {
				f.fail("%s %s", c.Desc, c.Abnorm)
			}
		}
		for i := rapid.IntRange(1, 2).Draw(t, "closes"); i > 0; i-- {
			if b := vh.Guard(srv.Activity, func() { conn.Close() }).Bad(); b != "" {
				f.fail("closing %s", b)
			}
		}
		if !srv.WaitOpen(0, 300) {
			f.fail("closing left the socket open")
		}
		vh.Note("C15", f.sc.String()+" | "+f.desc, true, "plain", fl.Mode)
	})
}
