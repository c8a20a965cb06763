package checks

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	"verif/boltfake"
	"verif/refps"
	"verif/script"
	"verif/vh"
)

// A history is run once without a fault and once with one; the two runs are
// compared call by call.

type faultRun struct {
	t    *rapid.T
	sc   *script.Script
	dry  []script.Call
	ends []int64
	kind [][2]byte // of message i: what it answers, what it is
	out  int64
	in   int64
	r    *script.Runner
	desc string
}

func (f *faultRun) fail(format string, a ...interface{}) {
	f.t.Helper()
	var b strings.Builder
	fmt.Fprintf(&b, "%s\nhistory: %s\nfault: %s\nwithout the fault:\n", fmt.Sprintf(format, a...), f.sc, f.desc)
	for _, c := range f.dry {
		fmt.Fprintf(&b, "  %s\n", c)
	}
	b.WriteString("with the fault:\n")
	if f.r != nil {
		for _, c := range f.r.Calls {
			fmt.Fprintf(&b, "  %s\n", c)
		}
	}
	f.t.Fatalf("%s", b.String())
}

func openURL(addr string) string { return "bolt://" + addr + "?timeout=3600" }

// dryRun runs the history without faults and notes what every call needs.
func (f *faultRun) dryRun(cfg boltfake.Config) {
	srv := boltfake.New(cfg)
	defer srv.Close()
	f.sc.Serve(srv)
	conn, err := bolt.NewDriver().OpenNeo(openURL(srv.Addr))
	if err != nil {
		f.t.Fatalf("opening failed: %v", err)
	}
	r := &script.Runner{Activity: srv.Activity, Srv: srv}
	f.sc.Run(r, conn, false)
	f.dry = r.Calls
	for _, c := range r.Calls {
		if c.Abnorm != "" || c.Class == script.Bad || c.Class == script.Err {
			f.fail("a call went wrong without any fault: %s", c)
		}
	}
	if !srv.WaitGone(0, 300) {
		f.fail("closing the connection did not close its socket")
	}
	n := srv.Msgs(0)
	for i := 0; i <= n; i++ {
		f.ends = append(f.ends, srv.End(0, i))
		f.kind = append(f.kind, [2]byte{})
		if i > 0 {
			f.kind[i][0], f.kind[i][1] = srv.MsgKind(0, i)
		}
	}
	f.out = srv.OutBytes(0)
	f.in = srv.InBytes(0)
}

// compare judges the calls of the faulted run. cut is the number of response
// bytes that can have reached the driver (-1: unknown).
func (f *faultRun) compare(calls []script.Call, cut int64, strict bool) (broken bool) {
	di := 0
	for _, c := range calls {
		if c.Abnorm != "" {
			f.fail("%s %s", c.Desc, c.Abnorm)
		}
		if broken {
			if !c.Closing && (c.Class == script.OK || c.Class == script.EOF) {
				f.fail("%s returned normally after the connection had broken", c.Desc)
			}
			if c.Class == script.Fail {
				f.fail("%s delivered a server failure after the connection had broken", c.Desc)
			}
			continue
		}
		if di >= len(f.dry) || f.dry[di].Desc != c.Desc {
			f.t.Fatalf("HARNESS: runs diverge at %s", c.Desc)
		}
		d := f.dry[di]
		di++
		if c.Class == d.Class && c.Out == d.Out {
			// an error that was delivered before the cut is a legitimate answer
			if cut >= 0 && f.ends[d.Need] > cut && (c.Class == script.OK || c.Class == script.EOF) {
				f.fail("%s returned as if complete although its response (ending at byte %d) was cut at byte %d", c.Desc, f.ends[d.Need], cut)
			}
			continue
		}
		if c.Class == script.Bad {
			broken = true
			continue
		}
		if strict {
			f.fail("%s neither returned what it returns without the fault nor the bad-connection error", c.Desc)
		}
		if c.Class == script.Err {
			broken = true
			continue
		}
		f.fail("%s returned something else than without the fault, and no error", c.Desc)
	}
	return broken
}

// nothingSent checks that the calls made by extraCalls never reached the server.
func (f *faultRun) nothingSent(srv *boltfake.Server) {
	if !srv.WaitServed(0) {
		f.fail("HARNESS: the server doesn't end")
	}
	for _, q := range srv.Runs() {
		if m, ok := q.Params.(map[string]interface{}); ok && m["k"] == int64(-1) {
			f.fail("%s was sent to the server by a connection that had broken", q)
		}
	}
}

// after the history: everything else has to be refused as well.
func extraCalls(r *script.Runner, conn bolt.Conn, n int) {
	kinds := []string{"ExecNeo", "QueryNeo", "QueryNeoAll", "Begin", "ExecPipeline", "QueryPipeline", "PrepareNeo"}
	for i := 0; i < 2; i++ {
		k := kinds[(n+i*3)%len(kinds)]
		r.Do("then conn."+k, false, func() (string, bool, int, error) {
			var err error
			q, p := "RETURN -1", map[string]interface{}{"k": int64(-1)}
			switch k {
			case "ExecNeo":
				_, err = conn.ExecNeo(q, p)
			case "QueryNeo":
				_, err = conn.QueryNeo(q, p)
			case "QueryNeoAll":
				_, _, _, err = conn.QueryNeoAll(q, p)
			case "Begin":
				_, err = conn.Begin()
			case "ExecPipeline":
				_, err = conn.ExecPipeline([]string{q}, p)
			case "QueryPipeline":
				_, err = conn.QueryPipeline([]string{q}, p)
			case "PrepareNeo":
				var st bolt.Stmt
				if st, err = conn.PrepareNeo(q); err == nil {
					_, err = st.ExecNeo(p)
				}
			}
			return "", true, 0, err
		})
	}
}

// offset picks a byte of the output, with a preference for message boundaries.
func (f *faultRun) offset(t *rapid.T, from int64) int64 {
	lo, hi := from, f.out-1
	if hi < lo {
		hi = lo
	}
	if rapid.IntRange(0, 2).Draw(t, "atend") == 0 {
		e := f.ends[rapid.IntRange(0, len(f.ends)-1).Draw(t, "end")]
		e += int64(rapid.IntRange(-3, 3).Draw(t, "near"))
		if e >= lo && e <= hi {
			return e
		}
	}
	return rapid.Int64Range(lo, hi).Draw(t, "off")
}

func TestC11Loss(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		f := &faultRun{t: t, sc: script.Gen(t, script.Opt{MaxOps: 5, FailPct: 12, Big: true})}
		cfg := boltfake.Config{Seed: rapid.Uint64().Draw(t, "seed"), Noise: rapid.IntRange(0, 3).Draw(t, "noise")}
		f.dryRun(cfg)
		for k := rapid.IntRange(1, 3).Draw(t, "cuts"); k > 0; k-- {
			fl := &boltfake.Fault{Mode: rapid.SampledFrom([]string{boltfake.FIN, boltfake.FIN, boltfake.RST}).Draw(t, "mode")}
			cut := int64(-1)
			if rapid.IntRange(0, 4).Draw(t, "side") == 0 {
				fl.InAt = rapid.Int64Range(1, f.in).Draw(t, "inat")
			} else {
				fl.OutAt = f.offset(t, 0)
				cut = fl.OutAt
			}
			f.desc = fmt.Sprintf("%s after %d bytes of output / %d bytes of input (of %d, %d)", fl.Mode, fl.OutAt, fl.InAt, f.out, f.in)
			c2 := cfg
			c2.Fault = func(int) *boltfake.Fault { return fl }
			srv := boltfake.New(c2)
			f.sc.Serve(srv)
			vh.Last(f.sc.String() + "\n" + f.desc)
			f.r = &script.Runner{Activity: srv.Activity}
			var conn bolt.Conn
			open := f.r.Do("OpenNeo", false, func() (string, bool, int, error) {
				c, err := bolt.NewDriver().OpenNeo(openURL(srv.Addr))
				conn = c
				return "", true, 0, err
			})
			f.r.Calls = nil
			cl := "open"
			if open.Abnorm != "" {
				f.fail("opening %s", open.Abnorm)
			}
			if open.Class != script.OK {
				if open.Class != script.Bad {
					f.fail("opening failed with %s instead of the bad-connection error", vh.Brief(open.Err))
				}
			} else {
				if cut >= 0 && cut < f.ends[1] {
					f.fail("opening succeeded although the server's answer was cut at byte %d of %d", cut, f.ends[1])
				}
				f.sc.Run(f.r, conn, false)
				broken := f.compare(f.r.Calls, cut, true)
				cl = "broken"
				if !broken {
					cl = "unnoticed"
				}
			}
			if !srv.WaitGone(0, 300) {
				f.fail("the socket was not closed")
			}
			srv.Close()
			vh.Note("C11", f.sc.String()+" | "+f.desc, true, cl, fl.Mode)
		}
	})
}

// ---- C12 ----

func TestC12Late(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		f := &faultRun{t: t, sc: script.Gen(t, script.Opt{MaxOps: 5, FailPct: 12})}
		// something to go wrong on afterwards
		cfg := boltfake.Config{Seed: rapid.Uint64().Draw(t, "seed"), Noise: rapid.IntRange(0, 2).Draw(t, "noise")}
		f.dryRun(cfg)
		if f.out <= f.ends[1] {
			return
		}
		fl := &boltfake.Fault{Mode: boltfake.Stall, OutAt: f.offset(t, f.ends[1])}
		if fl.OutAt >= f.out {
			fl.OutAt = f.out - 1
		}
		extra := rapid.IntRange(0, 6).Draw(t, "extra")
		timeout := rapid.IntRange(5, 30).Draw(t, "timeout")
		f.desc = fmt.Sprintf("stall after byte %d of %d until the driver timed out (%d ms), then the rest arrives", fl.OutAt, f.out, timeout)
		vh.Last(f.sc.String() + "\n" + f.desc)
		cfg.Fault = func(int) *boltfake.Fault { return fl }
		srv := boltfake.New(cfg)
		defer srv.Close()
		f.sc.Serve(srv)
		base := srv
		_ = base
		conn, err := bolt.NewDriver().OpenNeo(openURL(srv.Addr))
		if err != nil {
			f.fail("opening failed: %v", err)
		}
		conn.SetTimeout(time.Duration(timeout) * time.Millisecond)
		released := false
		f.r = &script.Runner{Activity: srv.Activity, After: func(r *script.Runner, c *script.Call) {
			if c.Class == script.Bad && !released {
				released = true
				srv.Release()
				// let what was held back arrive
				a := srv.Activity()
				boltfake.WaitFor(1, func() bool { return srv.Activity() > a })
				time.Sleep(300 * time.Microsecond)
				// a driver that still reads would now wait, or get the late data
				conn.SetTimeout(time.Hour)
			}
		}}
		f.sc.Run(f.r, conn, true)
		if released && !f.r.Stop {
			extraCalls(f.r, conn, extra)
		}
		broken := f.compare(f.r.Calls, fl.OutAt, true)
		if len(f.r.Calls) == 0 || f.r.Calls[len(f.r.Calls)-1].Abnorm == "" {
			if o := vh.Guard(srv.Activity, func() { conn.Close() }); o.Bad() != "" {
				f.fail("closing %s", o.Bad())
			}
			if !srv.WaitGone(0, 300) {
				f.fail("the socket was not closed")
			}
			if broken {
				f.nothingSent(srv)
			}
		}
		cl := "unnoticed"
		if broken {
			cl = "timed-out"
		}
		vh.Note("C12", f.sc.String()+" | "+f.desc, broken, cl)
	})
}

// A request that could only be written in part ends the connection: what is
// written later would be taken for the rest of it.
func TestC12Write(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		inAt := int64(rapid.IntRange(400, 200000).Draw(t, "inat"))
		size := rapid.IntRange(5<<20, 8<<20).Draw(t, "size")
		timeout := rapid.IntRange(5, 40).Draw(t, "timeout")
		chunk := rapid.SampledFrom([]int{65535, 65535, 40000, 4096}).Draw(t, "chunk")
		kind := rapid.SampledFrom([]string{"exec", "query", "all", "pipe exec", "pipe query", "stmt", "stmt query"}).Draw(t, "kind")
		inTx := rapid.Bool().Draw(t, "tx")
		at := rapid.IntRange(0, 2).Draw(t, "at")
		before := rapid.IntRange(0, 3).Draw(t, "before")
		extra := rapid.IntRange(0, 6).Draw(t, "extra")
		cfg := boltfake.Config{Seed: 1, Fault: func(int) *boltfake.Fault {
			return &boltfake.Fault{Mode: boltfake.NoRead, InAt: inAt}
		}}
		desc := fmt.Sprintf("%s of %d bytes in chunks of %d (in transaction: %v), not read from byte %d until the timeout of %d ms", kind, size, chunk, inTx, inAt, timeout)
		vh.Last(desc)
		srv := boltfake.New(cfg)
		defer srv.Close()
		srv.Default(func(string, interface{}) *boltfake.Plan {
			return &boltfake.Plan{RunMeta: map[string]interface{}{"fields": []interface{}{"v"}}, Records: [][]interface{}{{"row"}}}
		})
		conn, err := bolt.NewDriver().OpenNeo(openURL(srv.Addr))
		if err != nil {
			t.Fatalf("HARNESS: opening failed: %v", err)
		}
		conn.SetChunkSize(uint16(chunk))

		var calls []string
		do := func(what string, f func() error) (err error) {
			calls = append(calls, what)
			if o := vh.Guard(srv.Activity, func() { err = f() }); o.Bad() != "" {
				t.Fatalf("%s %s (%s; %v)", what, o.Bad(), desc, calls)
			}
			return err
		}
		if inTx {
			do("Begin", func() error { _, err := conn.Begin(); return err })
		}
		for i := 0; i < before; i++ {
			do("small exec", func() error { _, err := conn.ExecNeo("RETURN 1", nil); return err })
		}
		big := strings.Repeat("x", size)
		p := map[string]interface{}{"big": big}
		conn.SetTimeout(time.Duration(timeout) * time.Millisecond)
		var st bolt.Stmt
		err = do("the large request", func() error {
			var err error
			qs, ps := []string{"RETURN 1", "RETURN 2", "RETURN 3"}, []map[string]interface{}{nil, nil, nil}
			ps[at] = p
			switch kind {
			case "exec":
				_, err = conn.ExecNeo("RETURN 1", p)
			case "query":
				_, err = conn.QueryNeo("RETURN 1", p)
			case "all":
				_, _, _, err = conn.QueryNeoAll("RETURN 1", p)
			case "pipe exec":
				_, err = conn.ExecPipeline(qs, ps...)
			case "pipe query":
				_, err = conn.QueryPipeline(qs, ps...)
			case "stmt", "stmt query":
				if st, err = conn.PrepareNeo("RETURN 1"); err == nil && kind == "stmt" {
					_, err = st.ExecNeo(p)
				} else if err == nil {
					_, err = st.QueryNeo(p)
				}
			}
			return err
		})
		if err == nil {
			t.Fatalf("the large request succeeded without having been read (%s)", desc)
		}
		if !vh.IsBadConn(err) {
			t.Fatalf("the large request failed with %s instead of the bad-connection error (%s)", vh.Brief(err), desc)
		}
		n := len(srv.Runs())
		srv.Release()
		boltfake.WaitFor(1, func() bool { return len(srv.Runs()) > n })
		conn.SetTimeout(time.Hour)
		if st != nil && rapid.Bool().Draw(t, "again") {
			if err := do("the statement again", func() error { _, err := st.ExecNeo(map[string]interface{}{"k": int64(-1)}); return err }); err == nil {
				t.Fatalf("a statement could be run again after a request was lost (%s)", desc)
			}
		}
		if st != nil {
			do("stmt.Close", st.Close)
		}
		rr := &script.Runner{Activity: srv.Activity}
		extraCalls(rr, conn, extra)
		for _, c := range rr.Calls {
			if c.Abnorm != "" || c.Class == script.OK || c.Class == script.EOF || c.Class == script.Fail {
				t.Fatalf("%s: not refused after a request was lost (%s)", c, desc)
			}
		}
		do("conn.Close", conn.Close)
		if !srv.WaitGone(0, 300) {
			t.Fatalf("the socket was not closed (%s)", desc)
		}
		for _, q := range srv.Runs() {
			if m, ok := q.Params.(map[string]interface{}); ok && m["k"] != nil || q.Stmt == "COMMIT" {
				t.Fatalf("%s was sent after a request was lost (%s)", q, desc)
			}
		}
		vh.Note("C12", desc, true, "partial write "+kind)
	})
}

// rawResponse generates a response payload that is not what the driver asked
// for; undecodable says that no implementation could make sense of it.
func rawResponse(t *rapid.T) (b []byte, undecodable bool, what string) {
	enc := func(sig byte, fields ...interface{}) []byte {
		p := []byte{0xB0 | byte(len(fields)), sig}
		for _, f := range fields {
			p = refps.Encode(p, f, refps.Minimal{})
		}
		return p
	}
	m := map[string]interface{}{"fields": []interface{}{"stale"}, "stale": int64(1)}
	switch k := rapid.IntRange(0, 11).Draw(t, "raw"); k {
	case 0:
		return []byte{0xB1, byte(rapid.SampledFrom([]int{0x02, 0x55, 0x72, 0xFF, 0x00}).Draw(t, "sig")), 0xA0}, true, "unknown structure"
	case 1:
		p := enc(boltfake.SigSuccess, m)
		return p[:rapid.IntRange(1, len(p)-1).Draw(t, "cut")], true, "truncated success"
	case 2:
		p := enc(boltfake.SigRecord, []interface{}{"stale", int64(7)})
		return p[:rapid.IntRange(1, len(p)-1).Draw(t, "cut")], true, "truncated record"
	case 3:
		return enc(boltfake.SigSuccess, "not a map"), true, "success without a map"
	case 4:
		return enc(boltfake.SigRecord, m), true, "record without a list"
	case 5:
		return enc(boltfake.SigFailure, int64(1)), true, "failure without a map"
	case 6:
		return []byte{0xC4}, true, "reserved marker"
	case 7:
		return append(enc(boltfake.SigSuccess, m)[:2], 0xDA, 0xFF, 0xFF), true, "oversized map"
	case 8:
		return refps.Encode(nil, vh.Val(t, &vh.Opt{Budget: 3, Depth: 2, Graph: true}), refps.Minimal{}), false, "a bare value"
	case 9:
		return enc(boltfake.SigIgnored), false, "IGNORED out of place"
	case 10:
		return enc(boltfake.SigRun, "RETURN", map[string]interface{}{}), false, "a request"
	default:
		return enc(boltfake.SigReset), false, "a RESET"
	}
}

func TestC12Undecodable(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		f := &faultRun{t: t, sc: script.Gen(t, script.Opt{MaxOps: 4, FailPct: 20})}
		cfg := boltfake.Config{Seed: rapid.Uint64().Draw(t, "seed"), Noise: rapid.IntRange(0, 2).Draw(t, "noise")}
		f.dryRun(cfg)
		raw, und, what := rawResponse(t)
		place := rapid.SampledFrom([]string{"run", "pull", "ack", "reset"}).Draw(t, "place")
		var ps []*script.P
		for _, o := range f.sc.Ops {
			ps = append(ps, o.Ps...)
		}
		switch place {
		case "run", "pull":
			if len(ps) == 0 {
				return
			}
			p := ps[rapid.IntRange(0, len(ps)-1).Draw(t, "which")]
			old := *p.Plan
			defer func() { *p.Plan = old }()
			if place == "run" {
				p.Plan.RunRaw = raw
			} else {
				p.Plan.PullRaw = raw
			}
			if p.Plan.Fail != nil {
				return
			}
			f.desc = fmt.Sprintf("q%d is answered on %s with %s % x", p.ID, place, what, head(raw))
		default:
			n := 0
			for _, p := range ps {
				if p.Plan.Fail != nil {
					n++
					if place == "reset" {
						p.Plan.Fail.AckFails = true
					}
				}
			}
			if n == 0 {
				return
			}
			if place == "ack" {
				cfg.AckRaw = raw
			} else {
				cfg.ResetRaw = raw
			}
			if what == "IGNORED out of place" {
				// the requests sent before the failure may still be answered with IGNORED
				return
			}
			f.desc = fmt.Sprintf("%s is answered with %s % x", place, what, head(raw))
		}
		vh.Last(f.sc.String() + "\n" + f.desc)
		srv := boltfake.New(cfg)
		defer srv.Close()
		f.sc.Serve(srv)
		conn, err := bolt.NewDriver().OpenNeo(openURL(srv.Addr))
		if err != nil {
			f.fail("opening failed: %v", err)
		}
		f.r = &script.Runner{Activity: srv.Activity, After: func(r *script.Runner, c *script.Call) {
			if (c.Class == script.Bad || c.Class == script.Err) && und {
				conn.SetTimeout(time.Hour)
			}
		}}
		f.sc.Run(f.r, conn, true)
		bad := false
		for _, c := range f.r.Calls {
			if c.Class == script.Bad || c.Class == script.Err {
				bad = true
			}
		}
		if bad && und && !f.r.Stop {
			extraCalls(f.r, conn, rapid.IntRange(0, 6).Draw(t, "extra"))
		}
		if und {
			f.compare(f.r.Calls, -1, false)
		} else {
			f.noStale()
		}
		if o := vh.Guard(srv.Activity, func() { conn.Close() }); o.Bad() != "" {
			f.fail("closing %s", o.Bad())
		}
		if !srv.WaitGone(0, 300) {
			f.fail("the socket was not closed")
		}
		if und && bad {
			f.nothingSent(srv)
		}
		cl := "not-reached"
		if bad {
			cl = "rejected"
		}
		vh.Note("C12", f.sc.String()+" | "+f.desc, bad, cl, what+" on "+place)
	})
}

// Any single message of the server replaced by something that is no answer to
// the request: the call that reads it must not return as if it had been
// answered.
func TestC12Replaced(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		f := &faultRun{t: t, sc: script.Gen(t, script.Opt{MaxOps: 5, FailPct: 15, NoOpen: rapid.Bool().Draw(t, "noopen")})}
		cfg := boltfake.Config{Seed: rapid.Uint64().Draw(t, "seed"), Noise: rapid.IntRange(0, 2).Draw(t, "noise")}
		f.dryRun(cfg)
		if len(f.kind) <= 2 {
			return
		}
		n := rapid.IntRange(2, len(f.kind)-1).Draw(t, "message")
		req, resp := f.kind[n][0], f.kind[n][1]
		var raw []byte
		und, what := false, "a record"
		// in a pipeline that is skipped, one more record would only be missed as the end of a result
		pipes := strings.Contains(f.sc.String(), "prows") || strings.Contains(f.sc.String(), "pexec") || strings.Contains(f.sc.String(), "pstmt")
		if !pipes && req == boltfake.SigRun && resp != boltfake.SigRecord && rapid.IntRange(0, 3).Draw(t, "record") == 0 {
			raw = refps.Encode([]byte{0xB1, boltfake.SigRecord}, []interface{}{"stale", int64(7)}, refps.Minimal{})
		} else {
			raw, und, what = rawResponse(t)
		}
		if what == "IGNORED out of place" && (req == boltfake.SigAck || req == boltfake.SigReset) {
			return // allowed there
		}
		f.desc = fmt.Sprintf("message %d of %d (%s to %s) replaced by %s % x", n, len(f.kind)-1, boltfake.Names[resp], boltfake.Names[req], what, head(raw))
		vh.Last(f.sc.String() + "\n" + f.desc)
		cfg.SwapAt, cfg.Swap = n, raw
		srv := boltfake.New(cfg)
		defer srv.Close()
		f.sc.Serve(srv)
		conn, err := bolt.NewDriver().OpenNeo(openURL(srv.Addr))
		if err != nil {
			f.fail("opening failed: %v", err)
		}
		f.r = &script.Runner{Activity: srv.Activity}
		f.sc.Run(f.r, conn, true)
		bad, judged := false, false
		for i, c := range f.r.Calls {
			if !judged && i < len(f.dry) && f.dry[i].Need >= n {
				judged = true
				if f.dry[i].Desc != c.Desc {
					f.fail("HARNESS: runs diverge at %s", c.Desc)
				}
				if (c.Class == script.OK || c.Class == script.EOF) && !c.Closing {
					f.fail("%s returned without an error although its response was replaced", c.Desc)
				}
			}
			bad = bad || c.Class == script.Bad || c.Class == script.Err
		}
		if bad && und && !f.r.Stop {
			extraCalls(f.r, conn, rapid.IntRange(0, 6).Draw(t, "extra"))
		}
		if und {
			f.compare(f.r.Calls, -1, false)
		} else {
			f.noStale()
		}
		if o := vh.Guard(srv.Activity, func() { conn.Close() }); o.Bad() != "" {
			f.fail("closing %s", o.Bad())
		}
		if !srv.WaitGone(0, 300) {
			f.fail("the socket was not closed")
		}
		if und && bad {
			f.nothingSent(srv)
		}
		cl := "not-reached"
		if bad {
			cl = "rejected"
		}
		vh.Note("C12", f.sc.String()+" | "+f.desc, bad, cl, "replaced", what)
	})
}

func head(b []byte) []byte {
	if len(b) > 24 {
		return b[:24]
	}
	return b
}

// noStale: every call returns its own outcome or an error, whatever came before.
func (f *faultRun) noStale() {
	want := map[string][]string{}
	for _, d := range f.dry {
		want[d.Desc] = append(want[d.Desc], d.Class+d.Out)
	}
	for _, c := range f.r.Calls {
		if c.Abnorm != "" {
			f.fail("%s %s", c.Desc, c.Abnorm)
		}
		if c.Class == script.Bad || c.Class == script.Err || c.Closing || c.Class == script.Fail {
			continue
		}
		ok := false
		for _, w := range want[c.Desc] {
			ok = ok || w == c.Class+c.Out
		}
		if !ok {
			f.fail("%s returned data that belong to no request of its own", c.Desc)
		}
	}
}
