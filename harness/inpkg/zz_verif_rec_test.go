package golangNeo4jBoltDriver_test

import (
	"fmt"
	"os"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	"verif/boltfake"
	"verif/script"
	"verif/vh"
)

func TestMain(m *testing.M) {
	code := m.Run()
	vh.Flush()
	os.Exit(code)
}

type recRun struct {
	t      *rapid.T
	sc     *script.Script
	plain  []script.Call
	second []script.Call
	what   string
}

func (f *recRun) fail(format string, a ...interface{}) {
	f.t.Helper()
	var b strings.Builder
	fmt.Fprintf(&b, "%s\nhistory: %s\nwithout recording:\n", fmt.Sprintf(format, a...), f.sc)
	for _, c := range f.plain {
		fmt.Fprintf(&b, "  %s\n", c)
	}
	fmt.Fprintf(&b, "%s:\n", f.what)
	for _, c := range f.second {
		fmt.Fprintf(&b, "  %s\n", c)
	}
	f.t.Fatalf("%s", b.String())
}

// session opens a connection and runs the history.
func session(d func() bolt.Driver, url string, sc *script.Script, activity func() int64) []script.Call {
	r := &script.Runner{Activity: activity}
	var conn bolt.Conn
	c := r.Do("OpenNeo", false, func() (string, bool, int, error) {
		var err error
		conn, err = d().OpenNeo(url)
		return "", true, 0, err
	})
	if c.Class == script.OK {
		sc.Run(r, conn, false)
	}
	return r.Calls
}

func (f *recRun) same() {
	for i, c := range f.second {
		if c.Abnorm != "" {
			f.fail("%s %s", c.Desc, c.Abnorm)
		}
		if i >= len(f.plain) || f.plain[i].Desc != c.Desc {
			f.fail("%s: the sessions take different courses", c.Desc)
		}
		d := f.plain[i]
		if d.Class != c.Class || d.Out != c.Out {
			f.fail("%s returned %s %s instead of %s %s", c.Desc, c.Class, c.Out, d.Class, d.Out)
		}
	}
	if len(f.plain) != len(f.second) {
		f.fail("the sessions have %d and %d calls", len(f.plain), len(f.second))
	}
}

func TestC23Record(t *testing.T) {
	os.Setenv("RECORD_OUTPUT", "1")
	if err := os.MkdirAll("recordings", 0o770); err != nil {
		t.Fatal("HARNESS: ", err)
	}
	rapid.Check(t, func(t *rapid.T) {
		f := &recRun{t: t, sc: script.Gen(t, script.Opt{MaxOps: 5, FailPct: 12, Big: true, OneKey: true})}
		cfg := boltfake.Config{Seed: rapid.Uint64().Draw(t, "seed"), Noise: rapid.IntRange(0, 3).Draw(t, "noise")}
		vh.Last(f.sc.String())
		name := fmt.Sprintf("rec%d", os.Getpid())
		file := "recordings/" + name + ".json"
		os.Remove(file)

		run := func(d func(string) bolt.Driver) ([]script.Call, []boltfake.Req) {
			srv := boltfake.New(cfg)
			defer srv.Close()
			f.sc.Serve(srv)
			url := "bolt://" + srv.Addr + "?timeout=3600"
			calls := session(func() bolt.Driver { return d(url) }, url, f.sc, srv.Activity)
			if !srv.WaitGone(0, 300) {
				f.second = calls
				f.fail("the connection was not closed (%s)", f.what)
			}
			return calls, srv.Reqs()
		}
		f.what = "not recorded"
		var reqs, reqs2 []boltfake.Req
		f.plain, reqs = run(func(string) bolt.Driver { return bolt.NewDriver() })
		for _, c := range f.plain {
			if c.Abnorm != "" || c.Class == script.Bad || c.Class == script.Err {
				f.fail("a call went wrong without recording: %s", c)
			}
		}
		f.what = "recorded"
		f.second, reqs2 = run(func(url string) bolt.Driver { return bolt.VerifRecorded(name, url) })
		f.same()
		if len(reqs) != len(reqs2) {
			f.fail("the server received %d requests, and %d when recording", len(reqs), len(reqs2))
		}
		if _, err := os.Stat(file); err != nil {
			f.fail("no recording was written: %v", err)
		}
		f.what = "replayed"
		f.second = session(func() bolt.Driver { return bolt.VerifRecorded(name, "") }, "", f.sc, nil)
		f.same()

		// a replay that takes another course
		div, what := diverge(t, f.sc)
		if div != nil {
			orig := f.sc
			f.sc = div
			f.what = "replayed with " + what
			f.second = session(func() bolt.Driver { return bolt.VerifRecorded(name, "") }, "", div, nil)
			bad := false
			for _, c := range f.second {
				if c.Abnorm != "" {
					f.fail("%s %s", c.Desc, c.Abnorm)
				}
				bad = bad || c.Class == script.Bad || c.Class == script.Err
			}
			if !bad {
				f.fail("a replay with %s reported no error (recorded history: %s)", what, orig)
			}
		}
		os.Remove(file)
		vh.Note("C23", f.sc.String()+" | "+what, len(f.sc.Ops) > 0, fmt.Sprintf("noise %d", cfg.Noise), what)
	})
}

// diverge changes the number or the size of the requests.
func diverge(t *rapid.T, sc *script.Script) (*script.Script, string) {
	c := *sc
	c.Ops = append([]script.Op{}, sc.Ops...)
	switch rapid.IntRange(0, 3).Draw(t, "div") {
	case 0:
		i := rapid.IntRange(0, len(c.Ops)-1).Draw(t, "drop")
		switch c.Ops[i].Kind {
		case "begin", "commit", "rollback":
			return nil, "no divergence" // may be made up for by closing
		}
		c.Ops = append(c.Ops[:i], c.Ops[i+1:]...)
		return &c, "an operation missing"
	case 1:
		i := rapid.IntRange(0, len(c.Ops)-1).Draw(t, "dup")
		switch c.Ops[i].Kind {
		case "begin", "commit", "rollback":
			return nil, "no divergence"
		}
		if i < len(c.Ops) && c.Ops[len(c.Ops)-1].Open {
			return nil, "no divergence" // refused without traffic
		}
		c.Ops = append(c.Ops, c.Ops[i])
		return &c, "an operation added"
	default:
		i := rapid.IntRange(0, len(c.Ops)-1).Draw(t, "which")
		if len(c.Ops[i].Ps) == 0 {
			return nil, "no divergence"
		}
		o := c.Ops[i]
		o.Ps = append([]*script.P{}, o.Ps...)
		k := rapid.IntRange(0, len(o.Ps)-1).Draw(t, "p")
		p := *o.Ps[k]
		what := "a longer statement"
		if len(p.Text) > 1 && rapid.Bool().Draw(t, "shorter") && head(len(p.Text)-1) == head(len(p.Text)) {
			p.Text = p.Text[:len(p.Text)-1]
			what = "a shorter statement"
		} else {
			n := rapid.SampledFrom([]int{1, 2, 50}).Draw(t, "by")
			if head(len(p.Text)+n) != head(len(p.Text)) {
				n = 50
			}
			p.Text += strings.Repeat("x", n)
		}
		o.Ps[k] = &p
		c.Ops[i] = o
		return &c, what
	}
}

// head is the kind of header a string of the size has. How a message is divided
// into chunks may depend on that, and make up for a small difference of size.
func head(size int) int {
	switch {
	case size < 16:
		return 0
	case size < 256:
		return 1
	case size < 65536:
		return 2
	}
	return 3
}

// Without a place to write the recording closing reports it, and still closes.
func TestC23NoPlace(t *testing.T) {
	os.Setenv("RECORD_OUTPUT", "1")
	os.RemoveAll("recordings")
	rapid.Check(t, func(t *rapid.T) {
		sc := script.Gen(t, script.Opt{MaxOps: 3, FailPct: 12})
		srv := boltfake.New(boltfake.Config{Seed: rapid.Uint64().Draw(t, "seed"), Noise: rapid.IntRange(0, 2).Draw(t, "noise")})
		defer srv.Close()
		sc.Serve(srv)
		url := "bolt://" + srv.Addr + "?timeout=3600"
		calls := session(func() bolt.Driver { return bolt.VerifRecorded("nowhere", url) }, url, sc, srv.Activity)
		last := calls[len(calls)-1]
		if last.Abnorm != "" {
			t.Fatalf("%s %s\nhistory: %s", last.Desc, last.Abnorm, sc)
		}
		if last.Class == script.OK {
			t.Fatalf("closing reported nothing although the recording could not be written\nhistory: %s", sc)
		}
		if !srv.WaitGone(0, 300) {
			t.Fatalf("the socket was not closed when the recording could not be written\nhistory: %s", sc)
		}
		vh.Note("C23", "no place for: "+sc.String(), true, "unwritable")
	})
}

// A session that is recorded notices the loss of the server, and a server that
// stopped answering, just as one that isn't: every call returns what it returns
// without the fault or the bad-connection error, and the recording is written.
func TestC23Faults(t *testing.T) {
	os.Setenv("RECORD_OUTPUT", "1")
	if err := os.MkdirAll("recordings", 0o770); err != nil {
		t.Fatal("HARNESS: ", err)
	}
	rapid.Check(t, func(t *rapid.T) {
		f := &recRun{t: t, sc: script.Gen(t, script.Opt{MaxOps: 5, FailPct: 12, Big: true, OneKey: true})}
		cfg := boltfake.Config{Seed: rapid.Uint64().Draw(t, "seed"), Noise: rapid.IntRange(0, 3).Draw(t, "noise")}
		name := fmt.Sprintf("rec%d", os.Getpid())
		file := "recordings/" + name + ".json"
		os.Remove(file)

		srv := boltfake.New(cfg)
		f.sc.Serve(srv)
		url := "bolt://" + srv.Addr + "?timeout=3600"
		f.plain = session(func() bolt.Driver { return bolt.NewDriver() }, url, f.sc, srv.Activity)
		for _, c := range f.plain {
			if c.Abnorm != "" || c.Class == script.Bad || c.Class == script.Err {
				f.fail("a call went wrong without recording: %s", c)
			}
		}
		if !srv.WaitGone(0, 300) {
			f.fail("the connection was not closed")
		}
		out, in := srv.OutBytes(0), srv.InBytes(0)
		srv.Close()

		fl := &boltfake.Fault{Mode: rapid.SampledFrom([]string{boltfake.FIN, boltfake.FIN, boltfake.RST, boltfake.Stall}).Draw(t, "mode")}
		timeout := 3600
		if fl.Mode == boltfake.Stall {
			if rapid.IntRange(0, 9).Draw(t, "stall") != 0 {
				fl.Mode = boltfake.FIN
			} else {
				timeout = 1
			}
		}
		if fl.Mode != boltfake.Stall && rapid.IntRange(0, 4).Draw(t, "side") == 0 {
			fl.InAt = rapid.Int64Range(1, in).Draw(t, "inat")
		} else {
			fl.OutAt = rapid.Int64Range(4, out-1).Draw(t, "outat")
		}
		cfg.Fault = func(int) *boltfake.Fault { return fl }
		srv = boltfake.New(cfg)
		defer srv.Close()
		f.sc.Serve(srv)
		url = fmt.Sprintf("bolt://%s?timeout=%d", srv.Addr, timeout)
		f.what = fmt.Sprintf("recorded, with %s after %d bytes of output / %d bytes of input (of %d, %d)", fl.Mode, fl.OutAt, fl.InAt, out, in)
		vh.Last(f.sc.String() + "\n" + f.what)
		activity := srv.Activity
		if fl.Mode == boltfake.Stall {
			activity = nil
		}
		opened := false
		f.second = session(func() bolt.Driver { return bolt.VerifRecorded(name, url) }, url, f.sc, activity)
		broken := false
		for i, c := range f.second {
			if c.Abnorm != "" {
				f.fail("%s %s", c.Desc, c.Abnorm)
			}
			if i == 0 {
				opened = c.Class == script.OK
			}
			if broken {
				if !c.Closing && (c.Class == script.OK || c.Class == script.EOF || c.Class == script.Fail) {
					f.fail("%s returned normally after the connection had broken", c.Desc)
				}
				continue
			}
			if c.Class == script.Bad {
				broken = true
				continue
			}
			if i >= len(f.plain) || f.plain[i].Desc != c.Desc {
				f.fail("%s: the sessions take different courses", c.Desc)
			}
			if d := f.plain[i]; d.Class != c.Class || d.Out != c.Out {
				f.fail("%s returned neither what it returns without the fault nor the bad-connection error", c.Desc)
			}
		}
		srv.Release()
		if !srv.WaitGone(0, 300) {
			f.fail("the connection was not closed")
		}
		if opened {
			if _, err := os.Stat(file); err != nil {
				f.fail("no recording was written: %v", err)
			}
		}
		os.Remove(file)
		vh.Note("C23", f.sc.String()+" | "+f.what, broken, "fault "+fl.Mode, fmt.Sprintf("broken %v", broken))
	})
}

// A request the server stopped reading is given up after the timeout, recorded
// or not.
func TestC23Unread(t *testing.T) {
	os.Setenv("RECORD_OUTPUT", "1")
	if err := os.MkdirAll("recordings", 0o770); err != nil {
		t.Fatal("HARNESS: ", err)
	}
	rapid.Check(t, func(t *rapid.T) {
		inAt := int64(rapid.IntRange(400, 200000).Draw(t, "inat"))
		size := rapid.IntRange(5<<20, 8<<20).Draw(t, "size")
		timeout := rapid.IntRange(5, 40).Draw(t, "timeout")
		query := rapid.Bool().Draw(t, "query")
		desc := fmt.Sprintf("recorded request of %d bytes (query: %v), not read from byte %d until the timeout of %d ms", size, query, inAt, timeout)
		vh.Last(desc)
		srv := boltfake.New(boltfake.Config{Seed: 1, Fault: func(int) *boltfake.Fault {
			return &boltfake.Fault{Mode: boltfake.NoRead, InAt: inAt}
		}})
		defer srv.Close()
		srv.Default(func(string, interface{}) *boltfake.Plan {
			return &boltfake.Plan{RunMeta: map[string]interface{}{"fields": []interface{}{"v"}}, Records: [][]interface{}{{"row"}}}
		})
		name := fmt.Sprintf("rec%d", os.Getpid())
		file := "recordings/" + name + ".json"
		os.Remove(file)
		url := "bolt://" + srv.Addr + "?timeout=3600"
		conn, err := bolt.VerifRecorded(name, url).OpenNeo(url)
		if err != nil {
			t.Fatalf("opening failed: %v", err)
		}
		conn.SetTimeout(time.Duration(timeout) * time.Millisecond)
		p := map[string]interface{}{"big": strings.Repeat("x", size)}
		if o := vh.Guard(srv.Activity, func() {
			if query {
				_, err = conn.QueryNeo("RETURN 1", p)
			} else {
				_, err = conn.ExecNeo("RETURN 1", p)
			}
		}); o.Bad() != "" {
			t.Fatalf("the request %s (%s)", o.Bad(), desc)
		}
		if err == nil || !vh.IsBadConn(err) {
			t.Fatalf("the request returned %s instead of the bad-connection error (%s)", vh.Brief(err), desc)
		}
		srv.Release()
		if o := vh.Guard(srv.Activity, func() { conn.Close() }); o.Bad() != "" {
			t.Fatalf("conn.Close %s (%s)", o.Bad(), desc)
		}
		if !srv.WaitGone(0, 300) {
			t.Fatalf("the socket was not closed (%s)", desc)
		}
		if _, err := os.Stat(file); err != nil {
			t.Fatalf("no recording was written: %v (%s)", err, desc)
		}
		os.Remove(file)
		vh.Note("C23", desc, true, "unread request")
	})
}
