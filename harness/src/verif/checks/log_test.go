package checks

import (
	"bytes"
	"fmt"
	stdlog "log"
	"os"
	"strings"
	"testing"

	"pgregory.net/rapid"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	nlog "github.com/johnnadratowski/golang-neo4j-bolt-driver/log"
	"verif/boltfake"
	"verif/script"
	"verif/vh"
)

// ---- C24: logging ----

type logBufs struct{ e, i, t bytes.Buffer }

// hook replaces the driver's loggers; the returned function puts them back.
func (l *logBufs) hook() func() {
	e, i, tr := nlog.ErrorLog, nlog.InfoLog, nlog.TraceLog
	nlog.ErrorLog, nlog.InfoLog, nlog.TraceLog = stdlog.New(&l.e, "E|", 0), stdlog.New(&l.i, "I|", 0), stdlog.New(&l.t, "T|", 0)
	return func() {
		nlog.SetLevel("none")
		nlog.ErrorLog, nlog.InfoLog, nlog.TraceLog = e, i, tr
	}
}

// genLevel draws a level name and the number of logs it includes.
func genLevel(t *rapid.T) (string, int) {
	switch rapid.IntRange(0, 4).Draw(t, "levelk") {
	case 0: // anything else means none
		s := rapid.SampledFrom([]string{"", "none", "NONE", "off", "warn", "debug", "errors", " error", "trace ", "info\n", "0", "3", "é", "tracé", "inf", "fatal", "all"}).Draw(t, "other")
		return s, 0
	default:
		n := rapid.IntRange(1, 3).Draw(t, "level")
		s := []byte([]string{"", "error", "info", "trace"}[n])
		for i := range s {
			if rapid.Bool().Draw(t, "up") {
				s[i] -= 'a' - 'A'
			}
		}
		return string(s), n
	}
}

func TestC24Levels(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		var l logBufs
		defer l.hook()()
		var want [4]bytes.Buffer
		var trace []string
		level := 0
		nlog.SetLevel("none")
		for n := rapid.IntRange(1, 12).Draw(t, "n"); n > 0; n-- {
			k := rapid.IntRange(0, 8).Draw(t, "what")
			if k == 0 || len(trace) == 0 {
				name, n := genLevel(t)
				level = n
				trace = append(trace, fmt.Sprintf("SetLevel(%q)", name))
				nlog.SetLevel(name)
				if got := int(nlog.GetLevel()); got != int([]nlog.Level{nlog.NoneLevel, nlog.ErrorLevel, nlog.InfoLevel, nlog.TraceLevel}[n]) {
					t.Fatalf("after %v GetLevel is %d", trace, got)
				}
				continue
			}
			which := rapid.IntRange(1, 3).Draw(t, "log")
			if rapid.IntRange(0, 15).Draw(t, "panic") == 0 {
				// panics whatever the level, and logs to none of the loggers
				a := vh.Str(t, "pa", false)
				text := fmt.Sprintln(a, n)
				if k > 4 {
					text = fmt.Sprintf("p %s %d", a, n)
				}
				trace = append(trace, fmt.Sprintf("Panic(%q)", a))
				var out bytes.Buffer
				fl := stdlog.Flags()
				stdlog.SetOutput(&out)
				stdlog.SetFlags(0)
				got := func() (r interface{}) {
					defer func() { r = recover() }()
					if k > 4 {
						nlog.Panicf("p %s %d", a, n)
					} else {
						nlog.Panic(a, n)
					}
					return nil
				}()
				stdlog.SetOutput(os.Stderr)
				stdlog.SetFlags(fl)
				if got == nil || fmt.Sprint(got) != text || strings.TrimSuffix(out.String(), "\n") != strings.TrimSuffix(text, "\n") {
					t.Fatalf("after %v: panicked with %v and logged %q, want %q", trace, got, out.String(), text)
				}
				continue
			}
			a := vh.Str(t, "a", false)
			b := vh.ToDriver(vh.Val(t, &vh.Opt{Budget: 3, Depth: 2, Graph: true}))
			var text string
			if k <= 4 {
				text = fmt.Sprintln(a, b)
				switch which {
				case 1:
					nlog.Error(a, b)
				case 2:
					nlog.Info(a, b)
				case 3:
					nlog.Trace(a, b)
				}
			} else {
				text = fmt.Sprintf("f %s %v %d%%", a, b, k)
				switch which {
				case 1:
					nlog.Errorf("f %s %v %d%%", a, b, k)
				case 2:
					nlog.Infof("f %s %v %d%%", a, b, k)
				case 3:
					nlog.Tracef("f %s %v %d%%", a, b, k)
				}
			}
			trace = append(trace, fmt.Sprintf("%s(%q, %s)", []string{"", "Error", "Info", "Trace"}[which], a, vh.Show(b)))
			if level >= which {
				stdlog.New(&want[which], []string{"", "E|", "I|", "T|"}[which], 0).Print(text)
			}
			for i, got := range []*bytes.Buffer{1: &l.e, 2: &l.i, 3: &l.t} {
				if i > 0 && got.String() != want[i].String() {
					t.Fatalf("after %v the %s log contains %q instead of %q", trace, []string{"", "error", "info", "trace"}[i], got.String(), want[i].String())
				}
			}
		}
		vh.Note("C24", strings.Join(trace, "; "), len(trace) > 1, fmt.Sprintf("level %d", level))
	})
}

func TestC24Sessions(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		f := &faultRun{t: t, sc: script.Gen(t, script.Opt{MaxOps: 5, FailPct: 20, OneKey: true})}
		cfg := boltfake.Config{Seed: rapid.Uint64().Draw(t, "seed"), Noise: rapid.IntRange(0, 2).Draw(t, "noise")}
		var fl *boltfake.Fault
		nlog.SetLevel("none")
		f.dryRun(cfg)
		if rapid.IntRange(0, 2).Draw(t, "lossy") == 0 {
			fl = &boltfake.Fault{Mode: boltfake.FIN, OutAt: f.offset(t, f.ends[1])}
			cfg.Fault = func(int) *boltfake.Fault { return fl }
			f.desc = fmt.Sprintf("connection closed after %d bytes of output", fl.OutAt)
		}
		pool := rapid.Bool().Draw(t, "pool")
		run := func(level string) (calls []script.Call, reqs []boltfake.Req, l *logBufs) {
			l = &logBufs{}
			defer l.hook()()
			nlog.SetLevel(level)
			srv := boltfake.New(cfg)
			defer srv.Close()
			f.sc.Serve(srv)
			vh.Last(f.sc.String() + "\n" + f.desc + "\nlevel " + level)
			r := &script.Runner{Activity: srv.Activity}
			f.r = r
			var conn bolt.Conn
			var p bolt.ClosableDriverPool
			r.Do("open", false, func() (string, bool, int, error) {
				var err error
				if pool {
					if p, err = bolt.NewClosableDriverPool(openURL(srv.Addr), 1); err == nil {
						conn, err = p.OpenPool()
					}
				} else {
					conn, err = bolt.NewDriver().OpenNeo(openURL(srv.Addr))
				}
				return "", true, 0, err
			})
			if r.Calls[0].Class == script.OK {
				f.sc.Run(r, conn, false)
			}
			if p != nil {
				r.Do("pool.Close", true, func() (string, bool, int, error) { return "", true, 0, p.Close() })
			}
			if !r.Stop && !srv.WaitGone(0, 300) {
				f.fail("the socket was not closed at level %q", level)
			}
			return r.Calls, srv.Reqs(), l
		}
		base, reqs, l := run("none")
		if l.e.Len()+l.i.Len()+l.t.Len() > 0 {
			f.fail("something was logged without logging: %q", l.e.String()+l.i.String()+l.t.String())
		}
		f.dry = base
		for n, level := range []string{"error", "info", "trace"} {
			calls, reqs2, l := run(level)
			for i, c := range calls {
				if c.Abnorm != "" {
					f.fail("at level %s %s %s", level, c.Desc, c.Abnorm)
				}
				if i >= len(base) || base[i].Desc != c.Desc || base[i].Class != c.Class || base[i].Out != c.Out {
					// a cut connection may be noticed by a different write
					if fl != nil && i < len(base) && base[i].Class != c.Class && (c.Class == script.Bad || base[i].Class == script.Bad) && c.Class != script.Err && base[i].Class != script.Err {
						break
					}
					f.fail("at level %s %s turned out differently", level, c.Desc)
				}
			}
			if fl == nil {
				if len(calls) != len(base) {
					f.fail("at level %s there are %d calls instead of %d", level, len(calls), len(base))
				}
				if a, b := reqStr(reqs), reqStr(reqs2); a != b {
					f.fail("at level %s the server received\n%s\ninstead of\n%s", level, b, a)
				}
			}
			if n < 1 && l.i.Len() > 0 {
				f.fail("infos were logged at level %s: %q", level, l.i.String())
			}
			if n < 2 && l.t.Len() > 0 {
				f.fail("traces were logged at level %s: %q", level, l.t.String())
			}
			if n >= 1 && l.i.Len() == 0 {
				f.fail("a session logged no infos at level %s", level)
			}
			if n >= 2 && l.t.Len() == 0 {
				f.fail("a session logged no traces at level %s", level)
			}
		}
		cl := "healthy"
		if fl != nil {
			cl = "connection lost"
		}
		vh.Note("C24", f.sc.String()+" | "+f.desc, true, cl)
	})
}

func reqStr(rs []boltfake.Req) string {
	var b strings.Builder
	for _, r := range rs {
		fmt.Fprintf(&b, "%s %s\n", r, vh.Show(r.Params))
	}
	return b.String()
}
