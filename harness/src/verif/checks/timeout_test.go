package checks

import (
	"fmt"
	"net"
	"os"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	"verif/boltfake"
	"verif/script"
	"verif/vh"
)

// C25. Time is only judged with generous margins: a call must not return
// earlier than the timeout (timers never fire early), and it has to return
// within a multiple of it. A server that is quick enough must never be timed
// out; as a starved machine can make it look slow, a failure only counts if it
// repeats with larger and larger timeouts and the test's own clock ran freely.

// fullListener returns the address of a listener whose backlog is full, so
// that dialing it gets no answer.
func fullListener() (addr string, done func(), ok bool) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return "", nil, false
	}
	f := os.NewFile(uintptr(fd), "listener")
	if err := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
		f.Close()
		return "", nil, false
	}
	if err := syscall.Listen(fd, 0); err != nil {
		f.Close()
		return "", nil, false
	}
	sa, err := syscall.Getsockname(fd)
	if err != nil {
		f.Close()
		return "", nil, false
	}
	addr = fmt.Sprintf("127.0.0.1:%d", sa.(*syscall.SockaddrInet4).Port)
	var fill []net.Conn
	done = func() {
		for _, c := range fill {
			c.Close()
		}
		f.Close()
	}
	for i := 0; i < 8; i++ {
		c, err := net.DialTimeout("tcp", addr, 150*time.Millisecond)
		if err != nil {
			return addr, done, true
		}
		fill = append(fill, c)
	}
	done()
	return "", nil, false
}

type stallCase struct {
	where   string // dial tls handshake init query set noread
	timeout time.Duration
	sc      *script.Script
	cfg     boltfake.Config
	fl      *boltfake.Fault
	tls     bool
	size    int
	earlier []time.Duration // settings replaced before they matter
	pooled  bool
	uses    int // of the pooled connection before
	desc    string
}

// open opens the connection, which may come from a pool and have been used and
// given back before.
func (c *stallCase) open(url string) (bolt.Conn, error) {
	if !c.pooled {
		return bolt.NewDriver().OpenNeo(url)
	}
	pool, err := bolt.NewDriverPool(url, 1)
	if err != nil {
		return nil, err
	}
	conn, err := pool.OpenPool()
	for i := 0; i < c.uses && err == nil; i++ {
		if err = conn.Close(); err == nil {
			conn, err = pool.OpenPool()
		}
	}
	return conn, err
}

// run returns the time the failing call took, its outcome and a problem.
func (c *stallCase) run(mult int) (took time.Duration, problem string, skip bool) {
	timeout := c.timeout * time.Duration(mult)
	url := func(addr string) string {
		u := "bolt://" + addr
		sep := "?"
		if c.where != "set" && c.where != "noread" && timeout != 60*time.Second {
			u += fmt.Sprintf("%stimeout=%d", sep, int(timeout/time.Second))
			sep = "&"
		} else if c.where == "set" || c.where == "noread" {
			u += sep + "timeout=3600"
			sep = "&"
		}
		if c.tls {
			u += sep + "tls=true&tls_no_verify=1"
		}
		return u
	}
	limit := int(timeout/(50*time.Millisecond))*3 + vh.Ticks
	r := &script.Runner{}
	do := func(desc string, f func() error) *script.Call {
		call := script.Call{Desc: desc}
		t0 := time.Now()
		o := vh.GuardN(nil, limit, func() {
			err := f()
			took = time.Since(t0)
			call.Err = err
		})
		if o.Bad() != "" {
			return &script.Call{Desc: desc, Abnorm: o.Bad(), Class: script.Err}
		}
		call.Class = script.Classify(call.Err)
		return &call
	}
	_ = r
	judge := func(call *script.Call, bad bool) string {
		if call.Abnorm != "" {
			return fmt.Sprintf("%s with timeout %v %s", call.Desc, timeout, call.Abnorm)
		}
		if call.Class == script.OK || call.Class == script.EOF {
			return fmt.Sprintf("%s returned normally without an answer", call.Desc)
		}
		if bad && call.Class != script.Bad {
			return fmt.Sprintf("%s returned %s instead of the bad-connection error", call.Desc, vh.Brief(call.Err))
		}
		if took < timeout {
			return fmt.Sprintf("%s gave up after %v, the timeout is %v: %s", call.Desc, took, timeout, vh.Brief(call.Err))
		}
		return ""
	}
	if c.where == "dial" {
		addr, done, ok := fullListener()
		if !ok {
			return 0, "", true
		}
		defer done()
		call := do("opening (dialing)", func() error {
			cn, err := c.open(url(addr))
			if err == nil {
				cn.Close()
			}
			return err
		})
		return took, judge(call, false), false
	}
	cfg := c.cfg
	switch c.where {
	case "tls", "handshake":
		cfg.MuteAccept = true
		cfg.TLS = nil
	case "init":
		cfg.Fault = func(int) *boltfake.Fault { return &boltfake.Fault{Mode: boltfake.Stall, OutAt: c.fl.OutAt} }
	case "query", "set":
		cfg.Fault = func(int) *boltfake.Fault { return c.fl }
	case "noread":
		cfg.Fault = func(int) *boltfake.Fault { return &boltfake.Fault{Mode: boltfake.NoRead, InAt: c.fl.InAt} }
	}
	srv := boltfake.New(cfg)
	defer srv.Close()
	var conn bolt.Conn
	if c.sc != nil {
		c.sc.Serve(srv)
	}
	call := do("opening", func() error {
		cn, err := c.open(url(srv.Addr))
		conn = cn
		return err
	})
	switch c.where {
	case "tls":
		return took, judge(call, false), false
	case "handshake", "init":
		return took, judge(call, true), false
	}
	if call.Class != script.OK {
		return took, fmt.Sprintf("opening failed: %s%s", vh.Brief(call.Err), call.Abnorm), false
	}
	if c.where != "query" {
		for _, d := range c.earlier {
			conn.SetTimeout(d)
		}
		conn.SetTimeout(timeout)
	}
	if c.where == "noread" {
		big := make([]byte, c.size)
		for i := range big {
			big[i] = 'x'
		}
		call = do("ExecNeo with a large parameter to a server that does not read", func() error {
			_, err := conn.ExecNeo("RETURN", map[string]interface{}{"big": string(big)})
			return err
		})
		problem = judge(call, true)
		srv.Release()
		if call.Abnorm == "" {
			conn.Close()
		}
		return took, problem, false
	}
	var first *script.Call
	rr := &script.Runner{Raw: true, After: func(r *script.Runner, x *script.Call) {
		if x.Class == script.Bad || x.Class == script.Err {
			y := *x
			first = &y
			r.Stop = true
		}
	}}
	t0 := time.Now()
	last := time.Duration(0)
	rr.After = func(r *script.Runner, x *script.Call) {
		now := time.Since(t0)
		if x.Class == script.Bad || x.Class == script.Err {
			y := *x
			first = &y
			took = now - last
			r.Stop = true
		}
		last = now
	}
	o := vh.GuardN(nil, limit, func() { c.sc.Run(rr, conn, true) })
	if o.Bad() != "" {
		return 0, fmt.Sprintf("a call with timeout %v %s", timeout, o.Bad()), false
	}
	if first != nil {
		problem = judge(first, true)
	} else {
		problem = "no call failed although the server stopped answering"
	}
	conn.Close()
	return took, problem, false
}

func genStall(t *rapid.T, i int) *stallCase {
	c := &stallCase{where: rapid.SampledFrom([]string{"dial", "tls", "handshake", "init", "query", "set", "set", "set", "noread"}).Draw(t, "where")}
	c.cfg = boltfake.Config{Seed: rapid.Uint64().Draw(t, "seed"), Noise: rapid.IntRange(0, 2).Draw(t, "noise")}
	c.timeout = time.Second
	if c.pooled = rapid.IntRange(0, 2).Draw(t, "pooled") == 0; c.pooled {
		c.uses = rapid.IntRange(0, 2).Draw(t, "uses")
	}
	switch c.where {
	case "dial":
		c.tls = rapid.Bool().Draw(t, "overtls")
	case "tls":
		c.tls = true
	case "init":
		c.fl = &boltfake.Fault{Mode: boltfake.Stall, OutAt: int64(rapid.IntRange(0, 12).Draw(t, "off"))}
	case "noread":
		c.timeout = time.Duration(rapid.IntRange(20, 200).Draw(t, "ms")) * time.Millisecond
		// the initialisation gets through, the rest stays in the buffers
		c.fl = &boltfake.Fault{InAt: int64(rapid.IntRange(120, 3000).Draw(t, "inat"))}
		c.size = rapid.IntRange(14, 20).Draw(t, "mb") << 20
	case "query", "set":
		if c.where == "set" {
			c.timeout = time.Duration(rapid.IntRange(10, 200).Draw(t, "ms")) * time.Millisecond
			switch rapid.IntRange(0, 7).Draw(t, "range") {
			case 0:
				c.timeout = time.Duration(rapid.IntRange(1001, 2900).Draw(t, "ms")) * time.Millisecond
			case 1:
				c.timeout = time.Duration(rapid.IntRange(500, 200000).Draw(t, "us")) * time.Microsecond
			}
			c.earlier = rapid.SliceOfN(rapid.SampledFrom([]time.Duration{time.Millisecond, time.Second, time.Hour}), 0, 2).Draw(t, "earlier")
		} else if rapid.IntRange(0, 3).Draw(t, "two") == 0 {
			c.timeout = 2 * time.Second
		}
		f := &faultRun{t: t, sc: script.Gen(t, script.Opt{MaxOps: 3, FailPct: 10, NoOpen: true})}
		f.dryRun(c.cfg)
		c.sc = f.sc
		// not within the answer to the initialisation
		c.fl = &boltfake.Fault{Mode: boltfake.Stall, OutAt: f.offset(t, f.ends[1])}
		if c.fl.OutAt >= f.out {
			c.fl.OutAt = f.out - 1
		}
		c.desc = f.sc.String() + fmt.Sprintf(" stall at %d of %d", c.fl.OutAt, f.out)
	}
	c.desc = fmt.Sprintf("%s timeout %v after %v tls %v pooled %v (used %d times before) %s", c.where, c.timeout, c.earlier, c.tls, c.pooled, c.uses, c.desc)
	if c.fl != nil {
		c.desc += fmt.Sprintf(" %+v", *c.fl)
	}
	return c
}

func TestC25Stall(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		n := rapid.IntRange(1, 10).Draw(t, "parallel")
		var cs []*stallCase
		for i := 0; i < n; i++ {
			cs = append(cs, genStall(t, i))
		}
		probs := make([]string, n)
		skips := make([]bool, n)
		var wg sync.WaitGroup
		for i := range cs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				took, p, skip := cs[i].run(1)
				skips[i] = skip
				probs[i] = p
				if p == "" && !skip && took > 3*cs[i].timeout+2*time.Second {
					// slow machine or too long a wait? the excess has to grow with the timeout
					p = fmt.Sprintf("took %v with timeout %v", took, cs[i].timeout)
					for _, m := range []int{2, 3} {
						took, _, _ = cs[i].run(m)
						if took <= 3*cs[i].timeout*time.Duration(m)+2*time.Second {
							p = ""
							break
						}
						p += fmt.Sprintf(", %v with %v", took, cs[i].timeout*time.Duration(m))
					}
					probs[i] = p
				}
			}(i)
		}
		wg.Wait()
		for i, c := range cs {
			if probs[i] != "" {
				t.Fatalf("%s\n(%s)", probs[i], c.desc)
			}
			if skips[i] {
				vh.Note("C25", c.desc, false, "skipped:"+c.where)
			} else {
				vh.Note("C25", c.desc, true, "stall:"+c.where)
			}
		}
	})
}

// Without a setting the timeout is 60 seconds.
func TestC25Default(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		var cs []*stallCase
		for i := 0; i < 12; i++ {
			c := genStall(t, i)
			if c.where == "set" || c.where == "noread" {
				continue
			}
			c.timeout = 60 * time.Second
			cs = append(cs, c)
		}
		probs := make([]string, len(cs))
		var wg sync.WaitGroup
		for i := range cs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				took, p, skip := cs[i].run(1)
				if p == "" && !skip && took > 90*time.Second {
					p = fmt.Sprintf("took %v, the default timeout is 60 s", took)
				}
				probs[i] = p
			}(i)
		}
		wg.Wait()
		for i, c := range cs {
			if probs[i] != "" {
				t.Fatalf("%s\n(%s)", probs[i], c.desc)
			}
			vh.Note("C25", c.desc, true, "default:"+c.where)
		}
	})
}

// jitter measures by how much the test's own wakeups are delayed.
type jitter struct {
	stop chan struct{}
	max  time.Duration
	done chan struct{}
}

func newJitter() *jitter {
	j := &jitter{stop: make(chan struct{}), done: make(chan struct{})}
	go func() {
		defer close(j.done)
		last := time.Now()
		for {
			select {
			case <-j.stop:
				return
			case <-time.After(2 * time.Millisecond):
			}
			now := time.Now()
			if d := now.Sub(last); d > j.max {
				j.max = d
			}
			last = now
		}
	}()
	return j
}

func (j *jitter) end() time.Duration {
	close(j.stop)
	<-j.done
	return j.max
}

func TestC25Patient(t *testing.T) {
	type pc struct {
		sc      *script.Script
		cfg     boltfake.Config
		timeout time.Duration
		pct     int   // length of the server's pauses
		idle    []int // calls before which the user waits longer than the timeout
		dry     *faultRun
		url     bool
		desc    string
	}
	run := func(c *pc, mult int) string {
		timeout := c.timeout * time.Duration(mult)
		cfg := c.cfg
		pause := timeout * time.Duration(c.pct) / 100
		cfg.PauseEvery = pause
		// long enough to exceed the timeout in total, short enough to end
		cfg.FragSize = int(c.dry.out)*c.pct/200 + 1
		u := ""
		if c.url {
			cfg.HSPause = pause
			cfg.HSFrag = []int{1, 1, 1}
			u = fmt.Sprintf("?timeout=%d", int(timeout/time.Second))
		}
		srv := boltfake.New(cfg)
		defer srv.Close()
		c.sc.Serve(srv)
		if !c.url {
			u = "?timeout=3600"
		}
		conn, err := bolt.NewDriver().OpenNeo("bolt://" + srv.Addr + u)
		if err != nil {
			return fmt.Sprintf("opening failed: %s", vh.Brief(err))
		}
		if !c.url {
			conn.SetTimeout(timeout)
		}
		r := &script.Runner{Raw: true}
		r.After = func(r *script.Runner, _ *script.Call) {
			for _, i := range c.idle {
				if i == len(r.Calls) {
					time.Sleep(timeout + timeout/8)
				}
			}
		}
		c.sc.Run(r, conn, false)
		for i, x := range r.Calls {
			if i >= len(c.dry.dry) || x.Class != c.dry.dry[i].Class || x.Out != c.dry.dry[i].Out {
				return fmt.Sprintf("%s failed with %s although the server never paused longer than %v (timeout %v)", x.Desc, vh.Brief(x.Err), pause, timeout)
			}
		}
		return ""
	}
	rapid.Check(t, func(t *rapid.T) {
		n := rapid.IntRange(1, 12).Draw(t, "parallel")
		var cs []*pc
		for i := 0; i < n; i++ {
			c := &pc{cfg: boltfake.Config{Seed: rapid.Uint64().Draw(t, "seed"), Noise: rapid.IntRange(0, 1).Draw(t, "noise")}}
			c.sc = script.Gen(t, script.Opt{MaxOps: 2, FailPct: 10, NoOpen: true, Big: true})
			c.pct = rapid.IntRange(12, 75).Draw(t, "pct")
			c.idle = rapid.SliceOfN(rapid.IntRange(0, 8), 0, 2).Draw(t, "idle")
			c.timeout = time.Duration(rapid.IntRange(150, 400).Draw(t, "ms")) * time.Millisecond
			if rapid.IntRange(0, 4).Draw(t, "url") == 0 {
				c.url, c.timeout = true, time.Second
			}
			c.dry = &faultRun{t: t, sc: c.sc}
			c.dry.dryRun(c.cfg)
			c.desc = fmt.Sprintf("%s pauses %d%% of %v (url %v) idle before %v", c.sc, c.pct, c.timeout, c.url, c.idle)
			cs = append(cs, c)
		}
		probs := make([]string, n)
		void := make([]bool, n)
		var wg sync.WaitGroup
		for i := range cs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				for _, m := range []int{1, 2, 4} {
					j := newJitter()
					p := run(cs[i], m)
					max := j.end()
					probs[i] = p
					if p == "" {
						return
					}
					if max > cs[i].timeout*time.Duration(m)*time.Duration(100-cs[i].pct)/300 {
						void[i] = true // starved: says nothing
					} else {
						void[i] = false
					}
				}
			}(i)
		}
		wg.Wait()
		for i, c := range cs {
			if probs[i] != "" && !void[i] {
				t.Fatalf("%s\n(%s)", probs[i], c.desc)
			}
			vh.Note("C25", c.desc, !void[i] && probs[i] == "", "patient")
		}
	})
}
