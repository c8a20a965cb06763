package checks

import (
	"database/sql"
	"fmt"
	stdlog "log"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/encoding"
	nlog "github.com/johnnadratowski/golang-neo4j-bolt-driver/log"
	"verif/boltfake"
	"verif/refps"
	"verif/script"
	"verif/vh"
)

// ---- C26: concurrent use, run with the race detector ----

type lockedBuf struct {
	mu sync.Mutex
	n  int
}

func (b *lockedBuf) Write(p []byte) (int, error) {
	b.mu.Lock()
	b.n += len(p)
	b.mu.Unlock()
	return len(p), nil
}

func TestC26Race(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		mode := rapid.SampledFrom([]string{"driver", "pool", "pool", "kill", "close", "close", "sql"}).Draw(t, "mode")
		n := rapid.IntRange(2, 8).Draw(t, "workers")
		max := rapid.IntRange(1, 4).Draw(t, "max")
		level := rapid.SampledFrom([]string{"none", "none", "none", "info", "trace"}).Draw(t, "level")
		o := script.Opt{MaxOps: 3, FailPct: 10, NoTxFail: true}
		ws, all := genWorkers(t, n, 3, o)
		srv := boltfake.New(boltfake.Config{Seed: rapid.Uint64().Draw(t, "seed"), Noise: rapid.IntRange(0, 2).Draw(t, "noise")})
		defer srv.Close()
		serveAll(srv, all)
		var sink lockedBuf
		e, i, tr := nlog.ErrorLog, nlog.InfoLog, nlog.TraceLog
		nlog.ErrorLog, nlog.InfoLog, nlog.TraceLog = stdlog.New(&sink, "", 0), stdlog.New(&sink, "", 0), stdlog.New(&sink, "", 0)
		nlog.SetLevel(level)
		defer func() {
			nlog.SetLevel("none")
			nlog.ErrorLog, nlog.InfoLog, nlog.TraceLog = e, i, tr
		}()
		desc := fmt.Sprintf("%s, max %d, %d workers, log level %s", mode, max, n, level)
		for _, w := range ws {
			for _, s := range w.scripts {
				desc += " | " + s.String()
			}
			desc += " ||"
		}
		vh.Last(desc)

		// what the goroutines share: the driver or pool, and values they only read
		sharedRef := vh.Map(t, &vh.Opt{Budget: 6, Depth: 2, Graph: true})
		sharedRef["k"] = int64(999000)
		shared := vh.ToDriver(sharedRef).(map[string]interface{})
		drv := bolt.NewDriver()
		var pool bolt.ClosableDriverPool
		var db *sql.DB
		var err error
		switch mode {
		case "pool", "kill", "close":
			if pool, err = bolt.NewClosableDriverPool(openURL(srv.Addr), max); err != nil {
				t.Fatalf("creating the pool failed: %v", err)
			}
		case "sql":
			if db, err = sql.Open("neo4j-bolt", openURL(srv.Addr)); err != nil {
				t.Fatalf("sql.Open failed: %v", err)
			}
			db.SetMaxOpenConns(max)
		}
		lenient := mode == "close" || mode == "kill"
		closeAfter := rapid.IntRange(0, 4000).Draw(t, "closeafter")
		kills := rapid.SliceOfN(rapid.IntRange(0, 2000), 0, 4).Draw(t, "kills")

		round := func(w *worker, i int, sc *script.Script) string {
			var conn bolt.Conn
			var err error
			if mode == "driver" {
				conn, err = drv.OpenNeo(openURL(srv.Addr))
			} else {
				conn, err = pool.OpenPool()
			}
			if err != nil {
				if lenient {
					return ""
				}
				return fmt.Sprintf("opening failed: %s", vh.Brief(err))
			}
			r := &script.Runner{Raw: true}
			sc.Run(r, conn, true)
			lost := false
			for j, c := range r.Calls {
				if lenient && !lost && (c.Class == script.Bad || c.Class == script.Err) {
					lost = true
				}
				if lost {
					if c.Class == script.Fail || (!c.Closing && (c.Class == script.OK || c.Class == script.EOF)) {
						return fmt.Sprintf("%s after the connection had been lost", c)
					}
					continue
				}
				if d := w.dry[i][j]; c.Desc != d.Desc || c.Class != d.Class || c.Out != d.Out {
					return fmt.Sprintf("%s\nwant %s", c, d)
				}
			}
			// the last operation may have left rows or a transaction open
			if ops := sc.Ops; !lost && len(ops) > 0 && !ops[len(ops)-1].Open {
				rows, _, m, err := conn.QueryNeoAll("RETURN shared", shared)
				if err == nil {
					if len(rows) != 1 || rows[0][0] != int64(999000) || m["own"] != int64(999000) {
						return fmt.Sprintf("the query with shared parameters returned %v %v", rows, m)
					}
				} else if !lenient {
					return fmt.Sprintf("the query with shared parameters failed: %s", vh.Brief(err))
				}
			}
			err = conn.Close()
			last := w.dry[i][len(w.dry[i])-1]
			if !lenient && script.Classify(err) != last.Class {
				return fmt.Sprintf("Close returned %s, want %s", vh.Brief(err), last)
			}
			return ""
		}
		sqlRound := func(sc *script.Script) string {
			k := sc.Base + 900
			arg, err := encoding.Marshal(map[string]interface{}{"k": k})
			if err != nil {
				return err.Error()
			}
			var got, cnt int64
			if err := db.QueryRow("RETURN own", arg).Scan(&got); err != nil || got != k {
				return fmt.Sprintf("QueryRow returned %d, %v instead of %d", got, err, k)
			}
			tx, err := db.Begin()
			if err != nil {
				return "Begin: " + vh.Brief(err)
			}
			res, err := tx.Exec("RETURN own", arg)
			if err != nil {
				return "Exec: " + vh.Brief(err)
			}
			if cnt, err = res.RowsAffected(); err != nil || cnt != k {
				return fmt.Sprintf("RowsAffected is %d, %v instead of %d", cnt, err, k)
			}
			if err := tx.Commit(); err != nil {
				return "Commit: " + vh.Brief(err)
			}
			return ""
		}
		if mode == "sql" {
			srv.Default(func(_ string, params interface{}) *boltfake.Plan {
				k := params.(map[string]interface{})["k"]
				return &boltfake.Plan{RunMeta: map[string]interface{}{"fields": []interface{}{"k"}}, Records: [][]interface{}{{k}},
					Summary: map[string]interface{}{"stats": map[string]interface{}{"nodes-created": k}}}
			})
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		o2 := vh.Guard(srv.Activity, func() {
			for _, w := range ws {
				wg.Add(1)
				go func(w *worker) {
					defer wg.Done()
					defer func() {
						if r := recover(); r != nil {
							w.problem = fmt.Sprintf("panic: %v", r)
						}
					}()
					<-start
					for i, sc := range w.scripts {
						if b, err := encoding.Marshal(shared); err != nil {
							w.problem = fmt.Sprintf("Marshal: %v", err)
						} else if v, err := encoding.Unmarshal(b); err != nil || vh.Same(v, sharedRef) != "" {
							w.problem = fmt.Sprintf("Unmarshal: %v %v", v, err)
						}
						if mode == "sql" {
							w.problem += sqlRound(sc)
						} else {
							w.problem += round(w, i, sc)
						}
						if w.problem != "" {
							w.problem = fmt.Sprintf("round %d (%s): %s", sc.Base/1000, sc, w.problem)
							return
						}
					}
				}(w)
			}
			if mode == "close" {
				for i := 0; i < 2; i++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						<-start
						time.Sleep(time.Duration(closeAfter) * time.Microsecond)
						pool.Close()
					}()
				}
			}
			if mode == "kill" {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					for i, k := range kills {
						time.Sleep(time.Duration(k) * time.Microsecond)
						if a := srv.Accepted(); a > 0 {
							srv.Kill(k%a, i%2 == 0)
						}
					}
				}()
			}
			close(start)
			wg.Wait()
		})
		if o2.Bad() != "" {
			t.Fatalf("the workers did not finish: %s\n(%s)", o2.Bad(), desc)
		}
		for i, w := range ws {
			if w.problem != "" {
				t.Fatalf("worker %d: %s\n(%s)", i, w.problem, desc)
			}
		}
		if !lenient {
			if il := srv.Illegal(); len(il) > 0 {
				t.Fatalf("%v (%s)", il, desc)
			}
		}
		for _, r := range srv.Runs() {
			if r.Stmt == "RETURN shared" {
				if !refps.Equal(r.Params, sharedRef) {
					t.Fatalf("shared parameters reached the server changed: %v, not %v (%s)", r.Params, sharedRef, desc)
				}
			}
		}
		if mode == "kill" {
			// nothing is lost: the whole pool is available again
			var held []bolt.Conn
			for i := 0; i < max; i++ {
				if o := vh.Guard(srv.Activity, func() {
					var c bolt.Conn
					if c, err = pool.OpenPool(); err == nil {
						held = append(held, c)
						_, err = c.ExecNeo("RETURN 1", map[string]interface{}{"k": int64(999001)})
					}
				}); o.Bad() != "" || err != nil {
					t.Fatalf("connection %d of %d is not available any more: %s %s (%s)", i, max, o.Bad(), vh.Brief(err), desc)
				}
			}
			for _, c := range held {
				c.Close()
			}
		}
		if pool != nil {
			pool.Close()
		}
		if db != nil {
			db.Close()
		}
		if !srv.WaitOpen(0, 300) {
			t.Fatalf("%d sockets are left open (%s)", srv.Open(), desc)
		}
		vh.Note("C26", desc, true, mode, "level "+level)
	})
}
