package checks

import (
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	"verif/vh"
)

// An opening that fails, over TLS or not, at whatever step, leaves no socket
// open. The server's side stays open until the driver hangs up.
func TestC15FailedOpen(t *testing.T) {
	certOnce.Do(mkCerts)
	t.Cleanup(func() { os.RemoveAll(cs.dir) })
	rapid.Check(t, func(t *rapid.T) {
		step := rapid.SampledFrom([]string{"no tls", "tls record", "untrusted", "wrong name", "client cert", "handshake", "init", "ok"}).Draw(t, "step")
		useTLS := step == "no tls" || step == "tls record" || step == "untrusted" || step == "wrong name" || step == "client cert" || rapid.Bool().Draw(t, "tls")
		junk := rapid.SliceOfN(rapid.Byte(), 5, 40).Draw(t, "junk")
		version := rapid.SliceOfN(rapid.Byte(), 4, 4).Draw(t, "version")
		if string(version) == "\x00\x00\x00\x01" {
			version[3]++
		}
		answer := rapid.SampledFrom([]string{"failure", "ignored", "garbage"}).Draw(t, "answer")
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			t.Fatalf("HARNESS: %v", err)
		}
		defer l.Close()
		var act, open, accepted int64
		stop := make(chan struct{})
		defer close(stop)
		cfg := &tls.Config{Certificates: []tls.Certificate{cs.good["both"]}}
		switch step {
		case "untrusted":
			cfg.Certificates = []tls.Certificate{cs.byB["both"]}
		case "wrong name":
			cfg.Certificates = []tls.Certificate{cs.good["wrong"]}
		case "client cert":
			cfg.ClientAuth = tls.RequireAnyClientCert
		}
		go func() {
			for {
				raw, err := l.Accept()
				if err != nil {
					return
				}
				atomic.AddInt64(&accepted, 1)
				atomic.AddInt64(&open, 1)
				go func() {
					defer raw.Close()
					go func() { <-stop; raw.Close() }()
					c := raw
					say := func(b []byte) { c.Write(b); atomic.AddInt64(&act, 1) }
					b := make([]byte, 4096)
					switch step {
					case "no tls":
						raw.Read(b)
						say(append([]byte("HTTP/1.1 400 "), junk...))
						raw.(*net.TCPConn).CloseWrite()
					case "tls record": // possibly the beginning of something longer
						raw.Read(b)
						say(append([]byte{0x16, 3, 3, 0, byte(len(junk))}, junk...))
						raw.(*net.TCPConn).CloseWrite()
					default:
						if useTLS {
							tc := tls.Server(raw, cfg)
							if tc.Handshake() != nil {
								break
							}
							c = tc
						}
						if _, err := io.ReadFull(c, b[:20]); err != nil {
							break
						}
						if step == "handshake" {
							say(version)
							break
						}
						say([]byte{0, 0, 0, 1})
						c.Read(b)
						switch {
						case step == "ok":
							say([]byte{0, 3, 0xB1, 0x70, 0xA0, 0, 0})
						case answer == "failure":
							say([]byte{0, 3, 0xB1, 0x7F, 0xA0, 0, 0})
						case answer == "ignored":
							say([]byte{0, 2, 0xB0, 0x7E, 0, 0})
						default:
							say(append([]byte{0, byte(len(junk) + 1), 0xC4}, append(append([]byte{}, junk...), 0, 0)...))
						}
					}
					// until the driver hangs up
					for {
						if _, err := raw.Read(b); err != nil {
							break
						}
						atomic.AddInt64(&act, 1)
					}
					atomic.AddInt64(&open, -1)
					atomic.AddInt64(&act, 1)
				}()
			}
		}()
		opts := []string{"timeout=3600"}
		if useTLS {
			opts = append(opts, "tls=true", "tls_ca_cert_file="+cs.caA)
		}
		url := "bolt://u:p@" + l.Addr().String() + "?" + strings.Join(opts, "&")
		how := rapid.SampledFrom([]string{"OpenNeo", "Open", "pool", "pool"}).Draw(t, "how")
		desc := fmt.Sprintf("%s through %s, tls %v, %s % x", step, how, useTLS, answer, junk)
		vh.Last(desc)
		tries := rapid.IntRange(1, 3).Draw(t, "tries")
		activity := func() int64 { return atomic.LoadInt64(&act) }
		if b := vh.Guard(activity, func() {
			var p bolt.ClosableDriverPool
			if how == "pool" {
				if p, err = bolt.NewClosableDriverPool(url, 1); err != nil {
					return
				}
			}
			for i := 0; i < tries; i++ {
				var c interface{ Close() error }
				switch how {
				case "OpenNeo":
					c, err = bolt.NewDriver().OpenNeo(url)
				case "Open":
					c, err = bolt.NewDriver().Open(url)
				default:
					c, err = p.OpenPool()
				}
				if err == nil {
					c.Close()
				}
			}
			if p != nil {
				p.Close()
			}
		}).Bad(); b != "" {
			t.Fatalf("opening %s (%s)", b, desc)
		}
		if (err == nil) != (step == "ok") {
			t.Fatalf("opening: %s (%s)", vh.Brief(err), desc)
		}
		for i := 0; atomic.LoadInt64(&open) > 0; i++ {
			if i > 300 {
				t.Fatalf("%d of %d sockets are still open (%s)", atomic.LoadInt64(&open), atomic.LoadInt64(&accepted), desc)
			}
			time.Sleep(20 * time.Millisecond)
		}
		vh.Note("C15", desc, step != "ok", "open: "+step)
	})
}
