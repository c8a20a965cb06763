package checks

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	"verif/boltfake"
	"verif/refps"
	"verif/vh"
)

// credential generates a user or password.
func credential(t *rapid.T, label string) string {
	switch rapid.IntRange(0, 5).Draw(t, label+"kind") {
	case 0:
		return rapid.SampledFrom([]string{"neo4j", "a", "user name", "p@ss:w/rd?#[]", "100%", "+plus+", "é\u4e16", "%41", "a:b", "::", "/", "x\ty"}).Draw(t, label+"fixed")
	case 1:
		return strings.Repeat("longpw", rapid.IntRange(3, 60).Draw(t, label+"n"))
	}
	return rapid.StringOfN(rapid.RuneFrom([]rune("abcXYZ019:/?#[]@!$&'()*+,;=%-._~ \"<>\\^`{|}éλ世")), 1, 24, -1).Draw(t, label)
}

// pct percent-encodes a credential, with a generated choice for what may stay.
func pct(t *rapid.T, s, label string) string {
	r := prng{s: rapid.Uint64().Draw(t, label+"enc")}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		unres := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("-._~", c) >= 0
		sub := strings.IndexByte("!$&'()*+,;=", c) >= 0
		switch {
		case unres && r.Choose(5) > 0, sub && r.Choose(2) == 0:
			b.WriteByte(c)
		case r.Choose(2) == 0:
			fmt.Fprintf(&b, "%%%02x", c)
		default:
			fmt.Fprintf(&b, "%%%02X", c)
		}
	}
	return b.String()
}

func wantAuth(user, pw string) map[string]interface{} {
	if user == "" {
		return map[string]interface{}{"scheme": "none"}
	}
	return map[string]interface{}{"scheme": "basic", "principal": user, "credentials": pw}
}

// checkInit compares the INIT the server saw.
func checkInit(t *rapid.T, desc string, init []interface{}, user, pw string) {
	want := []interface{}{bolt.ClientID, wantAuth(user, pw)}
	if !refps.Equal([]interface{}(init), want) {
		t.Fatalf("%s: the initialisation carries %s, want %s", desc, vh.Show([]interface{}(init)), vh.Show(want))
	}
}

func TestC16Open(t *testing.T) {
	magic := []byte{0x60, 0x60, 0xB0, 0x17}
	rapid.Check(t, func(t *rapid.T) {
		cfg := boltfake.Config{Seed: rapid.Uint64().Draw(t, "seed"), Noise: rapid.IntRange(0, 3).Draw(t, "noise")}
		user, pw, ui := "", "", ""
		if rapid.IntRange(0, 3).Draw(t, "auth") > 0 {
			user, pw = credential(t, "user"), credential(t, "pw")
			if rapid.IntRange(0, 9).Draw(t, "emptypw") == 0 {
				pw = ""
			}
			ui = pct(t, user, "u") + ":" + pct(t, pw, "p") + "@"
		}
		answer := rapid.SampledFrom([]string{"ok", "ok", "ok", "none", "version", "short", "initfail", "initfail", "initraw", "initclose", "mistag"}).Draw(t, "answer")
		desc := answer
		var hs []byte
		switch answer {
		case "none":
			hs = []byte{0, 0, 0, 0}
		case "version":
			hs = []byte(rapid.SliceOfN(rapid.Byte(), 4, 4).Draw(t, "ver"))
			if rapid.Bool().Draw(t, "near") {
				hs = []byte{0, 0, 0, 1}
				hs[rapid.IntRange(0, 3).Draw(t, "pos")] ^= 1 << uint(rapid.IntRange(0, 7).Draw(t, "bit"))
			}
			desc += fmt.Sprintf(" % x", hs)
		case "short":
			hs = []byte{0, 0, 0, 1}[:rapid.IntRange(0, 3).Draw(t, "len")]
			cfg.HSClose = true
			desc += fmt.Sprint(len(hs))
		case "initfail":
			cfg.InitFail = map[string]interface{}{"code": "Neo.ClientError.Security.Unauthorized", "message": vh.Str(t, "msg", false)}
			if rapid.Bool().Draw(t, "more") {
				cfg.InitFail["x"] = vh.Val(t, &vh.Opt{Budget: 4, Depth: 2})
			}
			cfg.InitClose = rapid.Bool().Draw(t, "close")
			desc += fmt.Sprint(" close=", cfg.InitClose)
		case "initraw":
			var w string
			cfg.InitRaw, _, w = rawResponse(t)
			cfg.InitClose = rapid.Bool().Draw(t, "close")
			desc += " " + w
		case "initclose":
			cfg.HSClose = true
		case "mistag":
			// a record: decodable, but no success
			cfg.InitRaw = append([]byte{0xB1, boltfake.SigRecord}, refps.Encode(nil, []interface{}{"x"}, refps.Minimal{})...)
		}
		if hs != nil {
			cfg.Handshake = hs
		}
		if rapid.Bool().Draw(t, "frag") {
			for i := 0; i < 4; i++ {
				cfg.HSFrag = append(cfg.HSFrag, rapid.IntRange(0, 3).Draw(t, "piece"))
			}
		}
		desc += fmt.Sprintf(" user %q pw %q frag %v", user, pw, cfg.HSFrag)
		vh.Last(desc)
		srv := boltfake.New(cfg)
		defer srv.Close()
		srv.Default(func(string, interface{}) *boltfake.Plan {
			return &boltfake.Plan{Summary: map[string]interface{}{"own": int64(1)}}
		})
		how := rapid.SampledFrom([]string{"OpenNeo", "Open", "pool"}).Draw(t, "how")
		desc = how + " " + desc
		u := "bolt://" + ui + srv.Addr + "?timeout=3600"
		var err error
		var conn bolt.Conn
		closeIt := func() {}
		o := vh.Guard(srv.Activity, func() {
			switch how {
			case "OpenNeo":
				conn, err = bolt.NewDriver().OpenNeo(u)
				closeIt = func() { conn.Close() }
			case "Open":
				c, e := bolt.NewDriver().Open(u)
				err = e
				if e == nil {
					conn = c.(bolt.Conn)
					closeIt = func() { conn.Close() }
				}
			case "pool":
				var p bolt.ClosableDriverPool
				p, err = bolt.NewClosableDriverPool(u, 1)
				if err == nil {
					conn, err = p.OpenPool()
				}
				closeIt = func() { conn.Close(); p.Close() }
			}
		})
		if b := o.Bad(); b != "" {
			t.Fatalf("%s: opening %s", desc, b)
		}
		h, init, _, _ := srv.Snapshot(0)
		if len(h) != 20 || !bytes.Equal(h[:4], magic) {
			t.Fatalf("%s: the connection does not start with the Bolt preamble: % x", desc, h)
		}
		offered := false
		anyOffer := false
		pick := srv.Cfg.Handshake
		for i := 4; i < 20; i += 4 {
			if bytes.Equal(h[i:i+4], []byte{0, 0, 0, 1}) {
				anyOffer = true
			}
			if !bytes.Equal(h[i:i+4], []byte{0, 0, 0, 0}) && bytes.Equal(h[i:i+4], pick) {
				offered = true
			}
		}
		if !anyOffer {
			t.Fatalf("%s: version 1 is not offered: % x", desc, h)
		}
		sent := srv.Reqs()
		if err == nil {
			if answer != "ok" {
				t.Fatalf("%s: opening succeeded", desc)
			}
		} else {
			if answer == "ok" {
				t.Fatalf("%s: opening failed: %s", desc, vh.Brief(err))
			}
			if conn != nil && how != "pool" && !isNilConn(conn) {
				t.Fatalf("%s: opening failed and still returned a connection", desc)
			}
		}
		if !offered && len(sent) > 0 {
			t.Fatalf("%s: requests were sent although no offered version was picked: %v", desc, sent)
		}
		if offered && answer != "initclose" {
			if len(sent) == 0 || sent[0].Kind != boltfake.SigInit {
				t.Fatalf("%s: no initialisation was sent: %v", desc, sent)
			}
			checkInit(t, desc, init, user, pw)
		}
		if answer == "initfail" {
			m, ok := vh.Failure(err)
			if !ok {
				t.Fatalf("%s: the refused initialisation is reported as %s", desc, vh.Brief(err))
			}
			if d := vh.SameMap(m, cfg.InitFail); d != "" {
				t.Fatalf("%s: failure metadata differ: %s", desc, d)
			}
		}
		if err == nil {
			// the connection works
			var e2 error
			var r bolt.Result
			if o := vh.Guard(srv.Activity, func() { r, e2 = conn.ExecNeo("RETURN", nil) }); o.Bad() != "" || e2 != nil {
				t.Fatalf("%s: the first query failed: %v %s", desc, e2, o.Bad())
			}
			if d := vh.SameMap(r.Metadata(), map[string]interface{}{"own": int64(1)}); d != "" {
				t.Fatalf("%s: first query: %s", desc, d)
			}
			closeIt()
		}
		if !srv.WaitGone(0, 300) {
			t.Fatalf("%s: the socket was left open", desc)
		}
		n := 0
		for _, r := range srv.Reqs() {
			if r.Kind == boltfake.SigInit {
				n++
			} else if err != nil {
				t.Fatalf("%s: after a refused opening the driver sent %s", desc, r)
			}
		}
		if n > 1 {
			t.Fatalf("%s: %d initialisations were sent", desc, n)
		}
		if il := srv.Illegal(); len(il) > 0 {
			t.Fatalf("%s: %v", desc, il)
		}
		vh.Note("C16", desc, true, answer, how)
	})
}

func isNilConn(c bolt.Conn) bool { return fmt.Sprintf("%v", c) == "<nil>" }

// ---- C17 ----

// What the driver takes for a switched on or off option.
var (
	optOn  = []string{"true", "true", "1", "True", "TRUE", "t", "T", "tRuE"}
	optOff = []string{"false", "0", "", "no", "off", "False", "FALSE", "f", "F"}
)

func TestC17URL(t *testing.T) {
	certOnce.Do(mkCerts)
	t.Cleanup(func() { os.RemoveAll(cs.dir) })
	rapid.Check(t, func(t *rapid.T) {
		scfg := boltfake.Config{Seed: 1}
		useTLS := rapid.IntRange(0, 2).Draw(t, "useTLS") == 0
		if useTLS {
			scfg.TLS = &tls.Config{Certificates: []tls.Certificate{cs.good["both"]}, ClientAuth: tls.RequestClientCert}
		}
		srv := boltfake.New(scfg)
		defer srv.Close()
		other := boltfake.New(boltfake.Config{Seed: 2})
		defer other.Close()
		bad := ""
		scheme := []byte("bolt")
		for i := range scheme {
			if rapid.IntRange(0, 2).Draw(t, "case") == 0 {
				scheme[i] -= 32
			}
		}
		host := srv.Addr
		if rapid.IntRange(0, 3).Draw(t, "name") == 0 {
			host = strings.Replace(host, "127.0.0.1", "localhost", 1)
		}
		user, pw, ui := "", "", ""
		switch rapid.IntRange(0, 5).Draw(t, "auth") {
		case 0:
		case 1:
			ui = ":" + pct(t, credential(t, "pwonly"), "p") + "@"
		default:
			user, pw = credential(t, "user"), credential(t, "pw")
			if rapid.IntRange(0, 5).Draw(t, "emptypw") == 0 {
				pw = ""
			}
			ui = pct(t, user, "u") + ":" + pct(t, pw, "p") + "@"
		}
		var opts []string
		add := func(k, v string) { opts = append(opts, k+"="+url.QueryEscape(v)) }
		if rapid.Bool().Draw(t, "timeout") {
			add("timeout", rapid.SampledFrom([]string{"3600", "60", "007200", "+900", "86400"}).Draw(t, "to"))
		}
		trusted, clientCert := true, false
		if useTLS {
			add("tls", rapid.SampledFrom(optOn).Draw(t, "tlsv"))
			trusted = false
			if rapid.IntRange(0, 2).Draw(t, "ca") > 0 {
				add("tls_ca_cert_file", cs.caA)
				trusted = true
			}
			switch rapid.IntRange(0, 2).Draw(t, "noverify") {
			case 0:
				add("tls_no_verify", rapid.SampledFrom(optOn).Draw(t, "nvv"))
				trusted = true
			case 1:
				add("tls_no_verify", rapid.SampledFrom(optOff).Draw(t, "nvv"))
			}
			if clientCert = rapid.Bool().Draw(t, "client"); clientCert {
				add("tls_cert_file", cs.client)
				add("tls_key_file", cs.clientKey)
			}
		} else if rapid.IntRange(0, 3).Draw(t, "tls") == 0 {
			add("tls", rapid.SampledFrom(optOff).Draw(t, "tlsv"))
		}
		if useTLS {
			if rapid.IntRange(0, 3).Draw(t, "noise") == 0 {
				add(rapid.SampledFrom([]string{"unknown", "Timeout", "TLS", "TLS_NO_VERIFY", "tls_ca_cert_files"}).Draw(t, "nk"), rapid.SampledFrom([]string{"true", "1", "false", "/nonexistent"}).Draw(t, "nv"))
			}
		} else if rapid.IntRange(0, 3).Draw(t, "noise") == 0 {
			add(rapid.SampledFrom([]string{"tls_no_verify", "tls_cert_file", "tls_key_file", "tls_ca_cert_file", "unknown", "Timeout", "TLS"}).Draw(t, "nk"), rapid.SampledFrom([]string{"true", "1", "/nonexistent"}).Draw(t, "nv"))
		}
		path := rapid.SampledFrom([]string{"", "", "/", "/db"}).Draw(t, "path")
		switch k := rapid.IntRange(0, 13).Draw(t, "bad"); k {
		case 0:
			bad = "scheme"
			scheme = []byte(rapid.SampledFrom([]string{"http", "bolt+s", "bol", "bolts", "neo4j", "xbolt", "b"}).Draw(t, "scheme"))
		case 1:
			bad = "no password"
			user = credential(t, "user2")
			ui = pct(t, user, "u2") + "@"
		case 2:
			bad = "timeout"
			opts = append([]string{"timeout=" + url.QueryEscape(rapid.SampledFrom([]string{"abc", "1s", "1.5", "0x10", "10 ", " 10", "1e3", "1_000", "--1", "99999999999999999999"}).Draw(t, "badto"))}, opts...)
		case 3:
			bad = "unparsable"
			switch rapid.IntRange(0, 3).Draw(t, "unp") {
			case 0:
				ui = "us%zzer:pw@"
			case 1:
				host = "127.0.0.1:port"
			case 2:
				path = "/\x01"
			case 3:
				ui = "user:p%4@"
			}
		case 4:
			bad = "scheme"
			// no scheme at all
			scheme = nil
		}
		// options in generated order
		for i := len(opts) - 1; i > 0; i-- {
			j := rapid.IntRange(0, i).Draw(t, "swap")
			if !strings.HasPrefix(opts[i], "timeout") && !strings.HasPrefix(opts[j], "timeout") {
				opts[i], opts[j] = opts[j], opts[i]
			}
		}
		u := string(scheme) + "://" + ui + host + path
		if scheme == nil {
			u = rapid.SampledFrom([]string{"//" + ui + host, ui + host, host, "http:opaque", "", "bolt", "/", "?"}).Draw(t, "noscheme")
		}
		if len(opts) > 0 && u != "" {
			u += "?" + strings.Join(opts, "&")
		}
		vh.Last(u)
		how := rapid.SampledFrom([]string{"OpenNeo", "Open", "pool"}).Draw(t, "how")
		desc := fmt.Sprintf("%s %q", how, u)
		var err error
		var conn bolt.Conn
		o := vh.Guard(srv.Activity, func() {
			switch how {
			case "OpenNeo":
				conn, err = bolt.NewDriver().OpenNeo(u)
			case "Open":
				c, e := bolt.NewDriver().Open(u)
				if err = e; e == nil {
					conn = c.(bolt.Conn)
				}
			case "pool":
				p, e := bolt.NewClosableDriverPool(u, 1)
				if err = e; e == nil {
					conn, err = p.OpenPool()
					defer p.Close()
					if err == nil {
						conn.Close()
					}
				}
			}
			if err == nil && how != "pool" {
				conn.Close()
			}
		})
		if b := o.Bad(); b != "" {
			t.Fatalf("%s %s", desc, b)
		}
		if bad != "" {
			if err == nil {
				t.Fatalf("%s was accepted (%s)", desc, bad)
			}
			if vh.IsBadConn(err) {
				t.Fatalf("%s is reported as a broken connection", desc)
			}
			if srv.Accepted() > 0 {
				t.Fatalf("%s was refused only after connecting", desc)
			}
			vh.Note("C17", desc, true, "bad:"+bad)
			return
		}
		if !trusted {
			if err == nil {
				t.Fatalf("%s was accepted by a server the options give no reason to trust", desc)
			}
			vh.Note("C17", desc, true, "untrusted", how)
			return
		}
		if err != nil {
			t.Fatalf("%s was refused: %s", desc, vh.Brief(err))
		}
		if srv.Accepted() != 1 || other.Accepted() != 0 {
			t.Fatalf("%s: %d connections to its host, %d to another", desc, srv.Accepted(), other.Accepted())
		}
		_, init, st, _ := srv.Snapshot(0)
		checkInit(t, desc, init, user, pw)
		if useTLS {
			if st == nil {
				t.Fatalf("%s: no TLS session", desc)
			}
			if n := len(st.PeerCertificates); clientCert && (n != 1 || !bytes.Equal(st.PeerCertificates[0].Raw, cs.clientDER)) || !clientCert && n != 0 {
				t.Fatalf("%s: %d client certificates or another than the configured one were presented", desc, n)
			}
			vh.Note("C17", desc, true, "good tls", how)
			return
		}
		vh.Note("C17", desc, true, "good", how)
	})
}

// The timeout is the given number of seconds: sessions side by side, with
// servers that answer later than small misreadings of it allow or not at all.
func TestC17Timeout(t *testing.T) {
	type tc struct {
		secs, text, how string
		n               int // seconds, when short
		late            bool
		took            time.Duration
		err             error
		bad             string
	}
	// some of what a factor, a narrower integer type or a digit limit would spoil
	long := []string{"30", "60", "61", "99", "100", "127", "128", "255", "256", "300", "999", "1000", "3600", "32767", "32768", "65535", "65536", "86400", "99999", "1000000", "2147483", "2147484", "4294967", "4294968", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036"}
	rapid.Check(t, func(t *rapid.T) {
		n := rapid.IntRange(1, 16).Draw(t, "parallel")
		var l []*tc
		for i := 0; i < n; i++ {
			c := &tc{how: rapid.SampledFrom([]string{"OpenNeo", "Open", "pool"}).Draw(t, "how")}
			if rapid.IntRange(0, 3).Draw(t, "short") == 0 {
				c.n = rapid.IntRange(1, 3).Draw(t, "n")
				c.secs = fmt.Sprint(c.n)
			} else {
				c.late = true
				c.secs = rapid.SampledFrom(long).Draw(t, "long")
				if rapid.Bool().Draw(t, "any") {
					c.secs = fmt.Sprint(rapid.Int64Range(30, 9223372036).Draw(t, "secs"))
				}
			}
			c.text = rapid.SampledFrom([]string{"", "", "", "+", "0", "000"}).Draw(t, "lead") + c.secs
			l = append(l, c)
		}
		var wg sync.WaitGroup
		for _, c := range l {
			wg.Add(1)
			go func(c *tc) {
				defer wg.Done()
				cfg := boltfake.Config{Seed: 1}
				if c.late {
					cfg.HSPause = 1200 * time.Millisecond
				} else {
					cfg.MuteAccept = true
				}
				srv := boltfake.New(cfg)
				defer srv.Close()
				u := "bolt://u:p@" + srv.Addr + "?timeout=" + url.QueryEscape(c.text)
				start := time.Now()
				done := make(chan struct{})
				go func() {
					defer close(done)
					var conn interface{ Close() error }
					var p bolt.ClosableDriverPool
					switch c.how {
					case "OpenNeo":
						conn, c.err = bolt.NewDriver().OpenNeo(u)
					case "Open":
						conn, c.err = bolt.NewDriver().Open(u)
					case "pool":
						if p, c.err = bolt.NewClosableDriverPool(u, 1); c.err == nil {
							conn, c.err = p.OpenPool()
						}
					}
					c.took = time.Since(start)
					if c.err == nil {
						conn.Close()
					}
					if p != nil {
						p.Close()
					}
				}()
				select {
				case <-done:
					switch {
					case c.late && c.err != nil:
						c.bad = fmt.Sprintf("failed after %v although the server answered: %s", c.took, vh.Brief(c.err))
					case !c.late && c.err == nil:
						c.bad = "succeeded without an answer"
					case !c.late && c.took < time.Duration(c.n)*900*time.Millisecond:
						c.bad = fmt.Sprintf("gave up after %v", c.took)
					}
				case <-time.After(40 * time.Second):
					c.bad = "is still waiting after 40 s"
				}
			}(c)
		}
		wg.Wait()
		for _, c := range l {
			desc := fmt.Sprintf("%s with timeout=%s, late %v", c.how, c.text, c.late)
			if c.bad != "" {
				t.Fatalf("%s %s", desc, c.bad)
			}
			vh.Note("C17", desc, true, fmt.Sprintf("timeout late=%v", c.late))
		}
	})
}

// ---- C18 ----

type certs struct {
	dir                string
	caA, caB           string // files
	good, byB, selfs   map[string]tls.Certificate
	expired, future    map[string]tls.Certificate
	client, client2    string // cert files (client.key, ...)
	clientKey, c2Key   string
	clientDER          []byte
	garbage, missing   string
	emptyPEM, keyAsPEM string
}

var (
	certOnce sync.Once
	cs       certs
)

func mkCerts() {
	dir := os.Getenv("TMPDIR")
	if dir == "" {
		dir = os.TempDir()
	}
	dir, err := os.MkdirTemp(dir, "certs")
	if err != nil {
		panic(err)
	}
	cs.dir = dir
	serial := int64(1)
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	key := func() *ecdsa.PrivateKey {
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		must(err)
		return k
	}
	mk := func(cn string, isCA bool, names []string, from, to time.Time, parent *x509.Certificate, pk *ecdsa.PrivateKey, client bool) (*x509.Certificate, *ecdsa.PrivateKey, []byte) {
		serial++
		k := key()
		tm := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: cn}, NotBefore: from, NotAfter: to, KeyUsage: x509.KeyUsageDigitalSignature, BasicConstraintsValid: true}
		if isCA {
			tm.IsCA = true
			tm.KeyUsage |= x509.KeyUsageCertSign
		} else if client {
			tm.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}
		} else {
			tm.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}
		}
		for _, n := range names {
			if ip := net.ParseIP(n); ip != nil {
				tm.IPAddresses = append(tm.IPAddresses, ip)
			} else {
				tm.DNSNames = append(tm.DNSNames, n)
			}
		}
		if parent == nil {
			parent, pk = tm, k
		}
		der, err := x509.CreateCertificate(rand.Reader, tm, parent, &k.PublicKey, pk)
		must(err)
		c, err := x509.ParseCertificate(der)
		must(err)
		return c, k, der
	}
	write := func(name string, blocks ...*pem.Block) string {
		p := filepath.Join(dir, name)
		var b bytes.Buffer
		for _, x := range blocks {
			pem.Encode(&b, x)
		}
		must(os.WriteFile(p, b.Bytes(), 0o600))
		return p
	}
	keyPEM := func(k *ecdsa.PrivateKey) *pem.Block {
		b, err := x509.MarshalECPrivateKey(k)
		must(err)
		return &pem.Block{Type: "EC PRIVATE KEY", Bytes: b}
	}
	now := time.Now()
	old, soon := now.Add(-48*time.Hour), now.Add(48*time.Hour)
	a, ak, ader := mk("CA A", true, nil, old, soon, nil, nil, false)
	b, bk, bder := mk("CA B", true, nil, old, soon, nil, nil, false)
	cs.caA = write("caA.pem", &pem.Block{Type: "CERTIFICATE", Bytes: ader})
	cs.caB = write("caB.pem", &pem.Block{Type: "CERTIFICATE", Bytes: bder})
	set := func(f func(names []string) tls.Certificate) map[string]tls.Certificate {
		m := map[string]tls.Certificate{}
		for n, names := range map[string][]string{"both": {"127.0.0.1", "localhost"}, "ip": {"127.0.0.1"}, "name": {"localhost"}, "wrong": {"example.com", "10.9.8.7"}} {
			m[n] = f(names)
		}
		return m
	}
	cs.good = set(func(n []string) tls.Certificate {
		_, k, d := mk("server", false, n, old, soon, a, ak, false)
		return tls.Certificate{Certificate: [][]byte{d}, PrivateKey: k}
	})
	cs.byB = set(func(n []string) tls.Certificate {
		_, k, d := mk("server", false, n, old, soon, b, bk, false)
		return tls.Certificate{Certificate: [][]byte{d}, PrivateKey: k}
	})
	cs.selfs = set(func(n []string) tls.Certificate {
		_, k, d := mk("server", false, n, old, soon, nil, nil, false)
		return tls.Certificate{Certificate: [][]byte{d}, PrivateKey: k}
	})
	cs.expired = set(func(n []string) tls.Certificate {
		_, k, d := mk("server", false, n, old, now.Add(-24*time.Hour), a, ak, false)
		return tls.Certificate{Certificate: [][]byte{d}, PrivateKey: k}
	})
	_, ck, cder := mk("client", false, nil, old, soon, a, ak, true)
	cs.client = write("client.pem", &pem.Block{Type: "CERTIFICATE", Bytes: cder})
	cs.clientKey = write("client.key", keyPEM(ck))
	cs.clientDER = cder
	_, ck2, cder2 := mk("client2", false, nil, old, soon, a, ak, true)
	cs.client2 = write("client2.pem", &pem.Block{Type: "CERTIFICATE", Bytes: cder2})
	cs.c2Key = write("client2.key", keyPEM(ck2))
	cs.garbage = filepath.Join(dir, "garbage.pem")
	must(os.WriteFile(cs.garbage, []byte("this is no certificate\n"), 0o600))
	cs.emptyPEM = filepath.Join(dir, "empty.pem")
	must(os.WriteFile(cs.emptyPEM, nil, 0o600))
	cs.keyAsPEM = cs.clientKey
	cs.missing = filepath.Join(dir, "missing.pem")
}

func TestC18TLS(t *testing.T) {
	certOnce.Do(mkCerts)
	t.Cleanup(func() { os.RemoveAll(cs.dir) })
	rapid.Check(t, func(t *rapid.T) {
		kind := rapid.SampledFrom([]string{"A", "A", "A", "A", "B", "self", "expired", "plain"}).Draw(t, "server")
		san := rapid.SampledFrom([]string{"both", "both", "ip", "name", "wrong"}).Draw(t, "san")
		var cfg boltfake.Config
		cfg.Noise = rapid.IntRange(0, 2).Draw(t, "noise")
		cfg.Seed = rapid.Uint64().Draw(t, "seed")
		if kind != "plain" {
			m := map[string]map[string]tls.Certificate{"A": cs.good, "B": cs.byB, "self": cs.selfs, "expired": cs.expired}[kind]
			cfg.TLS = &tls.Config{Certificates: []tls.Certificate{m[san]}, ClientAuth: tls.RequestClientCert}
			if rapid.IntRange(0, 3).Draw(t, "demand") == 0 {
				cfg.TLS.ClientAuth = tls.RequireAnyClientCert
			}
		}
		srv := boltfake.New(cfg)
		defer srv.Close()
		srv.Default(func(string, interface{}) *boltfake.Plan { return &boltfake.Plan{} })
		host, hn := srv.Addr, "ip"
		if rapid.Bool().Draw(t, "byname") {
			host, hn = strings.Replace(host, "127.0.0.1", "localhost", 1), "name"
		}
		var opts []string
		add := func(k, v string) { opts = append(opts, k+"="+url.QueryEscape(v)) }
		useTLS := rapid.IntRange(0, 5).Draw(t, "tls") > 0
		if useTLS {
			add("tls", rapid.SampledFrom(optOn).Draw(t, "tlsv"))
		} else if rapid.Bool().Draw(t, "explicit") {
			add("tls", rapid.SampledFrom(optOff).Draw(t, "tlsv"))
		}
		ca := rapid.SampledFrom([]string{"A", "A", "A", "A", "B", "", "missing", "garbage", "empty", "key"}).Draw(t, "ca")
		caFile := map[string]string{"A": cs.caA, "B": cs.caB, "missing": cs.missing, "garbage": cs.garbage, "empty": cs.emptyPEM, "key": cs.keyAsPEM}[ca]
		if ca != "" {
			add("tls_ca_cert_file", caFile)
		}
		noVerify := rapid.IntRange(0, 3).Draw(t, "noverify") == 0
		if noVerify {
			add("tls_no_verify", rapid.SampledFrom(optOn).Draw(t, "nvv"))
		} else if rapid.Bool().Draw(t, "nvexplicit") {
			add("tls_no_verify", rapid.SampledFrom(optOff).Draw(t, "nvv"))
		}
		cl := rapid.SampledFrom([]string{"", "", "ok", "ok", "nokey", "mismatch", "missingcert", "missingkey", "garbage"}).Draw(t, "client")
		switch cl {
		case "ok":
			add("tls_cert_file", cs.client)
			add("tls_key_file", cs.clientKey)
		case "nokey":
			add("tls_cert_file", cs.client)
		case "mismatch":
			add("tls_cert_file", cs.client)
			add("tls_key_file", cs.c2Key)
		case "missingcert":
			add("tls_cert_file", cs.missing)
			add("tls_key_file", cs.clientKey)
		case "missingkey":
			add("tls_cert_file", cs.client)
			add("tls_key_file", cs.missing)
		case "garbage":
			add("tls_cert_file", cs.garbage)
			add("tls_key_file", cs.garbage)
		}
		for i := len(opts) - 1; i > 0; i-- {
			j := rapid.IntRange(0, i).Draw(t, "swap")
			opts[i], opts[j] = opts[j], opts[i]
		}
		u := "bolt://secretuser:secretpassword@" + host + "?" + strings.Join(append(opts, "timeout=3600"), "&")
		// what has to happen
		want, why := true, ""
		no := func(s string) {
			if want {
				want, why = false, s
			}
		}
		if useTLS {
			switch ca {
			case "missing", "garbage", "empty", "key":
				no("unusable CA file")
			}
			if cl != "" && cl != "ok" {
				no("unusable client certificate")
			}
			files := want
			if files {
				if kind == "plain" {
					no("server without TLS")
				} else {
					if !noVerify {
						if kind == "expired" {
							no("expired certificate")
						}
						if !(kind == ca && ca != "" || kind == "expired" && ca == "A") {
							no("certificate of an unknown authority")
						}
						if san != "both" && san != hn {
							no("certificate for another host")
						}
					}
					if cfg.TLS.ClientAuth == tls.RequireAnyClientCert && cl != "ok" {
						no("server demands a client certificate")
					}
				}
			}
		} else if kind != "plain" {
			no("server wants TLS")
		}
		desc := fmt.Sprintf("server %s for %s, ca %q, client %q, %s", kind, san, ca, cl, strings.Replace(u, cs.dir, "DIR", -1))
		vh.Last(desc)
		how := rapid.SampledFrom([]string{"OpenNeo", "Open", "pool"}).Draw(t, "how")
		var err, e2 error
		o := vh.Guard(srv.Activity, func() {
			var conn bolt.Conn
			switch how {
			case "OpenNeo":
				conn, err = bolt.NewDriver().OpenNeo(u)
			case "Open":
				c, e := bolt.NewDriver().Open(u)
				if err = e; e == nil {
					conn = c.(bolt.Conn)
				}
			case "pool":
				var p bolt.ClosableDriverPool
				if p, err = bolt.NewClosableDriverPool(u, 1); err == nil {
					defer p.Close()
					conn, err = p.OpenPool()
				}
			}
			if err == nil {
				_, e2 = conn.ExecNeo("RETURN", nil)
				conn.Close()
			}
		})
		if b := o.Bad(); b != "" {
			t.Fatalf("%s %s", desc, b)
		}
		if want && (err != nil || e2 != nil) {
			t.Fatalf("%s: refused: %s / %s", desc, vh.Brief(err), vh.Brief(e2))
		}
		if !want && err == nil {
			t.Fatalf("%s: accepted despite %s", desc, why)
		}
		if why == "unusable CA file" || why == "unusable client certificate" {
			if srv.Accepted() > 0 && srv.InBytes(0) > 0 {
				t.Fatalf("%s: data sent despite %s", desc, why)
			}
		}
		if srv.Accepted() > 0 && kind == "plain" {
			srv.WaitGone(0, 300)
			_, _, _, first := srv.Snapshot(0)
			if useTLS && (bytes.HasPrefix(first, []byte{0x60, 0x60}) || bytes.Contains(first, []byte("secret"))) {
				t.Fatalf("%s: sent in the clear: % x", desc, first)
			}
			if !useTLS && !bytes.HasPrefix(first, []byte{0x60, 0x60, 0xB0, 0x17}) {
				t.Fatalf("%s: does not start with the Bolt preamble: % x", desc, first)
			}
		}
		if srv.Accepted() > 0 && kind != "plain" {
			srv.WaitGone(0, 300)
			hs, init, st, _ := srv.Snapshot(0)
			if !want && useTLS && (len(hs) > 0 || init != nil) {
				t.Fatalf("%s: protocol data sent despite %s", desc, why)
			}
			if want {
				if st == nil {
					t.Fatalf("%s: no TLS session", desc)
				}
				if cl == "ok" && (len(st.PeerCertificates) != 1 || !bytes.Equal(st.PeerCertificates[0].Raw, cs.clientDER)) {
					t.Fatalf("%s: the client certificate was not presented", desc)
				}
				if cl == "" && len(st.PeerCertificates) != 0 {
					t.Fatalf("%s: an unconfigured client certificate was presented", desc)
				}
				checkInit(t, desc, init, "secretuser", "secretpassword")
			}
		}
		c := "accepted"
		if !want {
			c = why
		}
		vh.Note("C18", desc, useTLS, c)
	})
}
