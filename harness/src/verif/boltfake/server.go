// Package boltfake is a Bolt v1 server on loopback for driving the driver under
// test. It follows the server side of the protocol's state machine, answers
// statements from registered plans, logs every request, flags every request
// that is illegal in its state, varies the representation and fragmentation of
// what it sends and injects transport faults at chosen bytes.
package boltfake

import (
	"crypto/tls"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"verif/refps"
)

// Message signatures.
const (
	SigInit    = 0x01
	SigAck     = 0x0E
	SigReset   = 0x0F
	SigRun     = 0x10
	SigDiscard = 0x2F
	SigPull    = 0x3F
	SigSuccess = 0x70
	SigRecord  = 0x71
	SigIgnored = 0x7E
	SigFailure = 0x7F
)

// Names of the request kinds.
var Names = map[byte]string{SigInit: "INIT", SigAck: "ACK_FAILURE", SigReset: "RESET", SigRun: "RUN", SigDiscard: "DISCARD_ALL", SigPull: "PULL_ALL", SigSuccess: "SUCCESS", SigRecord: "RECORD", SigIgnored: "IGNORED", SigFailure: "FAILURE"}

// Fail describes a failure the server reports for a statement.
type Fail struct {
	At         int // -1: on RUN; k: after k records of PULL_ALL (or on DISCARD_ALL)
	Meta       map[string]interface{}
	AckFails   bool // ACK_FAILURE is answered with FAILURE
	ResetFails bool // RESET is answered with FAILURE too
	// a refused ROLLBACK leaves the transaction open, on connection OnConn
	KeepTx bool
	OnConn int
}

// Plan is what the server answers to a statement.
type Plan struct {
	RunMeta map[string]interface{}
	Records [][]interface{}
	Summary map[string]interface{}
	Fail    *Fail
	// RunRaw, PullRaw replace the response payload (one message) when non-nil
	RunRaw, PullRaw []byte
}

// Req is one logged request.
type Req struct {
	Conn       int
	Kind       byte
	Stmt       string
	Params     interface{}
	Fields     []interface{}
	Chunks     []int
	State      string
	Answer     string // SUCCESS, FAILURE, IGNORED
	Tx         int    // transaction the request ran in (0 = none)
	NonMinimal []string
}

func (r Req) String() string {
	return fmt.Sprintf("#%d %s %q [%s]->%s tx%d", r.Conn, Names[r.Kind], trunc(r.Stmt), r.State, r.Answer, r.Tx)
}

func trunc(s string) string {
	if len(s) > 60 {
		return s[:60] + "..."
	}
	return s
}

// Fault modes.
const (
	FIN    = "fin"    // half-close after OutAt bytes of output
	RST    = "rst"    // reset after OutAt bytes of output
	Stall  = "stall"  // stop sending after OutAt bytes until Release
	Garble = "garble" // xor the byte at OutAt with Xor
	NoRead = "noread" // stop reading after InAt bytes of input until Release
)

// Fault is a transport fault of one connection.
type Fault struct {
	Mode  string
	OutAt int64 // bytes of output before the fault
	InAt  int64 // >0: the fault happens when that many bytes of input arrived (FIN/RST)
	Xor   byte
}

// Config configures a server.
type Config struct {
	TLS        *tls.Config
	Seed       uint64
	Noise      int           // 0: plain; 1: non-minimal + chunk splits; 2: also fragments; 3: also pauses
	Handshake  []byte        // reply to the handshake (default version 1)
	HSFrag     []int         // sizes of the pieces the handshake reply is sent in
	HSClose    bool          // close after the handshake reply
	HSPause    time.Duration // pause before each piece of the handshake reply
	InitFail   map[string]interface{}
	InitRaw    []byte                                // raw payload instead of the INIT answer
	InitClose  bool                                  // close after refusing INIT, as real servers do
	InitHook   func(conn int) map[string]interface{} // non-nil result: INIT failure metadata
	Fault      func(conn int) *Fault
	SwapAt     int // number of the response message (from 1) of every connection replaced by Swap
	Swap       []byte
	AckRaw     []byte // payload answering ACK_FAILURE instead of the normal one
	ResetRaw   []byte
	PauseEvery time.Duration // fixed pause before each fragment (C25)
	FragSize   int           // with PauseEvery: size of the fragments
	MuteAccept bool          // accept but never answer anything
	MaxConns   int           // >0: more simultaneously open connections are reported by Over
	NoAccept   bool          // never accept (connections sit in the backlog)
}

// TxEvent is a transition of a server-side transaction.
type TxEvent struct {
	Conn, Tx int
	What     string // begin, commit, rollback, commit-failed, abandoned, reset
}

// Server is a fake server.
type Server struct {
	Cfg  Config
	ln   net.Listener
	Addr string

	mu       sync.Mutex
	plans    map[string]*Plan
	def      func(stmt string, params interface{}) *Plan
	tx       map[string][]*Fail
	reqs     []Req
	illegal  []string
	txlog    []TxEvent
	conns    []*Conn
	open     int
	maxOpen  int
	over     string
	txSeq    int
	closed   bool
	released chan struct{}
	relOnce  sync.Once
	act      int64
	wg       sync.WaitGroup
	hooks    []func(r Req)
}

// Conn is a server-side connection.
type Conn struct {
	s        *Server
	ID       int
	raw      net.Conn
	c        net.Conn
	kinds    [][2]byte
	reqKind  byte
	served   chan struct{}
	rng      rng
	out      int64
	in       int64
	fault    *Fault
	state    string // READY, STREAMING, FAILED, DEFUNCT
	cur      *Plan
	fail     *Fail
	txID     int
	txFailed bool
	txReset  bool // RESET ended a transaction the client still knows
	done     chan struct{}
	gone     bool // client side closed
	buf      []byte
	HS       []byte
	Init     []interface{}
	TLSState *tls.ConnectionState
	ReqN     int
	inq      chan []byte
	cut      bool
	First    []byte  // first raw bytes received (plain listeners)
	ends     []int64 // end offsets in the output of every message (0: the handshake)
	planned  int64
	ended    chan struct{} // the server ended the connection
	endOnce  sync.Once
}

type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Choose implements refps.Chooser.
func (r *rng) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.next() % uint64(n))
}

// New starts a server.
func New(cfg Config) *Server {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic("boltfake: cannot listen: " + err.Error())
	}
	s := &Server{Cfg: cfg, ln: ln, Addr: ln.Addr().String(), plans: map[string]*Plan{}, tx: map[string][]*Fail{}, released: make(chan struct{})}
	if s.Cfg.Handshake == nil {
		s.Cfg.Handshake = []byte{0, 0, 0, 1}
	}
	if !cfg.NoAccept {
		s.wg.Add(1)
		go s.accept()
	}
	return s
}

// Close stops the server and ends all connections.
func (s *Server) Close() {
	s.mu.Lock()
	s.closed = true
	conns := append([]*Conn(nil), s.conns...)
	s.mu.Unlock()
	s.ln.Close()
	s.Release()
	for _, c := range conns {
		c.kill()
	}
	s.wg.Wait()
}

// StopListening makes later dials fail.
func (s *Server) StopListening() { s.ln.Close() }

// Release lets stalled connections go on.
func (s *Server) Release() { s.relOnce.Do(func() { close(s.released) }) }

// Plan registers the answer to a statement.
func (s *Server) Plan(stmt string, p *Plan) {
	s.mu.Lock()
	s.plans[stmt] = p
	s.mu.Unlock()
}

// Default sets the answer to unregistered statements.
func (s *Server) Default(f func(stmt string, params interface{}) *Plan) { s.def = f }

// TxFail queues the outcome of the next BEGIN/COMMIT/ROLLBACK (nil = success).
func (s *Server) TxFail(kind string, f *Fail) {
	s.mu.Lock()
	s.tx[kind] = append(s.tx[kind], f)
	s.mu.Unlock()
}

// ClearTx drops queued outcomes of BEGIN/COMMIT/ROLLBACK.
func (s *Server) ClearTx() {
	s.mu.Lock()
	s.tx = map[string][]*Fail{}
	s.mu.Unlock()
}

// Activity counts reads and writes.
func (s *Server) Activity() int64 { return atomic.LoadInt64(&s.act) }

// Reqs returns the request log (without INIT unless all).
func (s *Server) Reqs() []Req {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]Req(nil), s.reqs...)
}

// ReqsOf returns the requests of one connection.
func (s *Server) ReqsOf(conn int) []Req {
	var out []Req
	for _, r := range s.Reqs() {
		if r.Conn == conn {
			out = append(out, r)
		}
	}
	return out
}

// Runs returns the RUN requests.
func (s *Server) Runs() []Req {
	var out []Req
	for _, r := range s.Reqs() {
		if r.Kind == SigRun {
			out = append(out, r)
		}
	}
	return out
}

// Illegal returns the protocol violations seen.
func (s *Server) Illegal() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string(nil), s.illegal...)
}

// TxLog returns the transaction events.
func (s *Server) TxLog() []TxEvent {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]TxEvent(nil), s.txlog...)
}

// Open returns the number of connections whose client side is still open.
func (s *Server) Open() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.open
}

// Accepted returns the number of connections accepted so far.
func (s *Server) Accepted() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.conns)
}

// MaxOpen returns the largest number of simultaneously open connections.
func (s *Server) MaxOpen() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.maxOpen
}

// Over reports that there were more than Cfg.MaxConns open connections.
func (s *Server) Over() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.over
}

// KillIdle half-closes connection i and waits until the client's side has
// received that (as far as the kernel tells).
func (s *Server) KillIdle(i int) {
	c := s.Conn(i)
	if c == nil {
		return
	}
	s.Kill(i, false)
	t, ok := c.raw.(*net.TCPConn)
	if !ok {
		return
	}
	rc, err := t.SyscallConn()
	if err != nil {
		return
	}
	known := false
	waitFor(200, func() bool {
		state := byte(0)
		rc.Control(func(fd uintptr) { state = tcpState(fd) })
		if state == 0 {
			return true
		}
		known = true
		return state != 4 && state != 1 // not FIN_WAIT1, not ESTABLISHED
	})
	if !known {
		time.Sleep(30 * time.Millisecond)
	}
}

// Conn returns connection i.
func (s *Server) Conn(i int) *Conn {
	s.mu.Lock()
	defer s.mu.Unlock()
	if i < 0 || i >= len(s.conns) {
		return nil
	}
	return s.conns[i]
}

// Kill ends connection i from the server side.
func (s *Server) Kill(i int, rst bool) {
	c := s.Conn(i)
	if c == nil {
		return
	}
	s.mu.Lock()
	c.cut = true
	s.mu.Unlock()
	if rst {
		c.kill()
	} else {
		c.halfClose()
	}
}

// State returns the protocol state and transaction of connection i.
func (s *Server) State(i int) (state string, tx int, out int64) {
	c := s.Conn(i)
	if c == nil {
		return "", 0, 0
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	return c.state, c.txID, c.out
}

// OutBytes returns the bytes sent on connection i.
func (s *Server) OutBytes(i int) int64 {
	_, _, o := s.State(i)
	return o
}

// InBytes returns the bytes received on connection i.
func (s *Server) InBytes(i int) int64 {
	c := s.Conn(i)
	if c == nil {
		return 0
	}
	return atomic.LoadInt64(&c.in)
}

// Snapshot returns what was seen of the connection's start.
func (s *Server) Snapshot(i int) (hs []byte, init []interface{}, tlsState *tls.ConnectionState, first []byte) {
	c := s.Conn(i)
	if c == nil {
		return
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]byte(nil), c.HS...), c.Init, c.TLSState, append([]byte(nil), c.First...)
}

// WaitGone waits until the client closed connection i, or ticks ran out.
func (s *Server) WaitGone(i, ticks int) bool {
	return waitFor(ticks, func() bool {
		s.mu.Lock()
		defer s.mu.Unlock()
		return i < len(s.conns) && s.conns[i].gone
	})
}

// Gone reports whether connection i was closed by the client.
func (s *Server) Gone(i int) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return i < len(s.conns) && s.conns[i].gone
}

// WaitOpen waits until exactly n connections are open.
func (s *Server) WaitOpen(n, ticks int) bool {
	return waitFor(ticks, func() bool { return s.Open() == n })
}

// WaitAccepted waits until n connections were accepted.
func (s *Server) WaitAccepted(n, ticks int) bool {
	return waitFor(ticks, func() bool { return s.Accepted() >= n })
}

func waitFor(ticks int, f func() bool) bool {
	for i := 0; i < 200; i++ {
		if f() {
			return true
		}
		time.Sleep(100 * time.Microsecond)
	}
	for i := 0; i < ticks; i++ {
		if f() {
			return true
		}
		time.Sleep(20 * time.Millisecond)
	}
	return f()
}

// WaitFor polls f for a number of 20 ms ticks.
func WaitFor(ticks int, f func() bool) bool { return waitFor(ticks, f) }

func (s *Server) accept() {
	defer s.wg.Done()
	for {
		raw, err := s.ln.Accept()
		if err != nil {
			return
		}
		s.mu.Lock()
		if s.closed {
			s.mu.Unlock()
			raw.Close()
			return
		}
		c := &Conn{s: s, ID: len(s.conns), raw: raw, c: raw, state: "CONNECTED", done: make(chan struct{}), ended: make(chan struct{}), served: make(chan struct{}), inq: make(chan []byte, 1<<16), ends: []int64{int64(len(s.Cfg.Handshake))}, planned: int64(len(s.Cfg.Handshake))}
		c.rng.s = s.Cfg.Seed*0x9E3779B97F4A7C15 + uint64(c.ID)*0xD1B54A32D192ED03
		if s.Cfg.Fault != nil {
			c.fault = s.Cfg.Fault(c.ID)
		}
		s.conns = append(s.conns, c)
		s.open++
		if s.open > s.maxOpen {
			s.maxOpen = s.open
		}
		s.mu.Unlock()
		s.wg.Add(1)
		go c.serve()
	}
}

func (c *Conn) kill() {
	c.endOnce.Do(func() { close(c.ended) })
	if t, ok := c.raw.(*net.TCPConn); ok {
		t.SetLinger(0)
	}
	c.raw.Close()
}

func (c *Conn) halfClose() {
	if t, ok := c.raw.(*net.TCPConn); ok {
		t.CloseWrite()
	} else {
		c.raw.Close()
	}
}

func (c *Conn) illegal(f string, a ...interface{}) {
	c.s.illegal = append(c.s.illegal, fmt.Sprintf("conn %d: ", c.ID)+fmt.Sprintf(f, a...))
}

// reader reads all input so that the client never blocks on writing and its
// closing is always noticed.
func (c *Conn) reader() {
	defer c.s.wg.Done()
	defer func() {
		c.s.mu.Lock()
		c.gone = true
		c.s.open--
		if c.txID != 0 {
			c.s.txlog = append(c.s.txlog, TxEvent{c.ID, c.txID, "abandoned"})
			c.txID = 0
		}
		c.s.mu.Unlock()
		close(c.inq)
		close(c.done)
		c.kill()
	}()
	b := make([]byte, 64<<10)
	for {
		n, err := c.c.Read(b)
		if n > 0 {
			tot := atomic.AddInt64(&c.in, int64(n))
			atomic.AddInt64(&c.s.act, 1)
			data := append([]byte(nil), b[:n]...)
			c.s.mu.Lock()
			if len(c.First) < 64 {
				c.First = append(c.First, data...)
			}
			c.s.mu.Unlock()
			if f := c.fault; f != nil && f.Mode != NoRead && f.InAt > 0 && tot >= f.InAt && !c.cut {
				c.s.mu.Lock()
				c.cut = true
				c.s.mu.Unlock()
				data = data[:int64(len(data))-(tot-f.InAt)]
				if f.Mode == RST {
					c.kill()
				} else {
					c.halfClose()
				}
			}
			c.inq <- data
			if f := c.fault; f != nil && f.Mode == NoRead && tot >= f.InAt {
				select {
				case <-c.s.released:
				case <-c.ended:
				}
			}
		}
		if err != nil {
			return
		}
	}
}

func (c *Conn) serve() {
	defer c.s.wg.Done()
	defer close(c.served)
	if m := c.s.Cfg.MaxConns; m > 0 && c.s.Open() > m {
		// the client may have closed another connection just before: wait for that to arrive
		if !waitFor(150, func() bool { return c.s.Open() <= m }) {
			c.s.mu.Lock()
			c.s.over = fmt.Sprintf("%d connections are open at once, the maximum is %d", c.s.open, m)
			c.s.mu.Unlock()
		}
	}
	if c.s.Cfg.TLS != nil {
		tc := tls.Server(c.raw, c.s.Cfg.TLS)
		if err := tc.Handshake(); err != nil {
			c.s.mu.Lock()
			c.gone = true
			c.s.open--
			c.s.mu.Unlock()
			close(c.done)
			c.kill()
			return
		}
		st := tc.ConnectionState()
		c.s.mu.Lock()
		c.TLSState = &st
		c.s.mu.Unlock()
		c.c = tc
	}
	c.s.wg.Add(1)
	go c.reader()
	if c.s.Cfg.MuteAccept {
		for range c.inq {
		}
		return
	}
	hs, ok := c.need(20)
	if !ok {
		for range c.inq {
		}
		return
	}
	c.s.mu.Lock()
	c.HS = hs
	c.s.mu.Unlock()
	if binary.BigEndian.Uint32(hs) != 0x6060B017 {
		// not Bolt: hang up, as servers do
		c.halfClose()
		c.drain()
		return
	}
	if !c.sendHandshake() {
		c.drain()
		return
	}
	if c.s.Cfg.HSClose {
		c.halfClose()
		c.drain()
		return
	}
	for {
		payload, chunks, ok := c.message()
		if !ok {
			c.drain()
			return
		}
		out := c.handle(payload, chunks)
		if !c.send(out) {
			c.drain()
			return
		}
		if c.s.Cfg.InitClose && c.state == "DEFUNCT" {
			c.halfClose()
			c.drain()
			return
		}
	}
}

func (c *Conn) drain() {
	for range c.inq {
	}
}

func (c *Conn) fill() bool {
	d, ok := <-c.inq
	if !ok {
		return false
	}
	c.buf = append(c.buf, d...)
	return true
}

func (c *Conn) need(n int) ([]byte, bool) {
	for len(c.buf) < n {
		if !c.fill() {
			return nil, false
		}
	}
	r := append([]byte(nil), c.buf[:n]...)
	c.buf = c.buf[n:]
	return r, true
}

func (c *Conn) message() (payload []byte, chunks []int, ok bool) {
	for {
		h, ok := c.need(2)
		if !ok {
			return nil, nil, false
		}
		n := int(binary.BigEndian.Uint16(h))
		if n == 0 {
			return payload, chunks, true
		}
		d, ok := c.need(n)
		if !ok {
			return nil, nil, false
		}
		payload = append(payload, d...)
		chunks = append(chunks, n)
	}
}

func (c *Conn) sendHandshake() bool {
	hs := c.s.Cfg.Handshake
	for _, n := range c.s.Cfg.HSFrag {
		if n > len(hs) {
			n = len(hs)
		}
		if n > 0 {
			time.Sleep(c.s.Cfg.HSPause)
			if !c.write(hs[:n]) {
				return false
			}
			hs = hs[n:]
			time.Sleep(300 * time.Microsecond)
		}
	}
	if len(hs) == 0 {
		return true
	}
	time.Sleep(c.s.Cfg.HSPause)
	return c.write(hs)
}

// send writes bytes with the configured fragmentation.
func (c *Conn) send(b []byte) bool {
	cfg := &c.s.Cfg
	if cfg.PauseEvery > 0 {
		for len(b) > 0 {
			n := cfg.FragSize
			if n <= 0 || n > len(b) {
				n = len(b)
			}
			time.Sleep(cfg.PauseEvery)
			if !c.write(b[:n]) {
				return false
			}
			b = b[n:]
		}
		return true
	}
	if cfg.Noise < 2 {
		return len(b) == 0 || c.write(b)
	}
	pauses := 0
	for len(b) > 0 {
		n := len(b)
		switch c.rng.Choose(4) {
		case 0:
			n = 1
		case 1:
			n = 1 + c.rng.Choose(8)
		case 2:
			n = 1 + c.rng.Choose(n)
		}
		if n > len(b) {
			n = len(b)
		}
		if !c.write(b[:n]) {
			return false
		}
		b = b[n:]
		if cfg.Noise >= 3 && pauses < 12 && len(b) > 0 {
			pauses++
			time.Sleep(time.Duration(20+c.rng.Choose(120)) * time.Microsecond)
		}
	}
	return true
}

func (c *Conn) write(b []byte) bool {
	f := c.fault
	if f != nil && f.InAt == 0 && f.Mode != NoRead {
		switch f.Mode {
		case FIN, RST:
			if c.out+int64(len(b)) >= f.OutAt {
				b = b[:f.OutAt-c.out]
				if len(b) > 0 {
					c.rawWrite(b)
				}
				c.s.mu.Lock()
				c.cut = true
				c.s.mu.Unlock()
				if f.Mode == RST {
					c.kill()
				} else {
					c.halfClose()
				}
				return false
			}
		case Stall:
			if c.out <= f.OutAt && c.out+int64(len(b)) > f.OutAt {
				n := f.OutAt - c.out
				if n > 0 && !c.rawWrite(b[:n]) {
					return false
				}
				b = b[n:]
				select {
				case <-c.s.released:
				case <-c.done:
					return false
				}
			}
		case Garble:
			if c.out <= f.OutAt && c.out+int64(len(b)) > f.OutAt {
				b = append([]byte(nil), b...)
				b[f.OutAt-c.out] ^= f.Xor
			}
		}
	}
	return c.rawWrite(b)
}

func (c *Conn) rawWrite(b []byte) bool {
	n, err := c.c.Write(b)
	c.s.mu.Lock()
	c.out += int64(n)
	c.s.mu.Unlock()
	atomic.AddInt64(&c.s.act, 1)
	return err == nil
}

func (c *Conn) frame(dst, payload []byte) []byte {
	var ch refps.Chooser = refps.Minimal{}
	if c.s.Cfg.Noise > 0 {
		ch = &c.rng
	}
	n := len(dst)
	k := [2]byte{c.reqKind}
	if len(payload) > 1 {
		k[1] = payload[1]
	}
	c.kinds = append(c.kinds, k)
	if c.s.Cfg.SwapAt > 0 && c.s.Cfg.SwapAt == len(c.ends) {
		payload = c.s.Cfg.Swap
	}
	dst = refps.Chunk(dst, payload, 0, ch)
	c.planned += int64(len(dst) - n)
	c.ends = append(c.ends, c.planned)
	return dst
}

// Msgs returns the number of messages produced on connection i so far (the
// handshake is not one) and End the output offset at which message number n
// (from 1) ends; End(i, 0) is the end of the handshake.
func (s *Server) Msgs(i int) int {
	c := s.Conn(i)
	if c == nil {
		return 0
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(c.ends) - 1
}

// MsgKind returns the signatures of the request that message n of connection i
// answers, and of the message.
func (s *Server) MsgKind(i, n int) (req, resp byte) {
	c := s.Conn(i)
	if c == nil {
		return 0, 0
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	k := c.kinds[n-1]
	return k[0], k[1]
}

// WaitServed waits until everything connection i received was processed; it
// must have been closed by the client.
func (s *Server) WaitServed(i int) bool {
	return waitFor(300, func() bool {
		c := s.Conn(i)
		if c == nil {
			return false
		}
		select {
		case <-c.served:
			return true
		default:
			return false
		}
	})
}

// End: see Msgs.
func (s *Server) End(i, n int) int64 {
	c := s.Conn(i)
	if c == nil {
		return 0
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	return c.ends[n]
}

// ignored answers a request that is skipped. The specification gives the
// message metadata, real servers send none; both are seen.
func (c *Conn) ignored() []byte {
	switch c.s.Cfg.Seed % 5 {
	case 3:
		return c.msg(nil, SigIgnored, map[string]interface{}{})
	case 4:
		return c.msg(nil, SigIgnored, map[string]interface{}{"code": "ignored", "n": int64(1000)})
	}
	return c.msg(nil, SigIgnored)
}

func (c *Conn) msg(dst []byte, sig byte, fields ...interface{}) []byte {
	var ch refps.Chooser = refps.Minimal{}
	if c.s.Cfg.Noise > 0 {
		// mostly minimal; structure headers of messages stay tiny
		if c.rng.Choose(3) > 0 {
			ch = &c.rng
		}
	}
	p := []byte{0xB0 | byte(len(fields)), sig}
	for _, f := range fields {
		p = refps.Encode(p, f, ch)
	}
	return c.frame(dst, p)
}

func meta(m map[string]interface{}) interface{} {
	if m == nil {
		return map[string]interface{}{}
	}
	return m
}

// handle processes one request and returns the bytes to send.
func (c *Conn) handle(payload []byte, chunks []int) []byte {
	s := c.s
	s.mu.Lock()
	defer s.mu.Unlock()
	v, info, err := refps.Decode(payload)
	st, isS := v.(refps.Struct)
	if err != nil || !isS {
		c.illegal("undecodable request (%v): % x", err, truncB(payload))
		c.state = "DEFUNCT"
		return c.msg(nil, SigFailure, map[string]interface{}{"code": "Fake.Request.Invalid", "message": "undecodable"})
	}
	r := Req{Conn: c.ID, Kind: st.Sig, Fields: st.Fields, Chunks: chunks, State: c.state, NonMinimal: info.NonMinimal, Tx: c.txID}
	c.ReqN++
	c.reqKind = st.Sig
	var out []byte
	switch st.Sig {
	case SigInit:
		out = c.init(&r)
	case SigRun:
		out = c.run(&r)
	case SigPull, SigDiscard:
		out = c.pull(&r)
	case SigAck:
		out = c.ack(&r)
	case SigReset:
		out = c.reset(&r)
	default:
		c.illegal("unknown request signature %x", st.Sig)
		r.Answer = "FAILURE"
		out = c.msg(nil, SigFailure, map[string]interface{}{"code": "Fake.Request.Invalid"})
	}
	s.reqs = append(s.reqs, r)
	return out
}

func truncB(b []byte) []byte {
	if len(b) > 40 {
		return b[:40]
	}
	return b
}

func (c *Conn) expectFields(r *Req, n int) bool {
	if len(r.Fields) != n {
		c.illegal("%s with %d fields", Names[r.Kind], len(r.Fields))
		return false
	}
	return true
}

func (c *Conn) fail_(r *Req, f *Fail) []byte {
	r.Answer = "FAILURE"
	c.state = "FAILED"
	c.fail = f
	if c.txID != 0 {
		c.txFailed = true
	}
	return c.msg(nil, SigFailure, meta(f.Meta))
}

func (c *Conn) init(r *Req) []byte {
	if c.state != "CONNECTED" {
		c.illegal("INIT in state %s", c.state)
	}
	c.expectFields(r, 2)
	c.Init = r.Fields
	if c.s.Cfg.InitRaw != nil {
		r.Answer = "RAW"
		c.state = "DEFUNCT"
		return c.frame(nil, c.s.Cfg.InitRaw)
	}
	fm := c.s.Cfg.InitFail
	if c.s.Cfg.InitHook != nil {
		fm = c.s.Cfg.InitHook(c.ID)
	}
	if fm != nil {
		r.Answer = "FAILURE"
		c.state = "DEFUNCT"
		return c.msg(nil, SigFailure, fm)
	}
	c.state = "READY"
	r.Answer = "SUCCESS"
	return c.msg(nil, SigSuccess, map[string]interface{}{"server": "fake/1.0"})
}

func (c *Conn) run(r *Req) []byte {
	s := c.s
	if c.expectFields(r, 2) {
		str, ok := r.Fields[0].(string)
		if !ok {
			c.illegal("RUN statement is %T", r.Fields[0])
		}
		r.Stmt = str
		r.Params = r.Fields[1]
		if _, ok := r.Params.(map[string]interface{}); !ok {
			c.illegal("RUN parameters are %T", r.Params)
		}
	}
	switch c.state {
	case "READY":
	case "FAILED":
		r.Answer = "IGNORED"
		return c.ignored()
	default:
		c.illegal("RUN %q in state %s", trunc(r.Stmt), c.state)
		return c.fail_(r, &Fail{Meta: map[string]interface{}{"code": "Fake.Request.Illegal"}})
	}
	p := &Plan{}
	switch r.Stmt {
	case "BEGIN", "COMMIT", "ROLLBACK":
		var f *Fail
		if q := s.tx[r.Stmt]; len(q) > 0 {
			f = q[0]
			s.tx[r.Stmt] = q[1:]
		}
		switch r.Stmt {
		case "BEGIN":
			if c.txID != 0 {
				c.illegal("BEGIN inside a transaction")
				return c.fail_(r, &Fail{Meta: map[string]interface{}{"code": "Fake.Transaction.Nested"}})
			}
			if f != nil {
				return c.txFail(r, p, f)
			}
			s.txSeq++
			c.txID = s.txSeq
			c.txFailed = false
			c.txReset = false
			r.Tx = c.txID
			s.txlog = append(s.txlog, TxEvent{c.ID, c.txID, "begin"})
		case "COMMIT":
			if c.txID == 0 {
				if !c.txReset && !c.gone {
					c.illegal("COMMIT outside a transaction")
				}
				c.txReset = false
				return c.fail_(r, &Fail{Meta: map[string]interface{}{"code": "Fake.Transaction.None"}})
			}
			id := c.txID
			if c.txFailed && f == nil {
				f = &Fail{At: -1, Meta: map[string]interface{}{"code": "Fake.Transaction.MarkedFailed"}}
			}
			c.txID = 0
			if f != nil {
				s.txlog = append(s.txlog, TxEvent{c.ID, id, "commit-failed"})
				return c.txFail(r, p, f)
			}
			s.txlog = append(s.txlog, TxEvent{c.ID, id, "commit"})
		case "ROLLBACK":
			if c.txID == 0 {
				if !c.txReset && !c.gone {
					c.illegal("ROLLBACK outside a transaction")
				}
				c.txReset = false
				return c.fail_(r, &Fail{Meta: map[string]interface{}{"code": "Fake.Transaction.None"}})
			}
			if f != nil && f.KeepTx && f.OnConn == c.ID {
				return c.txFail(r, p, f)
			}
			s.txlog = append(s.txlog, TxEvent{c.ID, c.txID, "rollback"})
			c.txID = 0
			if f != nil {
				return c.txFail(r, p, f)
			}
		}
	default:
		q, ok := s.plans[r.Stmt]
		if !ok && s.def != nil {
			q = s.def(r.Stmt, r.Params)
			ok = q != nil
		}
		if !ok {
			c.illegal("RUN of unknown statement %q", r.Stmt)
			q = &Plan{Fail: &Fail{At: -1, Meta: map[string]interface{}{"code": "Fake.Statement.Unknown"}}}
		}
		p = q
	}
	if p.Fail != nil && p.Fail.At < 0 {
		return c.fail_(r, p.Fail)
	}
	c.state = "STREAMING"
	c.cur = p
	r.Answer = "SUCCESS"
	if p.RunRaw != nil {
		r.Answer = "RAW"
		return c.frame(nil, p.RunRaw)
	}
	return c.msg(nil, SigSuccess, meta(p.RunMeta))
}

// txFail: the failure of a BEGIN/COMMIT/ROLLBACK, on RUN or on PULL.
func (c *Conn) txFail(r *Req, p *Plan, f *Fail) []byte {
	if f.At < 0 {
		return c.fail_(r, f)
	}
	c.state = "STREAMING"
	c.cur = &Plan{Fail: &Fail{At: 0, Meta: f.Meta, AckFails: f.AckFails, ResetFails: f.ResetFails}}
	r.Answer = "SUCCESS"
	return c.msg(nil, SigSuccess, meta(nil))
}

func (c *Conn) pull(r *Req) []byte {
	c.expectFields(r, 0)
	switch c.state {
	case "STREAMING":
	case "FAILED":
		r.Answer = "IGNORED"
		return c.ignored()
	default:
		c.illegal("%s in state %s", Names[r.Kind], c.state)
		return c.fail_(r, &Fail{Meta: map[string]interface{}{"code": "Fake.Request.Illegal"}})
	}
	p := c.cur
	c.cur = nil
	if p.PullRaw != nil {
		r.Answer = "RAW"
		c.state = "READY"
		return c.frame(nil, p.PullRaw)
	}
	var out []byte
	if r.Kind == SigPull {
		for i, rec := range p.Records {
			if p.Fail != nil && p.Fail.At == i {
				break
			}
			out = append(out, c.msg(nil, SigRecord, append([]interface{}{}, rec...))...)
		}
	}
	if p.Fail != nil {
		return append(out, c.fail_(r, p.Fail)...)
	}
	c.state = "READY"
	r.Answer = "SUCCESS"
	return append(out, c.msg(nil, SigSuccess, meta(p.Summary))...)
}

func (c *Conn) ack(r *Req) []byte {
	c.expectFields(r, 0)
	if c.state != "FAILED" {
		c.illegal("ACK_FAILURE in state %s", c.state)
	}
	if c.s.Cfg.AckRaw != nil {
		r.Answer = "RAW"
		return c.frame(nil, c.s.Cfg.AckRaw)
	}
	if c.fail != nil && c.fail.AckFails {
		r.Answer = "FAILURE"
		return c.msg(nil, SigFailure, map[string]interface{}{"code": "Fake.Ack.Refused"})
	}
	c.state = "READY"
	c.fail = nil
	r.Answer = "SUCCESS"
	return c.msg(nil, SigSuccess, meta(nil))
}

func (c *Conn) reset(r *Req) []byte {
	c.expectFields(r, 0)
	if c.s.Cfg.ResetRaw != nil {
		r.Answer = "RAW"
		return c.frame(nil, c.s.Cfg.ResetRaw)
	}
	if c.fail != nil && c.fail.ResetFails {
		r.Answer = "FAILURE"
		c.state = "DEFUNCT"
		return c.msg(nil, SigFailure, map[string]interface{}{"code": "Fake.Reset.Refused"})
	}
	if c.txID != 0 {
		c.s.txlog = append(c.s.txlog, TxEvent{c.ID, c.txID, "reset"})
		c.txID = 0
		c.txReset = true
	}
	c.state = "READY"
	c.fail = nil
	c.cur = nil
	r.Answer = "SUCCESS"
	return c.msg(nil, SigSuccess, meta(nil))
}

var _ io.Reader = (net.Conn)(nil)
