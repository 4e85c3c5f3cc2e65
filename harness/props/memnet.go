package props

import (
	"context"
	"errors"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

// An in-memory network whose blocking is visible to synctest.  Each
// direction of a connection is a bounded buffer of timed segments; faults
// are injected per connection.

type memAddr string

func (a memAddr) Network() string { return "mem" }
func (a memAddr) String() string  { return string(a) }

var errReset = errors.New("mem: connection reset by peer")

type segment struct {
	data []byte
	at   time.Time // when it can be read
}

// memPipe is one direction.
type memPipe struct {
	mu     sync.Mutex
	cond   *sync.Cond
	segs   []segment
	size   int
	limit  int
	eof    bool  // writer closed
	broken error // reset
	stall  bool  // reader sees nothing

	total   int64 // bytes written so far
	cutAt   int64 // reset once that many bytes were written, <0 never
	onCut   func()
	chunk   func() int           // max bytes of one read
	latency func() time.Duration // delay of one segment
	lastAt  time.Time
}

func newMemPipe(limit int) *memPipe {
	p := &memPipe{limit: limit, cutAt: -1}
	p.cond = sync.NewCond(&p.mu)
	return p
}

func (p *memPipe) wake() { p.cond.Broadcast() }

type deadline struct {
	t     time.Time
	timer *time.Timer
}

func (d *deadline) set(p *memPipe, t time.Time) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if d.timer != nil {
		d.timer.Stop()
		d.timer = nil
	}
	d.t = t
	if !t.IsZero() {
		dur := time.Until(t)
		if dur > 0 {
			d.timer = time.AfterFunc(dur, func() {
				p.mu.Lock()
				defer p.mu.Unlock()
				p.wake()
			})
		}
	}
	p.wake()
}

func (d *deadline) expired() bool { return !d.t.IsZero() && !time.Now().Before(d.t) }

// MemConn is a net.Conn of the in-memory network.
type MemConn struct {
	rd, wr     *memPipe
	laddr      memAddr
	raddr      memAddr
	rdl, wdl   deadline
	closed     atomic.Bool
	closeOnce  sync.Once
	Peer       *MemConn
	OnClose    func()
	closeCount atomic.Int32
	net        *MemNet
	yield      int // writes return late: others go on before by that many turns
}

// fail gives an error the shape net's own connections give it.
func (c *MemConn) fail(op string, err error) error {
	if err == nil || err == io.EOF {
		return err
	}
	return &net.OpError{Op: op, Net: "mem", Source: c.laddr, Addr: c.raddr, Err: err}
}

func (c *MemConn) Read(b []byte) (int, error) {
	n, err := c.read(b)
	return n, c.fail("read", err)
}

func (c *MemConn) read(b []byte) (int, error) {
	p := c.rd
	p.mu.Lock()
	defer p.mu.Unlock()
	for {
		if c.closed.Load() {
			return 0, net.ErrClosed
		}
		if c.rdl.expired() {
			return 0, os.ErrDeadlineExceeded
		}
		if p.broken != nil {
			return 0, p.broken
		}
		if len(b) == 0 {
			return 0, nil
		}
		if len(p.segs) > 0 && !p.stall {
			s := &p.segs[0]
			if wait := time.Until(s.at); wait > 0 {
				time.AfterFunc(wait, func() {
					p.mu.Lock()
					defer p.mu.Unlock()
					p.wake()
				})
			} else {
				n := len(s.data)
				if n > len(b) {
					n = len(b)
				}
				if p.chunk != nil {
					if m := p.chunk(); m > 0 && n > m {
						n = m
					}
				}
				copy(b, s.data[:n])
				if n == len(s.data) {
					p.segs = p.segs[1:]
				} else {
					s.data = s.data[n:]
				}
				p.size -= n
				p.wake()
				return n, nil
			}
		} else if p.eof && !p.stall {
			return 0, io.EOF
		}
		p.cond.Wait()
	}
}

func (c *MemConn) Write(b []byte) (int, error) {
	n, err := c.write(b)
	err = c.fail("write", err)
	for k := c.yield; k > 0; k-- {
		runtime.Gosched()
	}
	return n, err
}

func (c *MemConn) write(b []byte) (int, error) {
	p := c.wr
	p.mu.Lock()
	defer p.mu.Unlock()
	done := 0
	for done < len(b) {
		if c.closed.Load() {
			return done, net.ErrClosed
		}
		if c.wdl.expired() {
			return done, os.ErrDeadlineExceeded
		}
		if p.broken != nil {
			return done, p.broken
		}
		room := p.limit - p.size
		if room <= 0 {
			p.cond.Wait()
			continue
		}
		n := len(b) - done
		if n > room {
			n = room
		}
		if p.cutAt >= 0 && p.total+int64(n) >= p.cutAt {
			n = int(p.cutAt - p.total)
		}
		if n > 0 {
			at := time.Now()
			if p.latency != nil {
				at = at.Add(p.latency())
			}
			if at.Before(p.lastAt) {
				at = p.lastAt
			}
			p.lastAt = at
			p.segs = append(p.segs, segment{data: append([]byte(nil), b[done:done+n]...), at: at})
			p.size += n
			p.total += int64(n)
			done += n
			p.wake()
		}
		if p.cutAt >= 0 && p.total >= p.cutAt {
			p.broken = errReset
			p.wake()
			if p.onCut != nil {
				go p.onCut()
			}
			return done, errReset
		}
	}
	return done, nil
}

func (c *MemConn) Close() error {
	c.closeCount.Add(1)
	c.closeOnce.Do(func() {
		c.rd.mu.Lock()
		c.closed.Store(true)
		c.rd.wake()
		c.rd.mu.Unlock()
		// the peer can't write to us any more
		c.rd.mu.Lock()
		if c.rd.broken == nil {
			c.rd.broken = errReset
		}
		c.rd.wake()
		c.rd.mu.Unlock()
		// the peer reads what was written and then EOF
		c.wr.mu.Lock()
		c.wr.eof = true
		c.wr.wake()
		c.wr.mu.Unlock()
		if c.OnClose != nil {
			c.OnClose()
		}
	})
	return nil
}

// Reset breaks both directions at once, unread bytes are lost.
func (c *MemConn) Reset() {
	for _, p := range []*memPipe{c.rd, c.wr} {
		p.mu.Lock()
		if p.broken == nil {
			p.broken = errReset
		}
		p.wake()
		p.mu.Unlock()
	}
}

// StallRead makes c see no more data, as if the network swallowed it.
func (c *MemConn) StallRead(stall bool) {
	if c.net != nil {
		c.net.timed.Store(true)
	}
	c.rd.mu.Lock()
	c.rd.stall = stall
	c.rd.wake()
	c.rd.mu.Unlock()
}

func (c *MemConn) LocalAddr() net.Addr  { return c.laddr }
func (c *MemConn) RemoteAddr() net.Addr { return c.raddr }
func (c *MemConn) SetDeadline(t time.Time) error {
	c.rdl.set(c.rd, t)
	c.wdl.set(c.wr, t)
	return nil
}
func (c *MemConn) SetReadDeadline(t time.Time) error  { c.rdl.set(c.rd, t); return nil }
func (c *MemConn) SetWriteDeadline(t time.Time) error { c.wdl.set(c.wr, t); return nil }

var memConnSeq atomic.Int64

// NewMemPair creates a connected pair: client side, server side.
func NewMemPair(limit int) (*MemConn, *MemConn) {
	up, down := newMemPipe(limit), newMemPipe(limit)
	n := memConnSeq.Add(1)
	ca := memAddr("mem-client:" + itoa(n))
	sa := memAddr("mem-server:1")
	c := &MemConn{rd: down, wr: up, laddr: ca, raddr: sa}
	s := &MemConn{rd: up, wr: down, laddr: sa, raddr: ca}
	c.Peer, s.Peer = s, c
	return c, s
}

func itoa(n int64) string {
	if n == 0 {
		return "0"
	}
	var b [20]byte
	i := len(b)
	for n > 0 {
		i--
		b[i] = byte('0' + n%10)
		n /= 10
	}
	return string(b[i:])
}

// MemListener accepts in-memory connections.
type MemListener struct {
	ch     chan net.Conn
	done   chan struct{}
	once   sync.Once
	name   string
	net    *MemNet
	Refuse atomic.Bool
}

func (l *MemListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}
func (l *MemListener) Close() error {
	l.once.Do(func() { close(l.done) })
	return nil
}
func (l *MemListener) Addr() net.Addr { return memAddr(l.name) }

// MemNet is a named set of listeners with a fault plan for new connections.
type MemNet struct {
	mu     sync.Mutex
	ls     map[string]*MemListener
	Limit  int
	conns  []*MemConn              // client sides
	Plan   func(n int, c *MemConn) // called for each new connection, n counts from 0
	dialed int
	// yields of writes by default
	lateClient, lateServer int

	timed atomic.Bool // some connection needs time to pass
}

func NewMemNet() *MemNet {
	return &MemNet{ls: map[string]*MemListener{}, Limit: 1 << 20}
}

func (m *MemNet) Listen(addr string) *MemListener {
	m.mu.Lock()
	defer m.mu.Unlock()
	l := &MemListener{ch: make(chan net.Conn), done: make(chan struct{}), name: addr, net: m}
	m.ls[addr] = l
	return l
}

func (m *MemNet) Dial(ctx context.Context, addr string) (net.Conn, error) {
	m.mu.Lock()
	l := m.ls[addr]
	plan := m.Plan
	n := m.dialed
	m.dialed++
	m.mu.Unlock()
	if l == nil || l.Refuse.Load() {
		return nil, &net.OpError{Op: "dial", Net: "mem", Err: errors.New("connection refused")}
	}
	c, s := NewMemPair(m.Limit)
	c.yield, s.yield = m.lateClient, m.lateServer
	if plan != nil {
		plan(n, c)
	}
	for _, p := range []*memPipe{c.rd, c.wr} {
		if p.latency != nil || p.stall {
			m.timed.Store(true)
		}
	}
	c.net, s.net = m, m
	m.mu.Lock()
	m.conns = append(m.conns, c)
	m.mu.Unlock()
	established := false
	defer func() {
		if !established {
			c.Close()
			s.Close()
		}
	}()
	select {
	case l.ch <- s:
		established = true
		return c, nil
	case <-l.done:
		return nil, &net.OpError{Op: "dial", Net: "mem", Err: errors.New("connection refused")}
	case <-ctx.Done():
		return nil, &net.OpError{Op: "dial", Net: "mem", Err: ctx.Err()}
	}
}

// Conns returns the client sides of all connections made so far.
func (m *MemNet) Conns() []*MemConn {
	m.mu.Lock()
	defer m.mu.Unlock()
	return append([]*MemConn(nil), m.conns...)
}

// Open counts the connections whose both ends are not closed.
func (m *MemNet) Open() int {
	n := 0
	for _, c := range m.Conns() {
		if !c.closed.Load() || !c.Peer.closed.Load() {
			n++
		}
	}
	return n
}

// OpenSides counts the connections not closed by the client and by the server.
func (m *MemNet) OpenSides() (client, server int) {
	for _, c := range m.Conns() {
		if !c.closed.Load() {
			client++
		}
		if !c.Peer.closed.Load() {
			server++
		}
	}
	return
}

// Jitter gives every connection random latency and fragmentation.
func Jitter(rng *rand.Rand, maxLatency time.Duration, maxChunk int) func(int, *MemConn) {
	var mu sync.Mutex
	rng = rand.New(rand.NewPCG(rng.Uint64(), rng.Uint64())) // the caller goes on with its own
	return func(_ int, c *MemConn) {
		for _, p := range []*memPipe{c.rd, c.wr} {
			if maxLatency > 0 {
				p.latency = func() time.Duration {
					mu.Lock()
					defer mu.Unlock()
					return time.Duration(rng.Int64N(int64(maxLatency)))
				}
			}
			if maxChunk > 0 {
				p.chunk = func() int {
					mu.Lock()
					defer mu.Unlock()
					return 1 + rng.IntN(maxChunk)
				}
			}
		}
	}
}

// LateWrites makes the writes of both ends return late.
func LateWrites(plan func(int, *MemConn), client, server int) func(int, *MemConn) {
	return func(n int, c *MemConn) {
		if plan != nil {
			plan(n, c)
		}
		c.yield, c.Peer.yield = client, server
	}
}

// Listener returns the listener of a name.
func (m *MemNet) Listener(addr string) *MemListener {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.ls[addr]
}
