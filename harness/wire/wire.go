// Package wire has in-memory transports whose chunking, delays, short writes
// and faults are chosen by the case.
package wire

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"sync"
	"time"

	"github.com/libp2p/go-libp2p/core/network"
	"verif/harness/sched"
)

// Plan says how a byte pipe behaves in one direction.
type Plan struct {
	// Seed chooses chunk sizes and delays.
	Seed uint64 `json:"seed,omitempty"`
	// Chunk is the largest number of bytes returned by a read (0: any).
	Chunk int `json:"chunk,omitempty"`
	// Delay is the largest delay in microseconds before a read or write.
	Delay int `json:"delay,omitempty"`
	// Short is the largest number of bytes accepted by one write (0: any).
	Short int `json:"short,omitempty"`
	// Cap bounds the bytes in flight (0: unbounded).
	Cap int `json:"cap,omitempty"`
	// EOFWithData returns io.EOF (or the error) together with the last bytes.
	EOFWithData bool `json:"eofdata,omitempty"`
	// Strict makes writes fail once the other end was closed (else: discarded).
	Strict bool `json:"strict,omitempty"`
}

func (p *Plan) pick(k uint64, n int) int {
	if n <= 1 {
		return n
	}
	h := sched.Mix(p.Seed ^ k<<20)
	if h&3 == 0 {
		return n
	}
	return 1 + int((h>>8)%uint64(n))
}

func (p *Plan) sleep(k uint64) { time.Sleep(p.delay(k)) }

func (p *Plan) delay(k uint64) time.Duration {
	if p.Delay <= 0 {
		return 0
	}
	h := sched.Mix(p.Seed ^ k<<20 ^ 0x5555)
	if h&3 == 0 {
		return 0
	}
	return time.Duration((h>>8)%uint64(p.Delay+1)) * time.Microsecond
}

// ErrReset is the error of a reset pipe.
var ErrReset = errors.New("wire: connection reset")

// half is one direction.
type half struct {
	plan    Plan
	mu      sync.Mutex
	ch      chan struct{}
	buf     []byte
	wclosed bool
	werr    error // error after the buffered data instead of EOF
	rclosed bool
	rerr    error // immediate error
	stalled bool
	rk, wk  uint64
	slept   time.Duration // by sleep
	total   int64
	limit   int64 // bytes after which the pipe breaks (-1: never)
	onLimit func()
	rdl     time.Time // read deadline
	rdlT    *time.Timer
}

// budget bounds the delays of one direction.
const budget = 5 * time.Second

func (h *half) sleep(k uint64) {
	d := h.plan.delay(k)
	if d == 0 {
		return
	}
	h.mu.Lock()
	h.slept += d
	over := h.slept > budget
	h.mu.Unlock()
	if !over {
		time.Sleep(d)
	}
}

func (h *half) wake() {
	if h.ch != nil {
		close(h.ch)
		h.ch = nil
	}
}

func (h *half) waitCh() chan struct{} {
	if h.ch == nil {
		h.ch = make(chan struct{})
	}
	return h.ch
}

func (h *half) read(p []byte) (int, error) {
	h.mu.Lock()
	h.rk++
	k := h.rk
	h.mu.Unlock()
	h.sleep(k)
	for {
		h.mu.Lock()
		if h.rerr != nil {
			err := h.rerr
			h.mu.Unlock()
			return 0, err
		}
		if h.rclosed {
			h.mu.Unlock()
			return 0, io.ErrClosedPipe
		}
		if !h.rdl.IsZero() && !time.Now().Before(h.rdl) {
			h.mu.Unlock()
			return 0, os.ErrDeadlineExceeded
		}
		if !h.stalled {
			if len(h.buf) != 0 {
				n := len(p)
				if n > len(h.buf) {
					n = len(h.buf)
				}
				if c := h.plan.Chunk; c > 0 && n > c {
					n = c
				}
				if n > 0 && h.plan.Chunk > 0 {
					n = h.plan.pick(k, n)
				}
				copy(p[:n], h.buf)
				h.buf = h.buf[n:]
				if len(h.buf) == 0 {
					h.buf = nil
				}
				var err error
				if h.plan.EOFWithData && len(h.buf) == 0 && h.wclosed {
					err = h.endErr()
				}
				h.wake()
				h.mu.Unlock()
				return n, err
			}
			if h.wclosed {
				err := h.endErr()
				h.mu.Unlock()
				return 0, err
			}
			if len(p) == 0 {
				h.mu.Unlock()
				return 0, nil
			}
		}
		ch := h.waitCh()
		h.mu.Unlock()
		<-ch
	}
}

func (h *half) endErr() error {
	if h.werr != nil {
		return h.werr
	}
	return io.EOF
}

// write writes p. If short writes are planned it may accept less than all of p
// and return no error.
func (h *half) write(p []byte) (int, error) {
	h.mu.Lock()
	h.wk++
	k := h.wk
	h.mu.Unlock()
	h.sleep(k ^ 1<<40)
	want := len(p)
	if s := h.plan.Short; s > 0 && want > s {
		want = h.plan.pick(k^1<<41, s)
	}
	done := 0
	for {
		h.mu.Lock()
		if h.rerr != nil {
			err := h.rerr
			h.mu.Unlock()
			return done, err
		}
		if h.wclosed {
			h.mu.Unlock()
			return done, io.ErrClosedPipe
		}
		if h.rclosed {
			h.mu.Unlock()
			if h.plan.Strict {
				return done, io.ErrClosedPipe
			}
			return want, nil
		}
		if h.limit >= 0 && h.total+int64(want-done) >= h.limit {
			n := int(h.limit - h.total)
			h.buf = append(h.buf, p[done:done+n]...)
			h.total += int64(n)
			h.limit = -1
			f := h.onLimit
			h.wake()
			h.mu.Unlock()
			if f != nil {
				f()
			}
			return done + n, ErrReset
		}
		if !h.stalled {
			n := want - done
			if h.plan.Cap > 0 {
				n = min(n, h.plan.Cap-len(h.buf))
			}
			if n > 0 {
				h.buf = append(h.buf, p[done:done+n]...)
				h.total += int64(n)
				done += n
				h.wake()
			}
			if done == want {
				h.mu.Unlock()
				return done, nil
			}
		}
		ch := h.waitCh()
		h.mu.Unlock()
		<-ch
	}
}

func (h *half) set(f func()) {
	h.mu.Lock()
	f()
	h.wake()
	h.mu.Unlock()
}

// Conn is one end of a byte pipe. It implements net.Conn and
// network.MuxedStream.
type Conn struct {
	r, w *half

	mu      sync.Mutex
	closed  int // calls of Close
	onClose func()
	peer    *Conn
}

// Pipe returns the two ends of a byte pipe.
func Pipe(ab, ba Plan) (*Conn, *Conn) {
	h1 := &half{plan: ab, limit: -1}
	h2 := &half{plan: ba, limit: -1}
	a := &Conn{r: h2, w: h1}
	b := &Conn{r: h1, w: h2}
	a.peer, b.peer = b, a
	return a, b
}

// Read reads.
func (c *Conn) Read(p []byte) (int, error) { return c.r.read(p) }

// Write writes.
func (c *Conn) Write(p []byte) (int, error) { return c.w.write(p) }

// CloseWrite ends the outgoing direction.
func (c *Conn) CloseWrite() error {
	c.w.set(func() { c.w.wclosed = true })
	return nil
}

// EndWith ends the outgoing direction: the other end reads all data, then err.
func (c *Conn) EndWith(err error) {
	c.w.set(func() { c.w.wclosed, c.w.werr = true, err })
}

// CloseRead ends the incoming direction.
func (c *Conn) CloseRead() error {
	c.r.set(func() { c.r.rclosed = true })
	return nil
}

// Close closes both directions of this end.
func (c *Conn) Close() error {
	c.mu.Lock()
	c.closed++
	f := c.onClose
	c.onClose = nil
	c.mu.Unlock()
	_ = c.CloseWrite()
	_ = c.CloseRead()
	if f != nil {
		f()
	}
	return nil
}

// Closes returns how often Close was called.
func (c *Conn) Closes() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

// Fail fails both directions at both ends at once with err.
func (c *Conn) Fail(err error) {
	c.r.set(func() { c.r.rerr = err })
	c.w.set(func() { c.w.rerr = err })
}

// Reset implements network.MuxedStream.
func (c *Conn) Reset() error {
	c.Fail(ErrReset)
	c.mu.Lock()
	f := c.onClose
	c.onClose = nil
	c.mu.Unlock()
	if f != nil {
		f()
	}
	return nil
}

// Stall blocks or unblocks both directions.
func (c *Conn) Stall(v bool) {
	c.r.set(func() { c.r.stalled = v })
	c.w.set(func() { c.w.stalled = v })
}

// FailAfter makes the pipe fail (as Fail does) once n more bytes were written
// by this end.
func (c *Conn) FailAfter(n int64, err error) {
	c.w.set(func() {
		c.w.limit = c.w.total + n
		c.w.onLimit = func() { c.Fail(err) }
	})
}

// FailAfterSoft makes writing fail once n more bytes were written by this end;
// the other end still reads these bytes, and then err.
func (c *Conn) FailAfterSoft(n int64, err error) {
	c.w.set(func() {
		c.w.limit = c.w.total + n
		c.w.onLimit = func() { c.EndWith(err) }
	})
}

// Written returns the number of bytes accepted from this end.
func (c *Conn) Written() int64 {
	c.w.mu.Lock()
	defer c.w.mu.Unlock()
	return c.w.total
}

// SetDeadline implements net.Conn, for reading.
func (c *Conn) SetDeadline(t time.Time) error { return c.SetReadDeadline(t) }

// SetReadDeadline implements net.Conn.
func (c *Conn) SetReadDeadline(t time.Time) error {
	h := c.r
	h.set(func() {
		h.rdl = t
		if h.rdlT != nil {
			h.rdlT.Stop()
			h.rdlT = nil
		}
		if d := time.Until(t); !t.IsZero() && d > 0 {
			h.rdlT = time.AfterFunc(d, func() { h.set(func() {}) })
		}
	})
	return nil
}

// SetWriteDeadline implements net.Conn.
func (c *Conn) SetWriteDeadline(time.Time) error { return nil }

type addr struct{}

func (addr) Network() string { return "mem" }
func (addr) String() string  { return "mem" }

// LocalAddr implements net.Conn.
func (c *Conn) LocalAddr() net.Addr { return addr{} }

// RemoteAddr implements net.Conn.
func (c *Conn) RemoteAddr() net.Addr { return addr{} }

var (
	_ net.Conn            = (*Conn)(nil)
	_ network.MuxedStream = (*Conn)(nil)
)

// Mux is one end of a multiplexed connection with one byte pipe per stream.
type Mux struct {
	s    *muxState
	side int
}

type muxState struct {
	mu     sync.Mutex
	out    Plan
	in     Plan
	n      uint64
	opened [2]int
	openNo [2]int // streams not closed by the endpoint of that side
	live   map[*Conn]struct{}
	queue  [2][]*Conn
	ch     chan struct{}
	closed bool
	err    error
	openFn func(n int) error
	strmFn func(n int, c *Conn)
	delay  Plan
}

// NewMux returns the two ends of a multiplexed connection. The plans are for
// the bytes from and to the end that opens the stream.
func NewMux(out, in Plan) (*Mux, *Mux) {
	s := &muxState{out: out, in: in, live: map[*Conn]struct{}{}}
	return &Mux{s, 0}, &Mux{s, 1}
}

func (s *muxState) wake() {
	if s.ch != nil {
		close(s.ch)
		s.ch = nil
	}
}

// OnOpen sets a function called with the number of the stream before opening
// it: if it returns an error, OpenStream fails with it.
func (m *Mux) OnOpen(f func(n int) error) { m.s.openFn = f }

// OnStream sets a function called with each new stream (end of the opener).
func (m *Mux) OnStream(f func(n int, c *Conn)) { m.s.strmFn = f }

// OpenStream opens a stream.
func (m *Mux) OpenStream(ctx context.Context) (network.MuxedStream, error) {
	s := m.s
	s.mu.Lock()
	n := int(s.n)
	s.n++
	f := s.openFn
	s.mu.Unlock()
	s.out.sleep(uint64(n) ^ 1<<50)
	if err := ctx.Err(); err != nil {
		return nil, &timeoutError{}
	}
	if f != nil {
		if err := f(n); err != nil {
			return nil, err
		}
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.closed {
		return nil, s.closeErr()
	}
	out, in := s.out, s.in
	out.Seed ^= uint64(n+1) * 0x9e3779b97f4a7c15
	in.Seed ^= uint64(n+1) * 0xc2b2ae3d27d4eb4f
	a, b := Pipe(out, in)
	side := m.side
	s.opened[0]++
	s.opened[1]++
	s.openNo[side]++
	s.openNo[1-side]++
	s.live[a] = struct{}{}
	a.onClose = s.closer(a, side)
	b.onClose = s.closer(b, 1-side)
	if s.strmFn != nil {
		s.strmFn(n, a)
	}
	s.queue[1-side] = append(s.queue[1-side], b)
	s.wake()
	return a, nil
}

func (s *muxState) closer(c *Conn, side int) func() {
	return func() {
		s.mu.Lock()
		s.openNo[side]--
		if s.openNo[0] == 0 && s.openNo[1] == 0 {
			clear(s.live)
		}
		s.mu.Unlock()
	}
}

type timeoutError struct{}

func (*timeoutError) Error() string { return "timeout" }
func (*timeoutError) Timeout() bool { return true }

func (s *muxState) closeErr() error {
	if s.err != nil {
		return s.err
	}
	return io.EOF
}

// AcceptStream accepts a stream.
func (m *Mux) AcceptStream() (network.MuxedStream, error) {
	s := m.s
	for {
		s.mu.Lock()
		if s.closed {
			err := s.closeErr()
			s.mu.Unlock()
			return nil, err
		}
		if q := s.queue[m.side]; len(q) != 0 {
			s.queue[m.side] = q[1:]
			s.mu.Unlock()
			return q[0], nil
		}
		if s.ch == nil {
			s.ch = make(chan struct{})
		}
		ch := s.ch
		s.mu.Unlock()
		<-ch
	}
}

// Cut breaks the connection: all streams fail with err at both ends.
func (m *Mux) Cut(err error) {
	s := m.s
	s.mu.Lock()
	if s.closed {
		s.mu.Unlock()
		return
	}
	s.closed, s.err = true, err
	var cs []*Conn
	for c := range s.live {
		cs = append(cs, c)
	}
	s.wake()
	s.mu.Unlock()
	for _, c := range cs {
		if err == nil {
			c.Fail(io.EOF)
		} else {
			c.Fail(err)
		}
	}
}

// Close closes the connection.
func (m *Mux) Close() error {
	m.Cut(errors.New("wire: connection closed"))
	return nil
}

// IsClosed says if the connection is closed.
func (m *Mux) IsClosed() bool {
	m.s.mu.Lock()
	defer m.s.mu.Unlock()
	return m.s.closed
}

// Opened returns the number of streams opened.
func (m *Mux) Opened() int {
	m.s.mu.Lock()
	defer m.s.mu.Unlock()
	return m.s.opened[m.side]
}

// Open returns the number of streams which this end has not closed.
func (m *Mux) Open() int {
	m.s.mu.Lock()
	defer m.s.mu.Unlock()
	return m.s.openNo[m.side]
}

var _ network.MuxedConn = (*Mux)(nil)

// Listener is a net.Listener of pipes.
type Listener struct {
	ch   chan net.Conn
	done chan struct{}
	once sync.Once
}

// NewListener returns a listener.
func NewListener() *Listener {
	return &Listener{ch: make(chan net.Conn), done: make(chan struct{})}
}

// Dial connects.
func (l *Listener) Dial(out, in Plan) (*Conn, error) {
	a, b := Pipe(out, in)
	select {
	case l.ch <- b:
		return a, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}

// Accept implements net.Listener.
func (l *Listener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}

// Close implements net.Listener.
func (l *Listener) Close() error {
	l.once.Do(func() { close(l.done) })
	return nil
}

// Addr implements net.Listener.
func (l *Listener) Addr() net.Addr { return addr{} }

var _ net.Listener = (*Listener)(nil)
