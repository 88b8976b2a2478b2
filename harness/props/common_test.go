package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"
	"unsafe"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/libp2p/go-libp2p/core/network"
	"github.com/libp2p/go-yamux/v4"
	"github.com/sirupsen/logrus"
	"pgregory.net/rapid"
	"verif/harness/sched"
	"verif/harness/vt"
	"verif/harness/wire"
)

func TestMain(m *testing.M) {
	logrus.SetLevel(logrus.PanicLevel)
	os.Exit(m.Run())
}

// Msg describes the content of a message.
type Msg struct {
	// L is the literal content, if N is zero.
	L []byte `json:"l,omitempty"`
	// N is the size of a generated content.
	N int `json:"n,omitempty"`
	// S is the seed of a generated content.
	S uint64 `json:"s,omitempty"`
}

// Bytes returns the content.
func (m Msg) Bytes() []byte {
	if m.N == 0 {
		return bytes.Clone(m.L)
	}
	out := make([]byte, m.N)
	x := m.S
	for i := 0; i < len(out); i += 8 {
		x = sched.Mix(x)
		for j := 0; j < 8 && i+j < len(out); j++ {
			out[i+j] = byte(x >> (8 * j))
		}
	}
	return out
}

// Len returns the size.
func (m Msg) Len() int {
	if m.N == 0 {
		return len(m.L)
	}
	return m.N
}

// genMsg draws a message. big allows sizes over 8 KiB.
func genMsg(t *rapid.T, big bool, label string) Msg {
	c := rapid.IntRange(0, 99).Draw(t, label+"Class")
	switch {
	case c < 15:
		return Msg{}
	case c < 60:
		return Msg{L: rapid.SliceOfN(rapid.Byte(), 1, 12).Draw(t, label+"Lit")}
	case c < 72:
		return Msg{N: rapid.IntRange(13, 300).Draw(t, label+"N"), S: rapid.Uint64Range(1, 1000).Draw(t, label+"S")}
	case c < 82:
		return Msg{N: rapid.IntRange(2030, 2060).Draw(t, label+"N"), S: rapid.Uint64Range(1, 1000).Draw(t, label+"S")}
	case c < 92 || !big:
		return Msg{N: rapid.IntRange(300, 8200).Draw(t, label+"N"), S: rapid.Uint64Range(1, 1000).Draw(t, label+"S")}
	case c < 98:
		return Msg{N: rapid.IntRange(8193, 70000).Draw(t, label+"N"), S: rapid.Uint64Range(1, 1000).Draw(t, label+"S")}
	default:
		return Msg{N: rapid.IntRange(70000, 600000).Draw(t, label+"N"), S: rapid.Uint64Range(1, 1000).Draw(t, label+"S")}
	}
}

// TCfg describes a transport and the schedule.
type TCfg struct {
	Kind  string       `json:"kind"`
	Out   wire.Plan    `json:"out"`
	In    wire.Plan    `json:"in"`
	Sched sched.Config `json:"sched"`
	Swap  bool         `json:"swap,omitempty"` // the client's end of the connection is the inbound one
}

func pick[T any](t *rapid.T, label string, vs ...T) T {
	return vs[rapid.IntRange(0, len(vs)-1).Draw(t, label)]
}

// rare is true about once in den times. (Small integers are drawn more often.)
func rare(t *rapid.T, label string, den int) bool {
	return rapid.IntRange(0, den-1).Draw(t, label) == den*5/8
}

func genPlan(t *rapid.T, maxMsg int, label string) wire.Plan {
	p := wire.Plan{
		Seed:  rapid.Uint64Range(0, 1<<20).Draw(t, label+"Seed"),
		Chunk: pick(t, label+"Chunk", 0, 0, 0, 1, 3, 7, 100, 1000, 4096),
		Delay: pick(t, label+"Delay", 0, 0, 20, 300, 4000),
	}
	if p.Chunk > 0 {
		p.Chunk = max(p.Chunk, maxMsg/64)
	}
	return p
}

func genSched(t *rapid.T) sched.Config {
	c := sched.Config{Prob: pick(t, "schedProb", 0, 10, 60, 200, 500)}
	if c.Prob > 0 {
		c.Max = pick(t, "schedMax", 5, 100, 2000)
		c.Seed = rapid.Uint64Range(0, 1<<30).Draw(t, "schedSeed")
	}
	return c
}

var allKinds = []string{"fake", "fake", "fake", "fake", "yamux", "yamux", "yamux", "pipe", "rwc"}

// connKinds have one of which nothing but the client is seen.
var connKinds = append([]string{"conn"}, allKinds...)

func genTCfg(t *rapid.T, maxMsg int, kinds ...string) TCfg {
	if len(kinds) == 0 {
		kinds = allKinds
	}
	c := TCfg{
		Kind:  pick(t, "kind", kinds...),
		Out:   genPlan(t, maxMsg, "out"),
		In:    genPlan(t, maxMsg, "in"),
		Sched: genSched(t),
	}
	if c.Kind == "fake" || c.Kind == "rwc" {
		if rapid.IntRange(0, 4).Draw(t, "short") == 0 {
			c.Out.Short = max(pick(t, "outShort", 1, 5, 50, 1000), maxMsg/64)
			c.In.Short = max(pick(t, "inShort", 1, 5, 50, 1000), maxMsg/64)
		}
	}
	if c.Kind == "yamux" || c.Kind == "rwc" || c.Kind == "conn" {
		c.Swap = pick(t, "swap", false, false, false, true)
	}
	if c.Kind == "fake" {
		c.Out.EOFWithData = rapid.Bool().Draw(t, "eofData")
		c.In.EOFWithData = c.Out.EOFWithData
		c.Out.Strict = rapid.Bool().Draw(t, "strict")
		c.In.Strict = c.Out.Strict
	}
	return c
}

// World is a client connected to a server.
type World struct {
	Cfg    TCfg
	Client srpc.Client
	Open   srpc.OpenStreamFunc
	Server *srpc.Server
	// SrvCtx is the server context.
	SrvCtx *vt.Ctx
	// Accepted is closed when the accept loop of the server returned.
	Accepted  chan struct{}
	AcceptErr error

	cmux, smux network.MuxedConn
	fakeC      *wire.Mux
	cutFn      func(error)
	link       *wire.Conn
	closers    []func()
}

// NewWorld builds a world. Must be called in a bubble.
func NewWorld(cfg TCfg, inv srpc.Invoker) (*World, error) {
	w := &World{Cfg: cfg, Server: srpc.NewServer(inv), SrvCtx: vt.NewCtx(), Accepted: make(chan struct{})}
	switch cfg.Kind {
	case "pipe":
		w.Open = srpc.NewServerPipe(w.Server)
		w.Client = srpc.NewClient(w.Open)
		close(w.Accepted)
		return w, nil
	case "fake":
		a, b := wire.NewMux(cfg.Out, cfg.In)
		w.cmux, w.smux, w.fakeC = a, b, a
		w.cutFn = a.Cut
	case "yamux", "rwc", "conn":
		a, b := wire.Pipe(cfg.Out, cfg.In)
		w.link = a
		w.cutFn = func(err error) {
			if err == nil {
				err = io.EOF
			}
			a.Fail(err)
		}
		var err error
		switch cfg.Kind {
		case "yamux", "conn":
			if w.smux, err = srpc.NewMuxedConn(b, cfg.Swap, nil); err != nil {
				return nil, vt.Infra(err)
			}
			if cfg.Kind == "conn" {
				// the library keeps the client's end to itself.
				if w.Client, err = srpc.NewClientWithConn(a, !cfg.Swap, nil); err != nil {
					return nil, vt.Infra(err)
				}
				break
			}
			if w.cmux, err = srpc.NewMuxedConn(a, !cfg.Swap, nil); err != nil {
				return nil, vt.Infra(err)
			}
		default:
			ctx, cancel := context.WithCancel(context.Background())
			w.closers = append(w.closers, cancel)
			if w.smux, err = srpc.NewMuxedConnWithRwc(ctx, b, cfg.Swap, nil); err != nil {
				return nil, vt.Infra(err)
			}
			if w.cmux, err = srpc.NewMuxedConnWithRwc(ctx, a, !cfg.Swap, nil); err != nil {
				return nil, vt.Infra(err)
			}
		}
	default:
		return nil, vt.Infra(fmt.Errorf("unknown transport %q", cfg.Kind))
	}
	if w.cmux != nil {
		w.Open = srpc.NewOpenStreamWithMuxedConn(w.cmux)
		w.Client = srpc.NewClientWithMuxedConn(w.cmux)
	}
	go func() {
		w.AcceptErr = w.Server.AcceptMuxedConn(w.SrvCtx, w.smux)
		close(w.Accepted)
	}()
	return w, nil
}

// Back makes the client's end serve too, and returns a client at the other end.
func (w *World) Back() srpc.Client {
	go func() { _ = w.Server.AcceptMuxedConn(w.SrvCtx, w.cmux) }()
	return srpc.NewClientWithMuxedConn(w.smux)
}

// CanCut says whether the connection can be cut.
func (w *World) CanCut() bool { return w.cutFn != nil }

// Cut breaks the connection.
func (w *World) Cut(err error) {
	if w.cutFn != nil {
		w.cutFn(err)
	}
}

// failAfter makes the connection fail after n more bytes from the client.
func (w *World) failAfter(n int64) { w.link.FailAfter(n, errCut) }

// Settle waits until nothing happens any more, including timers.
func (w *World) Settle() { time.Sleep(25 * time.Second); synctest.Wait() }

// Close closes everything.
func (w *World) Close() {
	if w.smux != nil {
		if w.cmux != nil {
			_ = w.cmux.Close()
		} else {
			_ = w.link.Close()
		}
		_ = w.smux.Close()
	}
	w.SrvCtx.Cancel()
	for _, f := range w.closers {
		f()
	}
}

func yamuxSession(mc network.MuxedConn) *yamux.Session {
	v := reflect.ValueOf(mc)
	if v.Kind() == reflect.Pointer && v.Type().String() == "*yamux.conn" {
		return (*yamux.Session)(unsafe.Pointer(v.Pointer()))
	}
	return nil
}

// OpenStreams returns the number of transport streams not closed by the client
// end and by the server end (-1: unknown).
func (w *World) OpenStreams() (int, int) {
	if w.fakeC != nil {
		return w.fakeC.Open(), w.smux.(*wire.Mux).Open()
	}
	if w.cmux != nil {
		a, b := yamuxSession(w.cmux), yamuxSession(w.smux)
		if a != nil && b != nil {
			return a.NumStreams(), b.NumStreams()
		}
	}
	return -1, -1
}

// handler is a srpc.Handler with a function.
type handler struct {
	svc  string
	mets []string
	fn   func(svc, met string, strm srpc.Stream) (bool, error)
}

func (h *handler) GetServiceID() string   { return h.svc }
func (h *handler) GetMethodIDs() []string { return h.mets }
func (h *handler) InvokeMethod(svc, met string, strm srpc.Stream) (bool, error) {
	return h.fn(svc, met, strm)
}

func raw(b []byte) *srpc.RawMessage { return srpc.NewRawMessage(b, true) }

// recv receives one message as bytes.
func recv(s srpc.Stream) ([]byte, error) {
	m := srpc.NewRawMessage(nil, true)
	if err := s.MsgRecv(m); err != nil {
		return nil, err
	}
	return append([]byte{}, m.GetData()...), nil
}

func send(s srpc.Stream, b []byte) error { return s.MsgSend(raw(b)) }

var errEOF = io.EOF

func sleepUs(us int) {
	if us > 0 {
		time.Sleep(time.Duration(us) * time.Microsecond)
	}
}

func show(b []byte) string {
	if len(b) <= 24 {
		return fmt.Sprintf("%d:%x", len(b), b)
	}
	return fmt.Sprintf("%d:%x..%x", len(b), b[:10], b[len(b)-6:])
}

func showAll(bs [][]byte) string {
	var s []string
	for _, b := range bs {
		s = append(s, show(b))
	}
	return "[" + strings.Join(s, " ") + "]"
}

func sameMsgs(got, want [][]byte) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if !bytes.Equal(got[i], want[i]) {
			return false
		}
	}
	return true
}

func isPrefix(got, want [][]byte) bool {
	return len(got) <= len(want) && sameMsgs(got, want[:len(got)])
}

func errText(err error) string {
	if err == nil {
		return "<nil>"
	}
	return err.Error()
}

// errs collects errors of goroutines.
type errs struct {
	mu sync.Mutex
	e  []error
}

func (e *errs) add(err error) {
	if err != nil {
		e.mu.Lock()
		e.e = append(e.e, err)
		e.mu.Unlock()
	}
}

func (e *errs) get() error {
	e.mu.Lock()
	defer e.mu.Unlock()
	return errors.Join(e.e...)
}

// bubble runs f with the schedule in a bubble.
func bubble(t *testing.T, s sched.Config, leakOK bool, f func() error) error {
	return vt.Bubble(t, leakOK, func() error {
		sched.Start(s)
		err := f()
		sched.Stop()
		// time stops when this function returns: let sleepers finish.
		time.Sleep(time.Minute)
		return err
	})
}

// done runs f in a goroutine and returns a channel closed after it.
func done(f func()) <-chan struct{} {
	ch := make(chan struct{})
	go func() {
		defer close(ch)
		f()
	}()
	return ch
}

// numGoroutine counts the goroutines of the caller's bubble once they are all
// blocked. (runtime.NumGoroutine also counts some goroutines of the runtime.)
func numGoroutine() int {
	synctest.Wait()
	buf := make([]byte, 1<<16)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	head, _, _ := strings.Cut(string(buf), "\n")
	_, mark, ok := strings.Cut(head, ", ")
	if !ok {
		panic("not in a bubble: " + head)
	}
	mark = mark[strings.Index(mark, "synctest bubble"):]
	k := 0
	for _, g := range strings.Split(string(buf), "\n\n") {
		head, _, _ := strings.Cut(g, "\n")
		if strings.HasSuffix(head, mark) {
			k++
		}
	}
	return k
}

// moreGoroutines says how many goroutines there are above base.
func moreGoroutines(base int) int {
	return max(0, numGoroutine()-base)
}

var _ net.Conn
