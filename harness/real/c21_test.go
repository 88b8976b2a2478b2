// Package real has the checks that run in real time, against the operating
// system or the installed tools.
package real

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/sirupsen/logrus"
	"pgregory.net/rapid"
	"verif/harness/vt"
)

func TestMain(m *testing.M) {
	logrus.SetLevel(logrus.PanicLevel)
	os.Exit(m.Run())
}

// patience is how long something that must happen may take.
const patience = 40 * time.Second

func pick[T any](t *rapid.T, label string, vs ...T) T {
	return vs[rapid.IntRange(0, len(vs)-1).Draw(t, label)]
}

func raw(b []byte) *srpc.RawMessage { return srpc.NewRawMessage(b, true) }

// within waits for f.
func within(what string, f func()) error {
	ch := make(chan struct{})
	go func() {
		defer close(ch)
		f()
	}()
	select {
	case <-ch:
		return nil
	case <-time.After(patience):
		return fmt.Errorf("%s did not happen within %v", what, patience)
	}
}

type tClient struct {
	Kind  string `json:"kind"` // dial, idle, garbage, drop
	Calls []int  `json:"calls,omitempty"`
	Waits int    `json:"waits,omitempty"`
	Bytes []byte `json:"bytes,omitempty"`
	Reset bool   `json:"reset,omitempty"`
	Start int    `json:"start,omitempty"`
}

type tCase struct {
	Clients []tClient `json:"clients"`
	Stop    string    `json:"stop"` // ctx, err, both
	NilErr  bool      `json:"nilerr,omitempty"`
	ErrText string    `json:"errtext,omitempty"`
}

// waitHandler echoes, or waits for the end of its context.
type waitHandler struct {
	mu      sync.Mutex
	started int
	ended   int
	echoed  int
}

func (h *waitHandler) GetServiceID() string   { return "s" }
func (h *waitHandler) GetMethodIDs() []string { return []string{"echo", "wait"} }
func (h *waitHandler) InvokeMethod(_, met string, s srpc.Stream) (bool, error) {
	if met == "wait" {
		h.mu.Lock()
		h.started++
		h.mu.Unlock()
		<-s.Context().Done()
		h.mu.Lock()
		h.ended++
		h.mu.Unlock()
		return true, s.Context().Err()
	}
	m := raw(nil)
	if err := s.MsgRecv(m); err != nil {
		return true, err
	}
	return true, s.MsgSend(m)
}

func (h *waitHandler) counts() (int, int) {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.started, h.ended
}

func (h *waitHandler) until(what string, f func(started, ended int) bool) error {
	for end := time.Now().Add(patience); ; {
		s, e := h.counts()
		if f(s, e) {
			return nil
		}
		if time.Now().After(end) {
			return fmt.Errorf("%s did not happen within %v (%d handlers started, %d ended)", what, patience, s, e)
		}
		time.Sleep(200 * time.Microsecond)
	}
}

var portNo atomic.Int32

// freshAddr returns an address which nothing else uses.
func freshAddr() string {
	pid := os.Getpid()
	return fmt.Sprintf("127.%d.%d.1:%d", 64+(pid>>8)&127, pid&255, 12000+portNo.Add(1)%15000)
}

func echo(cl srpc.Client, n int) error {
	in := bytes.Repeat([]byte{byte(n), byte(n >> 8), 7}, n/3+1)[:n]
	out := raw(nil)
	var err error
	if e := within("the result of a call", func() { err = cl.ExecCall(context.Background(), "s", "echo", raw(in), out) }); e != nil {
		return e
	}
	if err != nil {
		return fmt.Errorf("call failed: %w", err)
	}
	if !bytes.Equal(in, out.GetData()) {
		return fmt.Errorf("call with %d bytes returned other bytes (%d)", n, len(out.GetData()))
	}
	return nil
}

// relay forwards connections, so that the connections of srpc.Dial can be cut.
type relay struct {
	lis   net.Listener
	mu    sync.Mutex
	conns []net.Conn
	dead  bool
}

func newRelay(to string) (*relay, error) {
	ip, _, _ := net.SplitHostPort(to)
	lis, err := net.Listen("tcp", ip+":0")
	if err != nil {
		return nil, err
	}
	r := &relay{lis: lis}
	go func() {
		for {
			a, err := lis.Accept()
			if err != nil {
				return
			}
			b, err := net.Dial("tcp", to)
			if err != nil {
				_ = a.Close()
				continue
			}
			r.mu.Lock()
			r.conns = append(r.conns, a, b)
			dead := r.dead
			r.mu.Unlock()
			if dead {
				_ = a.Close()
				_ = b.Close()
			}
			cp := func(x, y net.Conn) {
				_, _ = io.Copy(x, y)
				_ = x.Close()
				_ = y.Close()
			}
			go cp(a, b)
			go cp(b, a)
		}
	}()
	return r, nil
}

func (r *relay) cut(reset bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.dead = true
	for _, c := range r.conns {
		if tc, ok := c.(*net.TCPConn); ok && reset {
			_ = tc.SetLinger(0)
		}
		_ = c.Close()
	}
}

func (r *relay) close() {
	_ = r.lis.Close()
	r.cut(false)
}

func runTCP(c tCase) error {
	h := &waitHandler{}
	mux := srpc.NewMux()
	if err := mux.Register(h); err != nil {
		return vt.Infra(err)
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	errCh := make(chan error, 1)
	useErr := (<-chan error)(errCh)
	if c.NilErr {
		useErr = nil
	}
	var addr string
	var lerr error
	var ret chan struct{}
	ok := false
	for try := 0; try < 20 && !ok; try++ {
		addr = freshAddr()
		r := make(chan struct{})
		ret = r
		go func() {
			err := srpc.Listen(ctx, addr, srpc.NewServer(mux), useErr)
			lerr = err
			close(r)
		}()
		end := time.Now().Add(patience)
		for {
			nc, err := net.Dial("tcp", addr)
			if err == nil {
				// it stays open and idle.
				defer nc.Close()
				ok = true
				break
			}
			select {
			case <-r:
				if errors.Is(lerr, syscall.EADDRINUSE) {
					break
				}
				return fmt.Errorf("Listen returned %v", lerr)
			case <-time.After(time.Millisecond):
				if time.Now().After(end) {
					return fmt.Errorf("Listen does not accept connections: %w", err)
				}
				continue
			}
			break
		}
	}
	if !ok {
		return vt.Infra(errors.New("no free port"))
	}
	// everything of this run that is open is closed at the end.
	var mu sync.Mutex
	var closers []func()
	onEnd := func(f func()) {
		mu.Lock()
		closers = append(closers, f)
		mu.Unlock()
	}
	defer func() {
		mu.Lock()
		defer mu.Unlock()
		for _, f := range closers {
			f()
		}
	}()
	// dial uses srpc.Dial through a relay.
	dial := func() (srpc.Client, *relay, error) {
		r, err := newRelay(addr)
		if err != nil {
			return nil, nil, vt.Infra(err)
		}
		onEnd(r.close)
		cl, err := srpc.Dial(r.lis.Addr().String())
		return cl, r, err
	}
	client := func(t tClient) error {
		time.Sleep(time.Duration(t.Start) * time.Microsecond)
		switch t.Kind {
		case "idle", "garbage":
			nc, err := net.Dial("tcp", addr)
			if err != nil {
				return fmt.Errorf("dialling: %w", err)
			}
			onEnd(func() { _ = nc.Close() })
			_, _ = nc.Write(t.Bytes)
			return nil
		}
		cl, r, err := dial()
		if err != nil {
			return fmt.Errorf("dialling: %w", err)
		}
		for _, n := range t.Calls {
			if err := echo(cl, n); err != nil {
				return err
			}
		}
		var wg sync.WaitGroup
		res := make([]error, t.Waits)
		for i := range t.Waits {
			wg.Add(1)
			go func() {
				defer wg.Done()
				res[i] = cl.ExecCall(context.Background(), "s", "wait", raw(nil), raw(nil))
			}()
		}
		if t.Kind == "drop" {
			// wait until these handlers run: others may run too.
			time.Sleep(2 * time.Millisecond)
			r.cut(t.Reset)
			if err := within("the end of the calls of a client without connection", wg.Wait); err != nil {
				return err
			}
			for _, err := range res {
				if err == nil {
					return errors.New("a call without response succeeded")
				}
			}
		}
		return nil
	}
	errs := make([]error, len(c.Clients))
	var wg sync.WaitGroup
	waits := 0
	for i, t := range c.Clients {
		if t.Kind == "dial" {
			waits += t.Waits
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[i] = client(t)
		}()
	}
	wg.Wait()
	if err := errors.Join(errs...); err != nil {
		return err
	}
	// the handlers of the clients that are still there run, the others ended.
	if err := h.until("that only the handlers of connected clients run", func(s, e int) bool { return s-e == waits }); err != nil {
		return err
	}
	cl, _, err := dial()
	if err != nil {
		return fmt.Errorf("dialling: %w", err)
	}
	if err := echo(cl, 10); err != nil {
		return fmt.Errorf("one more client: %w", err)
	}
	if err := h.until("that only the handlers of connected clients run", func(s, e int) bool { return s-e == waits }); err != nil {
		return err
	}
	select {
	case <-ret:
		return fmt.Errorf("Listen returned %v although nothing stopped it", lerr)
	default:
	}
	boom := errors.New(c.ErrText)
	want := context.Canceled
	stopErr := c.Stop != "ctx" && !c.NilErr
	switch {
	case !stopErr:
		cancel()
	case c.Stop == "err":
		want = boom
		errCh <- boom
	case c.Stop == "nil":
		want = nil
		errCh <- nil
	default:
		want = nil
		close(errCh)
	}
	if err := within("the return of Listen", func() { <-ret }); err != nil {
		return err
	}
	if lerr != want {
		return fmt.Errorf("Listen returned %v after its stop (%s, channel given: %v)", lerr, c.Stop, !c.NilErr)
	}
	if nc, err := net.Dial("tcp", addr); err == nil {
		_ = nc.Close()
		return errors.New("the address still accepts connections after Listen returned")
	}
	lis, err := net.Listen("tcp", addr)
	if err != nil {
		return fmt.Errorf("the address cannot be used again after Listen returned: %w", err)
	}
	_ = lis.Close()
	if !stopErr {
		if err := h.until("that all handlers end after the context is cancelled", func(s, e int) bool { return s == e }); err != nil {
			return err
		}
	}
	return nil
}

func TestC21_TCP(t *testing.T) {
	vt.Check(t, vt.Prop[tCase]{
		Rule:  "srpc.Listen on a loopback TCP address and 1-6 clients at once: srpc.Dial (through a relay) with 0-3 echo calls of up to 300 kB and 0-3 waiting calls, connections that stay idle or send bytes that are no multiplexer frames, and clients whose connection is closed or reset while their calls wait; then the context is cancelled, or the error channel gives an error or nil or is closed; non-trivial: at least two clients, one of which makes calls",
		Quick: 400, Thorough: 12000, Real: true, Hang: 10 * time.Minute,
		Gen: func(t *rapid.T) tCase {
			c := tCase{Stop: pick(t, "stop", "ctx", "ctx", "err", "err", "nil", "closed"), NilErr: rapid.IntRange(0, 3).Draw(t, "nilerr") == 0, ErrText: pick(t, "text", "boom", "", "EOF")}
			for range pick(t, "clients", 1, 2, 3, 4, 6) {
				k := tClient{Kind: pick(t, "kind", "dial", "dial", "dial", "idle", "garbage", "drop", "drop"), Start: pick(t, "start", 0, 0, 500, 3000)}
				switch k.Kind {
				case "garbage":
					k.Bytes = rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(t, "bytes")
				case "dial", "drop":
					for range pick(t, "calls", 0, 1, 1, 3) {
						k.Calls = append(k.Calls, pick(t, "size", 0, 1, 2047, 5000, 65536, 300000))
					}
					k.Waits = pick(t, "waits", 0, 1, 3)
					k.Reset = rapid.Bool().Draw(t, "reset")
				}
				c.Clients = append(c.Clients, k)
			}
			return c
		},
		Run: func(t *testing.T, c tCase, in *vt.Info) error {
			calls := 0
			for _, k := range c.Clients {
				in.Label("client: " + k.Kind)
				calls += len(k.Calls) + k.Waits
			}
			in.Label("stop: " + c.Stop)
			in.NonTrivial = len(c.Clients) > 1 && calls > 0
			return runTCP(c)
		},
	})
}
