package props

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
	"pgregory.net/rapid"
	"verif/harness/vt"
)

// lCall is a call that is over at some time.
type lCall struct {
	End   string `json:"end"`
	Start int    `json:"start,omitempty"`
	At    int    `json:"at,omitempty"`
	N     int    `json:"n,omitempty"` // messages each way
	Nest  Nest   `json:"nest"`
}

type c07Case struct {
	T     TCfg    `json:"t"`
	Calls []lCall `json:"calls"`
}

var endKinds = []string{"ok", "ok", "err", "noresp", "unimpl", "cancel", "cancelstream", "eof", "eof", "erreof", "close", "close", "closeearly", "halfeof", "closeafter", "badout", "badin", "openfail", "writefail", "deadctx", "ucancelmid", "handlergone"}

// badMsg fails to marshal or unmarshal.
type badMsg struct{ *srpc.RawMessage }

func (badMsg) MarshalVT() ([]byte, error) { return nil, errors.New("bad message") }
func (badMsg) UnmarshalVT([]byte) error   { return errors.New("bad message") }

// failWriter fails to write its n-th packet.
type failWriter struct {
	srpc.PacketWriter
	mu sync.Mutex
	n  int
}

func (w *failWriter) WritePacket(p *srpc.Packet) error {
	w.mu.Lock()
	w.n--
	bad := w.n < 0
	w.mu.Unlock()
	if bad {
		return errors.New("write failed")
	}
	return w.PacketWriter.WritePacket(p)
}

// runL makes a call in a way that it is over when runL returns.
func runL(c lCall, ctx context.Context, cl srpc.Client, open srpc.OpenStreamFunc) error {
	sleepUs(c.Start)
	one := raw([]byte("x"))
	sub, cancel := context.WithCancel(ctx)
	defer cancel()
	drain := func(s srpc.Stream) error {
		for {
			if _, err := recv(s); err != nil {
				return err
			}
		}
	}
	want := func(err error, text string) error {
		if errText(err) != text {
			return fmt.Errorf("%s: got %q, want %q", c.End, errText(err), text)
		}
		return nil
	}
	stream := func(ctx context.Context, met string, f func(s srpc.Stream) error) error {
		s, err := cl.NewStream(ctx, "s", met, nil)
		if err != nil {
			return fmt.Errorf("%s: %w", c.End, err)
		}
		return f(s)
	}
	sendN := func(s srpc.Stream) {
		for range c.N {
			_ = send(s, []byte("msg"))
		}
	}
	switch c.End {
	case "ok":
		return want(cl.ExecCall(ctx, "s", "ok", one, raw(nil)), "<nil>")
	case "err":
		return want(cl.ExecCall(ctx, "s", "err", one, raw(nil)), "boom")
	case "noresp":
		return want(cl.ExecCall(ctx, "s", "noresp", one, raw(nil)), "EOF")
	case "unimpl":
		return want(cl.ExecCall(ctx, "s", "nothing", one, raw(nil)), "unimplemented")
	case "badout":
		if err := cl.ExecCall(ctx, "s", "ok", one, badMsg{raw(nil)}); err == nil {
			return errors.New("badout: no error")
		}
	case "badin":
		if err := cl.ExecCall(ctx, "s", "ok", badMsg{one}, raw(nil)); err == nil {
			return errors.New("badin: no error")
		}
		if _, err := cl.NewStream(ctx, "s", "ok", badMsg{one}); err == nil {
			return errors.New("badin: no error")
		}
	case "cancel", "ucancelmid":
		time.AfterFunc(time.Duration(c.At)*time.Microsecond, cancel)
		_ = cl.ExecCall(sub, "s", "wait", one, raw(nil))
	case "cancelstream":
		time.AfterFunc(time.Duration(c.At)*time.Microsecond, cancel)
		s, err := cl.NewStream(sub, "s", "wait", nil)
		if err == nil {
			_ = drain(s)
		}
	case "eof":
		return stream(ctx, "talk", func(s srpc.Stream) error { sendN(s); return want(drain(s), "EOF") })
	case "erreof":
		return stream(ctx, "talkerr", func(s srpc.Stream) error { sendN(s); return want(drain(s), "boom") })
	case "halfeof":
		return stream(ctx, "readall", func(s srpc.Stream) error {
			sendN(s)
			_ = s.CloseSend()
			return want(drain(s), "EOF")
		})
	case "close":
		return stream(ctx, "wait", func(s srpc.Stream) error { sendN(s); sleepUs(c.At); _ = s.Close(); return nil })
	case "closeearly":
		return stream(ctx, "talk", func(s srpc.Stream) error { sleepUs(c.At); _ = s.Close(); return nil })
	case "closeafter":
		return stream(ctx, "talk", func(s srpc.Stream) error {
			err := want(drain(s), "EOF")
			sleepUs(c.At)
			_ = s.Close()
			_ = s.Close()
			return err
		})
	case "handlergone":
		// the handler returns although the caller still sends; then it reads the end.
		return stream(ctx, "ok1", func(s srpc.Stream) error {
			for range c.N {
				_ = send(s, []byte("msg"))
				sleepUs(c.At)
			}
			return want(drain(s), "EOF")
		})
	case "deadctx":
		cancel()
		if err := cl.ExecCall(sub, "s", "ok", one, raw(nil)); err == nil {
			return errors.New("deadctx: no error")
		}
		if s, err := cl.NewStream(sub, "s", "wait", nil); err == nil {
			_ = drain(s)
		}
	case "openfail":
		bad := srpc.NewClient(func(context.Context, srpc.PacketDataHandler, srpc.CloseHandler) (srpc.PacketWriter, error) {
			sleepUs(c.At)
			return nil, errors.New("cannot open")
		})
		if err := want(bad.ExecCall(ctx, "s", "ok", one, raw(nil)), "cannot open"); err != nil {
			return err
		}
		_, err := bad.NewStream(ctx, "s", "ok", nil)
		return want(err, "cannot open")
	case "writefail":
		n := c.N % 2
		bad := srpc.NewClient(func(ctx context.Context, mh srpc.PacketDataHandler, ch srpc.CloseHandler) (srpc.PacketWriter, error) {
			if c.At%2 == 0 {
				// a transport which has no reader that reports its close.
				ch = func(error) {}
			}
			pw, err := open(ctx, mh, ch)
			if err != nil {
				return nil, err
			}
			return &failWriter{PacketWriter: pw, n: n}, nil
		})
		if n == 0 {
			if err := want(bad.ExecCall(ctx, "s", "wait", one, raw(nil)), "write failed"); err != nil {
				return err
			}
			_, err := bad.NewStream(ctx, "s", "wait", one)
			return want(err, "write failed")
		}
		s, err := bad.NewStream(ctx, "s", "wait", one)
		if err != nil {
			return err
		}
		err = send(s, []byte("more"))
		_ = s.Close()
		return want(err, "write failed")
	}
	return nil
}

func leafHandler() *handler {
	return &handler{svc: "s", mets: []string{"ok", "ok1", "err", "noresp", "wait", "talk", "talkerr", "readall"}, fn: func(_, met string, s srpc.Stream) (bool, error) {
		switch met {
		case "ok":
			if _, err := recv(s); err != nil {
				return true, err
			}
			return true, send(s, []byte("resp"))
		case "ok1":
			return true, send(s, []byte("resp"))
		case "err":
			return true, errors.New("boom")
		case "wait":
			<-s.Context().Done()
			return true, s.Context().Err()
		case "talk", "talkerr":
			for range 3 {
				if err := send(s, []byte("talk")); err != nil {
					return true, err
				}
				time.Sleep(50 * time.Microsecond)
			}
			if met == "talkerr" {
				return true, errors.New("boom")
			}
		case "readall":
			for {
				if _, err := recv(s); err != nil {
					break
				}
			}
			return true, send(s, []byte("end"))
		}
		return true, nil
	}}
}

func runC07(c c07Case, in *vt.Info) error {
	n := &nester{leaf: map[string]srpc.Invoker{}}
	leaf := srpc.NewMux()
	_ = leaf.Register(leafHandler())
	for d := range 4 {
		n.leaf[nestPath(d, "leaf")] = leaf
	}
	top := n.mux("")
	w, err := NewWorld(c.T, top)
	if err != nil {
		return err
	}
	defer w.Close()
	bw, err := NewWorld(TCfg{Kind: "fake"}, top)
	if err != nil {
		return err
	}
	defer bw.Close()
	n.back = bw.Client
	w.Settle()
	base := numGoroutine()
	baseSrv := [2]int{w.SrvCtx.Live(), bw.SrvCtx.Live()}
	ctx := vt.NewCtx()
	var es errs
	var wait []<-chan struct{}
	for i, l := range c.Calls {
		path := nestPath(l.Nest.Depth, "leaf")
		cl, open := w.Client, w.Open
		if l.Nest.Depth > 0 {
			cl = n.client(w.Client, l.Nest, path)
			open = n.open(w.Client, l.Nest, path)
		}
		wait = append(wait, done(func() {
			if err := runL(l, ctx, cl, open); err != nil {
				es.add(fmt.Errorf("call %d: %w", i, err))
			}
		}))
	}
	for i, ch := range wait {
		if err := vt.AwaitFor(fmt.Sprintf("the end of call %d (%s)", i, c.Calls[i].End), ch, time.Hour); err != nil {
			return errors.Join(es.get(), err)
		}
	}
	if err := es.get(); err != nil {
		return err
	}
	// everything is over: wait until nothing happens any more.
	time.Sleep(2 * time.Minute)
	synctest.Wait()
	if k := ctx.Live(); k != 0 {
		return fmt.Errorf("%d of %d contexts made from the caller's context are still alive", k, ctx.Made())
	}
	if ctx.Err() != nil {
		return errors.New("the caller's context is dead")
	}
	if k := w.SrvCtx.Live(); k != baseSrv[0] {
		return fmt.Errorf("%d contexts made from the server's context are still alive", k-baseSrv[0])
	}
	if k := bw.SrvCtx.Live(); k != baseSrv[1] {
		return fmt.Errorf("%d contexts made from the back server's context are still alive", k-baseSrv[1])
	}
	yamuxCancel := false
	for _, l := range c.Calls {
		yamuxCancel = yamuxCancel || c.T.Kind != "fake" && (l.End == "cancel" || l.End == "cancelstream" || l.End == "ucancelmid" || l.End == "deadctx")
	}
	for i, x := range []*World{w, bw} {
		a, b := x.OpenStreams()
		if yamuxCancel {
			// yamux itself keeps a stream whose opening was cancelled.
			a = 0
		}
		if a > 0 || b > 0 {
			return fmt.Errorf("connection %d: %d transport streams are not closed by the client and %d by the server", i, a, b)
		}
	}
	if k := moreGoroutines(base); k > 0 {
		return fmt.Errorf("%d goroutines are left%s", k, vt.Stacks())
	}
	if a, b := n.counts(); a != b {
		return fmt.Errorf("%d components were acquired and %d released", a, b)
	}
	// the connection and the context are still usable.
	return runL(lCall{End: "ok"}, ctx, w.Client, w.Open)
}

func TestC07_Leftovers(t *testing.T) {
	vt.Check(t, vt.Prop[c07Case]{
		Rule:  "1-6 direct or nested (depth up to 3, up to 2 proxies) calls which end in a drawn way at a drawn time (result, error, no response, unimplemented, cancelled, read to the end, closed, half-closed, failing to open, to write, to marshal, dead context); afterwards, with the connection open, no context, transport stream or goroutine may be left and a new call works; non-trivial: not all calls end with a result",
		Quick: 40000, Thorough: 500000,
		Gen: func(t *rapid.T) c07Case {
			var c c07Case
			for range pick(t, "n", 1, 1, 1, 2, 3, 6) {
				l := lCall{End: pick(t, "end", endKinds...), Start: pick(t, "start", 0, 0, 20, 2000), At: pick(t, "at", 0, 1, 10, 50, 200, 1000, 10000), N: rapid.IntRange(0, 4).Draw(t, "n")}
				if rapid.IntRange(0, 2).Draw(t, "nested") == 0 {
					l.Nest = genNest(t, 1)
				}
				c.Calls = append(c.Calls, l)
			}
			c.T = genTCfg(t, 16)
			return c
		},
		Run: func(t *testing.T, c c07Case, in *vt.Info) error {
			in.Label("transport:" + c.T.Kind)
			for _, l := range c.Calls {
				in.Label("end: " + l.End)
				in.LabelIf(l.Nest.Depth > 0, "nested")
				in.LabelIf(l.Nest.Proxies > 0, "proxied")
				in.NonTrivial = in.NonTrivial || l.End != "ok"
			}
			return bubble(t, c.T.Sched, false, func() error { return runC07(c, in) })
		},
	})
}
