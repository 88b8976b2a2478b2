package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"slices"
	"testing"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
	"pgregory.net/rapid"
	"verif/harness/vt"
)

// noise is a call which is cancelled, fails, is abandoned or is malformed.
type noise struct {
	What  string `json:"what"`
	Start int    `json:"start,omitempty"`
	Len   int    `json:"len,omitempty"` // how long it lives
	Bytes []byte `json:"bytes,omitempty"`
	Big   bool   `json:"big,omitempty"`
}

type c06Case struct {
	T     TCfg    `json:"t"`
	Calls []sCall `json:"calls"` // the calls that must be unaffected
	Unary []uCall `json:"unary,omitempty"`
	Noise []noise `json:"noise"`
	// Many calls are open before the others start and stay open.
	Many     int    `json:"many,omitempty"`
	ManyKind string `json:"manykind,omitempty"` // wait, sent, silent
}

// openMany opens calls which stay open until end.
func openMany(w *World, n int, kind string, end context.Context) error {
	for range n {
		switch kind {
		case "silent":
			s, err := w.cmux.OpenStream(end)
			if err != nil {
				return err
			}
			context.AfterFunc(end, func() { _ = s.Reset() })
		case "unary":
			go func() { _ = w.Client.ExecCall(end, "noise", "wait", raw([]byte("x")), raw(nil)) }()
		default:
			s, err := w.Client.NewStream(end, "noise", "wait", nil)
			if err != nil {
				return err
			}
			if kind == "sent" {
				for range 3 {
					if err := send(s, []byte("never read")); err != nil {
						return err
					}
				}
			}
		}
	}
	return nil
}

var noiseKinds = []string{"cancel", "cancel", "cancelstream", "close", "close", "abandon", "err", "unimplemented", "garbage", "badframe", "partial", "dupstart", "emptystart", "stall", "latedata", "opencancel", "reset"}

func runNoise(w *World, n noise, end context.Context) {
	sleepUs(n.Start)
	ctx, cancel := context.WithCancel(end)
	defer cancel()
	payload := []byte("noise")
	if n.Big {
		payload = make([]byte, 300000)
	}
	rawStream := func(data []byte, wait bool) {
		s, err := w.cmux.OpenStream(ctx)
		if err != nil {
			return
		}
		for len(data) > 0 {
			k, err := s.Write(data)
			if err != nil {
				break
			}
			data = data[k:]
		}
		if wait {
			sleepUs(n.Len)
		}
		_ = s.Close()
	}
	switch n.What {
	case "cancel":
		time.AfterFunc(time.Duration(n.Len)*time.Microsecond, cancel)
		_ = w.Client.ExecCall(ctx, "noise", "wait", raw(payload), raw(nil))
	case "cancelstream":
		s, err := w.Client.NewStream(ctx, "noise", "flood", nil)
		if err != nil {
			return
		}
		time.AfterFunc(time.Duration(n.Len)*time.Microsecond, cancel)
		for {
			if _, err := recv(s); err != nil {
				return
			}
		}
	case "close":
		s, err := w.Client.NewStream(ctx, "noise", "flood", raw(payload))
		if err != nil {
			return
		}
		sleepUs(n.Len)
		_ = s.Close()
	case "abandon":
		// never read, never closed, the handler keeps sending.
		_, _ = w.Client.NewStream(end, "noise", "flood", raw(payload))
	case "err":
		_ = w.Client.ExecCall(ctx, "noise", "err", raw(payload), raw(nil))
	case "unimplemented":
		_ = w.Client.ExecCall(ctx, "noise", "none", raw(payload), raw(nil))
	case "garbage":
		rawStream(n.Bytes, true)
	case "badframe":
		rawStream(append(frame(srpc.NewCallStartPacket("noise", "wait", nil, false)), 4, 0, 0, 0, 0xff, 0xff, 0xff, 0xff), true)
	case "partial":
		f := frame(srpc.NewCallStartPacket("noise", "wait", []byte("some data that does not all arrive"), false))
		rawStream(f[:len(f)-5], true)
	case "dupstart":
		f := frame(srpc.NewCallStartPacket("noise", "wait", nil, false))
		rawStream(append(f, f...), true)
	case "emptystart":
		rawStream(frame(&srpc.Packet{Body: &srpc.Packet_CallStart{CallStart: &srpc.CallStart{RpcService: "", RpcMethod: "x"}}}), true)
	case "latedata":
		f := frame(srpc.NewCallStartPacket("noise", "wait", nil, false))
		f = append(f, frame(srpc.NewCallDataPacket(nil, false, true, nil))...)
		f = append(f, frame(dataPkt([]byte("late")))...)
		rawStream(f, true)
	case "stall":
		// opened and silent.
		if s, err := w.cmux.OpenStream(ctx); err == nil {
			<-end.Done()
			_ = s.Reset()
		}
	case "opencancel":
		cancel()
		_, _ = w.Client.NewStream(ctx, "noise", "wait", raw(payload))
	case "reset":
		s, err := w.cmux.OpenStream(ctx)
		if err != nil {
			return
		}
		_, _ = s.Write(frame(srpc.NewCallStartPacket("noise", "flood", nil, false)))
		sleepUs(n.Len)
		_ = s.Reset()
	}
}

func TestC06_Isolation(t *testing.T) {
	vt.Check(t, vt.Prop[c06Case]{
		Rule:  "1-3 streaming calls and 0-3 unary calls, some made by the accepting end of the connection, checked in full, while 1-6 other calls on the same connection are cancelled, closed, abandoned (with the handler still sending), fail, stay silent or send malformed packets at drawn times, and now and then 10-300 calls were opened before and stay open; afterwards a new call must work; non-trivial: a disturbing call starts before the checked calls are over",
		Quick: 16000, Thorough: 300000,
		Gen: func(t *rapid.T) c06Case {
			var c c06Case
			big := maybeBig(t)
			m := 0
			for range pick(t, "ncalls", 1, 1, 2, 3) {
				s := genSCall(t, big)
				s.Back = pick(t, "back", false, false, true)
				m = max(m, s.maxMsg())
				c.Calls = append(c.Calls, s)
			}
			for range pick(t, "nunary", 0, 1, 1, 3) {
				u := uCall{Req: genMsg(t, false, "req"), Resp: genMsg(t, false, "resp"), Start: pick(t, "ustart", 0, 0, 100, 3000), HDelay: pick(t, "uh", 0, 0, 500, 20000)}
				u.Back = pick(t, "uback", false, false, true)
				c.Unary = append(c.Unary, u)
			}
			for range pick(t, "nnoise", 1, 1, 2, 3, 6) {
				n := noise{What: pick(t, "what", noiseKinds...), Start: pick(t, "nstart", 0, 0, 10, 300, 3000), Len: pick(t, "nlen", 0, 1, 100, 2000, 30000)}
				if n.What == "garbage" {
					n.Bytes = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes")
				}
				n.Big = rapid.IntRange(0, 9).Draw(t, "nbig") == 0
				// the flood of the handler has to get through the connection.
				m = max(m, 300000)
				c.Noise = append(c.Noise, n)
			}
			if rapid.IntRange(0, 24).Draw(t, "many") == 0 {
				c.Many = pick(t, "nmany", 10, 20, 40, 80, 150, 300)
				c.ManyKind = pick(t, "manykind", "wait", "wait", "unary", "sent", "silent")
			}
			c.T = genTCfg(t, m, "fake", "fake", "yamux", "yamux", "yamux", "rwc")
			return c
		},
		Run: func(t *testing.T, c c06Case, in *vt.Info) error {
			streamLabels(in, c.T, c.Calls)
			in.NonTrivial = true
			for _, n := range c.Noise {
				in.Label("noise: " + n.What)
			}
			for _, s := range c.Calls {
				in.LabelIf(s.Back, "called from the accepting end")
			}
			in.LabelIf(c.Many > 0, fmt.Sprintf("%d open calls", c.Many))
			return bubble(t, c.T.Sched, true, func() error { return runC06(c) })
		},
	})
}

func runC06(c c06Case) error {
	recs := make([]*sRec, len(c.Calls))
	for i := range recs {
		recs[i] = newRec()
	}
	end, endAll := context.WithCancel(context.Background())
	defer endAll()
	mux := srpc.NewMux()
	uh := &handler{svc: "u", fn: func(_, met string, s srpc.Stream) (bool, error) {
		var i int
		if _, err := fmt.Sscanf(met, "m%d", &i); err != nil || i >= len(c.Unary) {
			return false, nil
		}
		b, err := recv(s)
		if err != nil {
			return true, err
		}
		if !bytes.Equal(b, c.Unary[i].Req.Bytes()) {
			return true, errors.New("wrong request")
		}
		sleepUs(c.Unary[i].HDelay)
		if err := s.Context().Err(); err != nil {
			return true, fmt.Errorf("the context of the handler is dead: %w", err)
		}
		return true, send(s, c.Unary[i].Resp.Bytes())
	}}
	for i := range c.Unary {
		uh.mets = append(uh.mets, fmt.Sprintf("m%d", i))
	}
	nh := &handler{svc: "noise", mets: []string{"wait", "flood", "err"}, fn: func(_, met string, s srpc.Stream) (bool, error) {
		switch met {
		case "wait":
			<-s.Context().Done()
			return true, s.Context().Err()
		case "flood":
			for range 400 {
				if err := send(s, make([]byte, 5000)); err != nil {
					return true, err
				}
				time.Sleep(100 * time.Microsecond)
			}
			<-s.Context().Done()
			return true, nil
		default:
			return true, errors.New("noise fails")
		}
	}}
	_ = mux.Register(streamServer("s", c.Calls, recs))
	_ = mux.Register(uh)
	_ = mux.Register(nh)
	w, err := NewWorld(c.T, mux)
	if err != nil {
		return err
	}
	defer w.Close()
	var es errs
	var wait []<-chan struct{}
	back := w.Client
	if slices.ContainsFunc(c.Calls, func(s sCall) bool { return s.Back }) || slices.ContainsFunc(c.Unary, func(u uCall) bool { return u.Back }) {
		back = w.Back()
	}
	from := func(b bool) srpc.Client {
		if b {
			return back
		}
		return w.Client
	}
	if c.Many > 0 {
		var merr error
		md := done(func() { merr = openMany(w, c.Many, c.ManyKind, end) })
		if err := vt.AwaitFor("the opening of many calls", md, time.Hour); err != nil {
			return err
		}
		if merr != nil {
			return fmt.Errorf("opening many calls: %w", merr)
		}
	}
	for _, n := range c.Noise {
		go runNoise(w, n, end)
	}
	for i := range c.Calls {
		wait = append(wait, done(func() {
			if err := recs[i].call(context.Background(), from(c.Calls[i].Back), "s", fmt.Sprintf("m%d", i), &c.Calls[i]); err != nil {
				es.add(fmt.Errorf("stream %d: %w", i, err))
			}
		}))
	}
	for i := range c.Unary {
		wait = append(wait, done(func() {
			sleepUs(c.Unary[i].Start)
			out := raw(nil)
			err := from(c.Unary[i].Back).ExecCall(context.Background(), "u", fmt.Sprintf("m%d", i), raw(c.Unary[i].Req.Bytes()), out)
			if err != nil {
				es.add(fmt.Errorf("unary call %d failed: %w", i, err))
			} else if !bytes.Equal(out.GetData(), c.Unary[i].Resp.Bytes()) {
				es.add(fmt.Errorf("unary call %d got %s, want %s", i, show(out.GetData()), show(c.Unary[i].Resp.Bytes())))
			}
		}))
	}
	for i, ch := range wait {
		if err := vt.AwaitFor(fmt.Sprintf("the end of call %d", i), ch, 3*time.Hour); err != nil {
			return errors.Join(es.get(), err)
		}
	}
	for i := range c.Calls {
		s, r := &c.Calls[i], recs[i]
		if err := vt.Await(fmt.Sprintf("the end of handler %d", i), r.SDone); err != nil {
			return err
		}
		for _, f := range []func(*sCall) error{r.checkMsgs, r.checkHalf, r.checkEnds} {
			if err := f(s); err != nil {
				return fmt.Errorf("stream %d: %w", i, err)
			}
		}
	}
	// a new call works.
	out := raw(nil)
	nd := done(func() { err = w.Client.ExecCall(context.Background(), "noise", "err", raw(nil), out) })
	if e := vt.AwaitFor("the end of a new call", nd, 10*time.Minute); e != nil {
		return e
	}
	if errText(err) != "noise fails" {
		return fmt.Errorf("a new call after the others got %q, want \"noise fails\"", errText(err))
	}
	return es.get()
}
