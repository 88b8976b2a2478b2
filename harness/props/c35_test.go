package props

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"testing"
	"time"

	"github.com/aperturerobotics/protobuf-go-lite/types/known/emptypb"
	"github.com/aperturerobotics/starpc/echo"
	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
	"pgregory.net/rapid"
	"verif/harness/vt"
)

type c35Call struct {
	Kind   string   `json:"kind"`
	Msgs   []string `json:"msgs"`
	Gap    int      `json:"gap,omitempty"`    // us between the messages sent
	Start  int      `json:"start,omitempty"`  // us
	Cancel int      `json:"cancel,omitempty"` // us after the start, 0: never
	ID     string   `json:"id,omitempty"`     // of the component, for a nested call
	Ack    bool     `json:"ack,omitempty"`
	Open   bool     `json:"open,omitempty"` // the caller does not end its direction before the answer
}

type c35Case struct {
	T     TCfg      `json:"t"`
	NoMux bool      `json:"noMux,omitempty"`
	Calls []c35Call `json:"calls"`
}

func genBody(t *rapid.T) string {
	switch rapid.IntRange(0, 9).Draw(t, "body") {
	case 0:
		return ""
	case 1:
		return strings.Repeat(rapid.StringN(1, 3, -1).Draw(t, "unit"), rapid.IntRange(1, 3000).Draw(t, "times"))
	default:
		return rapid.String().Draw(t, "text")
	}
}

func TestC35_Go(t *testing.T) {
	vt.Check(t, vt.Prop[c35Case]{
		Rule:  "1-4 concurrent calls of drawn methods of echo.EchoServer (Echo, EchoServerStream, EchoClientStream, EchoBidiStream, DoNothing, and Echo or EchoBidiStream through RpcStream to drawn components, with or without a mux for it) with 0-4 drawn messages (empty ones and large ones too) and pauses, some cancelled, over the transports and schedules of C01; non-trivial: a streaming or nested call, or an empty message",
		Quick: 8000, Thorough: 200000,
		Gen: func(t *rapid.T) c35Case {
			var c c35Case
			m := 0
			for range rapid.IntRange(1, 4).Draw(t, "ncalls") {
				x := c35Call{Kind: pick(t, "kind", "unary", "server", "client", "bidi", "bidi", "nothing", "nested", "nested bidi", "direct")}
				n := 1
				if x.Kind == "client" || strings.HasSuffix(x.Kind, "bidi") {
					n = rapid.IntRange(0, 4).Draw(t, "nmsgs")
				}
				for range n {
					b := genBody(t)
					m = max(m, len(b))
					x.Msgs = append(x.Msgs, b)
				}
				x.Gap = pick(t, "gap", 0, 0, 100, 5000, 300000)
				x.Start = pick(t, "start", 0, 0, 100, 5000)
				if x.Kind != "direct" && rapid.IntRange(0, 3).Draw(t, "cancels") == 0 {
					x.Cancel = pick(t, "cancel", 1, 100, 5000, 199999, 200001, 500000, 900000, 1100000)
				}
				if strings.HasPrefix(x.Kind, "nested") {
					x.ID = pick(t, "id", "", "a", "some/component")
					x.Ack = rapid.Bool().Draw(t, "ack")
				}
				x.Open = x.Kind == "client" && n > 0 && rapid.Bool().Draw(t, "open")
				c.Calls = append(c.Calls, x)
			}
			c.NoMux = rapid.IntRange(0, 5).Draw(t, "nomux") == 0
			c.T = genTCfg(t, m+60)
			return c
		},
		Run: func(t *testing.T, c c35Case, in *vt.Info) error {
			in.Label("transport:" + c.T.Kind)
			for _, x := range c.Calls {
				in.Label("call: " + x.Kind)
				in.LabelIf(x.Cancel > 0, "cancelled")
				in.LabelIf(x.Open, "answer before the end")
				in.NonTrivial = in.NonTrivial || x.Kind != "unary" && x.Kind != "nothing" || strings.Join(x.Msgs, "") == ""
			}
			return bubble(t, c.T.Sched, false, func() error { return runC35(c) })
		},
	})
}

func runC35(c c35Case) error {
	mux := srpc.NewMux()
	inner := srpc.Mux(mux)
	if c.NoMux {
		inner = nil
	}
	es := echo.NewEchoServer(inner)
	if err := es.Register(mux); err != nil {
		return vt.Infra(err)
	}
	w, err := NewWorld(c.T, mux)
	if err != nil {
		return err
	}
	defer w.Close()
	var es2 errs
	var all []<-chan struct{}
	for i, x := range c.Calls {
		all = append(all, done(func() {
			sleepUs(x.Start)
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			if x.Cancel > 0 {
				stop := time.AfterFunc(time.Duration(x.Cancel)*time.Microsecond, cancel)
				defer stop.Stop()
			}
			err := x.run(ctx, echo.NewSRPCEchoerClient(w.Client), es, c.NoMux)
			if err != nil && ctx.Err() != nil && !errors.As(err, new(wrongAnswer)) {
				err = nil // cancelled
			}
			if err != nil {
				es2.add(fmt.Errorf("call %d (%s): %w", i, x.Kind, err))
			}
		}))
	}
	for i, d := range all {
		select {
		case <-d:
		case <-time.After(10 * time.Minute):
			return fmt.Errorf("call %d (%s) is blocked", i, c.Calls[i].Kind)
		}
	}
	return es2.get()
}

// wrongAnswer is an answer which no cancellation explains.
type wrongAnswer struct{ error }

func wrong(format string, a ...any) error { return wrongAnswer{fmt.Errorf(format, a...)} }

func (x *c35Call) run(ctx context.Context, cl echo.SRPCEchoerClient, es *echo.EchoServer, noMux bool) error {
	one := func() *echo.EchoMsg { return &echo.EchoMsg{Body: x.Msgs[0]} }
	answer := func(m *echo.EchoMsg, err error) error {
		if err != nil {
			return err
		}
		if m.GetBody() != x.Msgs[0] {
			return wrong("sent %q, the answer is %q", x.Msgs[0], m.GetBody())
		}
		return nil
	}
	began := time.Now()
	switch x.Kind {
	case "unary":
		return answer(cl.Echo(ctx, one()))
	case "direct":
		m := one()
		r, err := es.Echo(ctx, m)
		if err := answer(r, err); err != nil {
			return err
		}
		r.Body += "?"
		return answer(m, nil)
	case "nothing":
		r, err := cl.DoNothing(ctx, &emptypb.Empty{})
		if err == nil && r == nil {
			return wrong("no answer")
		}
		return err
	case "server":
		s, err := cl.EchoServerStream(ctx, one())
		if err != nil {
			return err
		}
		defer s.Close()
		for i := 0; ; i++ {
			m, err := s.Recv()
			if at := time.Since(began); at < 200*time.Millisecond*time.Duration(i) && ctx.Err() == nil {
				return wrong("message %d or the end (%v) came %v after the start", i, err, at)
			}
			if err == io.EOF && i == 5 {
				return nil
			}
			if err == io.EOF {
				return fmt.Errorf("the stream ended after %d messages", i)
			}
			if err != nil {
				return err
			}
			if i == 5 {
				return wrong("more than 5 messages")
			}
			if err := answer(m, nil); err != nil {
				return err
			}
		}
	case "client":
		s, err := cl.EchoClientStream(ctx)
		if err != nil {
			return err
		}
		defer s.Close()
		for i, b := range x.Msgs {
			if err := s.Send(&echo.EchoMsg{Body: b}); err != nil && i == 0 {
				return err
			}
			sleepUs(x.Gap)
		}
		if x.Open {
			m := &echo.EchoMsg{}
			return answer(m, s.MsgRecv(m))
		}
		m, err := s.CloseAndRecv()
		if len(x.Msgs) == 0 {
			if err == nil {
				return wrong("an answer (%q) to no message", m.GetBody())
			}
			return nil
		}
		return answer(m, err)
	case "bidi":
		return x.bidi(ctx, cl)
	}
	nested := echo.NewSRPCEchoerClient(rpcstream.NewRpcStreamClient(cl.RpcStream, x.ID, x.Ack))
	var err error
	if x.Kind == "nested" {
		err = answer(nested.Echo(ctx, one()))
	} else {
		err = x.bidi(ctx, nested)
	}
	if noMux {
		if err == nil {
			return wrong("the server has no mux for nested calls, but a nested call succeeded")
		}
		if ctx.Err() == nil && x.Ack && !strings.Contains(err.Error(), "not implemented") {
			return wrong("the server has no mux for nested calls, the error is %v", err)
		}
		return nil
	}
	return err
}

func (x *c35Call) bidi(ctx context.Context, cl echo.SRPCEchoerClient) error {
	s, err := cl.EchoBidiStream(ctx)
	if err != nil {
		return err
	}
	defer s.Close()
	want, fails := []string{"hello from server"}, false
	for _, b := range x.Msgs {
		if fails = b == ""; fails {
			break
		}
		want = append(want, b)
	}
	sent := done(func() {
		for _, b := range x.Msgs {
			if s.Send(&echo.EchoMsg{Body: b}) != nil {
				return
			}
			sleepUs(x.Gap)
		}
		_ = s.CloseSend()
	})
	defer func() { <-sent }()
	for i := 0; ; i++ {
		m, err := s.Recv()
		switch {
		case err == nil && i < len(want) && m.GetBody() == want[i]:
			continue
		case err == nil:
			return wrong("message %d is %q, want %q", i, m.GetBody(), want)
		case err == io.EOF && (fails || i < len(want)):
			return fmt.Errorf("the stream ended after %d messages, want %q, then an error: %v", i, want, fails)
		case err == io.EOF:
			return nil
		case i == len(want) && fails && strings.Contains(err.Error(), "got message with empty body"):
			return nil
		}
		return err
	}
}
