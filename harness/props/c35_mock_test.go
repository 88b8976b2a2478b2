package props

import (
	"context"
	"errors"
	"fmt"
	"testing"

	e2e_mock "github.com/aperturerobotics/starpc/mock"
	"github.com/aperturerobotics/starpc/srpc"
	"pgregory.net/rapid"
	"verif/harness/vt"
)

type c35MockCall struct {
	Body  string `json:"body"`
	Reply string `json:"reply"`
	Err   string `json:"err,omitempty"`
	Start int    `json:"start,omitempty"` // us
	D     int    `json:"d,omitempty"`     // us the callback takes
}

type c35Mock struct {
	T     TCfg          `json:"t"`
	NoCb  bool          `json:"noCb,omitempty"`
	Svc   string        `json:"svc,omitempty"` // another service id
	Reg   bool          `json:"reg,omitempty"` // registered with Register
	Calls []c35MockCall `json:"calls"`
}

func TestC35_Mock(t *testing.T) {
	vt.Check(t, vt.Prop[c35Mock]{
		Rule:  "1-5 concurrent calls of the mock service of the repository with drawn requests, replies, errors and pauses, registered in two ways, under its own or another service ID, with or without a callback, over the transports and schedules of C01; non-trivial: several calls, an error, no callback or another service ID",
		Quick: 4000, Thorough: 100000,
		Gen: func(t *rapid.T) c35Mock {
			c := c35Mock{NoCb: rare(t, "nocb", 6), Reg: rapid.Bool().Draw(t, "reg")}
			if !c.Reg && rapid.Bool().Draw(t, "renamed") {
				c.Svc = pick(t, "svc", "x", "e2e.mock.Mock2", "other/service")
			}
			m := 0
			for range rapid.IntRange(1, 5).Draw(t, "ncalls") {
				x := c35MockCall{Body: genBody(t), Reply: genBody(t), Start: pick(t, "start", 0, 0, 100, 5000), D: pick(t, "d", 0, 0, 100, 5000)}
				if rapid.IntRange(0, 3).Draw(t, "fails") == 0 {
					x.Err = pick(t, "err", "no", "EOF", "unimplemented", "unicode \u00e9")
				}
				m = max(m, len(x.Body), len(x.Reply))
				c.Calls = append(c.Calls, x)
			}
			c.T = genTCfg(t, m+60, connKinds...)
			return c
		},
		Run: func(t *testing.T, c c35Mock, in *vt.Info) error {
			in.Label("transport: " + c.T.Kind)
			in.LabelIf(c.NoCb, "no callback")
			in.LabelIf(c.Svc != "", "another service ID")
			in.NonTrivial = len(c.Calls) > 1 || c.NoCb || c.Svc != "" || c.Calls[0].Err != ""
			return bubble(t, c.T.Sched, false, func() error { return runC35Mock(c) })
		},
	})
}

func runC35Mock(c c35Mock) error {
	var es errs
	runs := make([]int, len(c.Calls))
	srv := &e2e_mock.MockServer{}
	if !c.NoCb {
		srv.MockRequestCb = func(ctx context.Context, msg *e2e_mock.MockMsg) (*e2e_mock.MockMsg, error) {
			var i int
			b := msg.GetBody()
			if _, err := fmt.Sscanf(b, "%d:", &i); err != nil || i >= len(c.Calls) || b != fmt.Sprintf("%d:%s", i, c.Calls[i].Body) {
				es.add(fmt.Errorf("the callback got a request which was not sent: %s", show([]byte(b))))
				return nil, errors.New("unknown")
			}
			es.mu.Lock()
			runs[i]++
			es.mu.Unlock()
			sleepUs(c.Calls[i].D)
			if e := c.Calls[i].Err; e != "" {
				return nil, errors.New(e)
			}
			return &e2e_mock.MockMsg{Body: c.Calls[i].Reply}, nil
		}
	}
	mux := srpc.NewMux()
	var err error
	if c.Reg {
		err = srv.Register(mux)
	} else {
		err = mux.Register(e2e_mock.NewSRPCMockHandler(srv, c.Svc))
	}
	if err != nil {
		return fmt.Errorf("registering: %w", err)
	}
	if id := (e2e_mock.NewSRPCMockHandler(srv, c.Svc)).GetServiceID(); c.Svc != "" && id != c.Svc || c.Svc == "" && id != e2e_mock.SRPCMockServiceID {
		return fmt.Errorf("the handler for %q has the service ID %q", c.Svc, id)
	}
	w, err := NewWorld(c.T, mux)
	if err != nil {
		return err
	}
	defer w.Close()
	cl := e2e_mock.NewSRPCMockClient(w.Client)
	if c.Svc != "" {
		cl = e2e_mock.NewSRPCMockClientWithServiceID(w.Client, c.Svc)
	}
	if cl.SRPCClient() != w.Client {
		return errors.New("SRPCClient is another client")
	}
	var wait []<-chan struct{}
	for i, x := range c.Calls {
		wait = append(wait, done(func() {
			sleepUs(x.Start)
			res, err := cl.MockRequest(context.Background(), &e2e_mock.MockMsg{Body: fmt.Sprintf("%d:%s", i, x.Body)})
			want := x.Err
			if c.NoCb {
				want = srpc.ErrUnimplemented.Error()
			}
			switch {
			case want != "" && errTextOr(err) != want:
				es.add(fmt.Errorf("call %d: want the error %q, got %s, %q", i, want, show([]byte(res.GetBody())), errText(err)))
			case want == "" && err != nil:
				es.add(fmt.Errorf("call %d failed: %w", i, err))
			case want == "" && res.GetBody() != x.Reply:
				es.add(fmt.Errorf("call %d: the callback returned %s, the caller got %s", i, show([]byte(x.Reply)), show([]byte(res.GetBody()))))
			}
		}))
	}
	for i, ch := range wait {
		if err := vt.Await(fmt.Sprintf("the end of call %d", i), ch); err != nil {
			return errors.Join(es.get(), err)
		}
	}
	if err := es.get(); err != nil {
		return err
	}
	for i, n := range runs {
		if want := map[bool]int{true: 0, false: 1}[c.NoCb]; n != want {
			return fmt.Errorf("the callback ran %d times for call %d", n, i)
		}
	}
	return nil
}
