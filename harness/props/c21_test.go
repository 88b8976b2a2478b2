package props

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sync"
	"testing"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/libp2p/go-yamux/v4"
	"pgregory.net/rapid"
	"verif/harness/vt"
	"verif/harness/wire"
)

type c21Case struct {
	T       TCfg      `json:"t"`
	Clients []mClient `json:"clients"`
	Conf    string    `json:"conf,omitempty"` // multiplexer configuration of the listener
	Stop    string    `json:"stop"`           // ctx first or listener first
}

func runC21(c c21Case) error {
	lis := wire.NewListener()
	m := newMServer(append([]mClient{}, c.Clients...))
	srvCtx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var conf *yamux.Config
	if c.Conf == "explicit" {
		conf = srpc.NewYamuxConfig()
	}
	var lerr error
	ret := done(func() { lerr = srpc.AcceptMuxedListener(srvCtx, lis, srpc.NewServer(m.mux), conf) })
	var mu sync.Mutex
	var conns []*wire.Conn
	defer func() {
		_ = lis.Close()
		mu.Lock()
		defer mu.Unlock()
		for _, a := range conns {
			_ = a.Close()
		}
	}()
	connect := func(i int, cl *mClient) (*mConn, error) {
		out, in := c.T.Out, c.T.In
		out.Seed += uint64(i)
		in.Seed += uint64(i)
		a, err := lis.Dial(out, in)
		if err != nil {
			return nil, err
		}
		mu.Lock()
		conns = append(conns, a)
		mu.Unlock()
		con := &mConn{Raw: func(b []byte) { _, _ = a.Write(b) }}
		if cl.Kind == "garbage" {
			con.Kill = func(string) { _ = a.Close() }
			return con, nil
		}
		mc, err := srpc.NewMuxedConn(a, true, nil)
		if err != nil {
			return nil, vt.Infra(err)
		}
		con.Client = srpc.NewClientWithMuxedConn(mc)
		con.Kill = func(how string) {
			switch how {
			case "close":
				_ = mc.Close()
			case "cut":
				_ = a.Close()
			default:
				a.Fail(io.ErrUnexpectedEOF)
			}
		}
		return con, nil
	}
	if err := m.runAll(connect); err != nil {
		return err
	}
	select {
	case <-ret:
		return fmt.Errorf("the accept loop returned (%v) although nothing stopped it", lerr)
	default:
	}
	// one more client waits while the server stops.
	con, err := connect(len(c.Clients)+1, &mClient{Kind: "calls"})
	if err != nil {
		return fmt.Errorf("connecting: %w", err)
	}
	n := len(m.clients) - 1
	var cerr error
	var calls []<-chan struct{}
	m.mu.Lock()
	before := m.ended[n]
	m.mu.Unlock()
	calls = append(calls, done(func() {
		cerr = con.Client.ExecCall(context.Background(), "w", fmt.Sprintf("w%d", n), raw(nil), raw(nil))
	}))
	if err := m.until("the start of a handler", func() bool { return m.started[n] == before+1 }); err != nil {
		return err
	}
	if c.Stop == "ctx" {
		cancel()
		_ = lis.Close()
	} else {
		_ = lis.Close()
		sleepUs(100)
		cancel()
	}
	if err := vt.Await("the return of the accept loop", ret); err != nil {
		return err
	}
	if lerr == nil {
		return errors.New("the accept loop returned no error")
	}
	if err := m.until("the end of a handler after the server stopped", func() bool { return m.ended[n] == before+1 }); err != nil {
		return err
	}
	if err := vt.AwaitFor("the end of a call after the server stopped", calls[0], 30*time.Minute); err != nil {
		return err
	}
	if cerr == nil {
		return errors.New("a call succeeded although its handler was stopped")
	}
	return nil
}

func TestC21_Listener(t *testing.T) {
	vt.Check(t, vt.Prop[c21Case]{
		Rule:  "1-7 clients connect to AcceptMuxedListener over an in-memory listener with drawn chunking and delays: making 1-4 checked streaming calls, idle, with a silent stream, writing bytes that are no multiplexer frames, or disconnecting in a drawn way while 1-4 handlers wait; every call's messages and end are checked, the handlers of a disconnected client must end, one more client must be served, and the loop must go on until it is stopped; non-trivial: more than one client, with calls",
		Quick: 24000, Thorough: 400000,
		Gen: func(t *rapid.T) c21Case {
			var c c21Case
			var m int
			c.Clients, m = genMClients(t, rare(t, "big", 30), []string{"close", "fail", "cut"}, "calls", "calls", "calls", "idle", "silent", "garbage", "drop", "drop")
			c.T = genTCfg(t, m, "yamux")
			c.Conf = pick(t, "conf", "", "", "explicit")
			c.Stop = pick(t, "stop", "ctx", "lis")
			return c
		},
		Run: func(t *testing.T, c c21Case, in *vt.Info) error {
			mLabels(in, c.Clients)
			in.LabelIf(c.T.Sched.Prob > 0, "schedule perturbed")
			return bubble(t, c.T.Sched, true, func() error { return runC21(c) })
		},
	})
}
