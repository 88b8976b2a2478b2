package props

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
	"pgregory.net/rapid"
	"verif/harness/vt"
)

type c21Conn struct {
	T     TCfg   `json:"t"`
	Waits int    `json:"waits"`
	Cause string `json:"cause"`
	At    int    `json:"at"`
}

func TestC21_Conn(t *testing.T) {
	vt.Check(t, vt.Prop[c21Conn]{
		Rule:  "AcceptMuxedConn over a drawn multiplexed connection with 0-4 waiting calls, ended by its context (before the start, or while it runs), by closing either end or cutting the connection: the loop goes on before, then returns with an error (context.Canceled for the context), all handlers end and no goroutine is left; non-trivial: calls were running",
		Quick: 12000, Thorough: 300000,
		Gen: func(t *rapid.T) c21Conn {
			c := c21Conn{Waits: pick(t, "waits", 0, 1, 1, 2, 4), Cause: pick(t, "cause", "ctx", "ctx", "dead", "cclose", "sclose", "cut", "eof"), At: pick(t, "at", 0, 10, 500, 20000)}
			c.T = genTCfg(t, 16, "fake", "yamux", "rwc")
			return c
		},
		Run: func(t *testing.T, c c21Conn, in *vt.Info) error {
			in.Label("transport:"+c.T.Kind, "cause:"+c.Cause)
			return bubble(t, c.T.Sched, false, func() error { return runC21Conn(c, in) })
		},
	})
}

func runC21Conn(c c21Conn, in *vt.Info) error {
	var mu sync.Mutex
	started, ended := 0, 0
	inv := srpc.InvokerFunc(func(_, _ string, s srpc.Stream) (bool, error) {
		mu.Lock()
		started++
		mu.Unlock()
		<-s.Context().Done()
		mu.Lock()
		ended++
		mu.Unlock()
		return true, context.Canceled
	})
	w, err := NewWorld(c.T, inv)
	if err != nil {
		return err
	}
	defer w.Close()
	if c.Cause == "dead" {
		// another loop with a dead context does not accept anything.
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		if err := w.Server.AcceptMuxedConn(ctx, w.smux); err != context.Canceled {
			return fmt.Errorf("with a dead context the loop returned %v", err)
		}
	}
	var es errs
	var calls []<-chan struct{}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	call := func() {
		calls = append(calls, done(func() {
			if err := w.Client.ExecCall(ctx, "s", "m", raw(nil), raw(nil)); err == nil {
				es.add(errors.New("a call without result succeeded"))
			}
		}))
	}
	for range c.Waits {
		call()
	}
	sleepUs(c.At)
	select {
	case <-w.Accepted:
		return fmt.Errorf("the loop returned %v although nothing ended", w.AcceptErr)
	default:
	}
	mu.Lock()
	in.NonTrivial = started > 0
	mu.Unlock()
	switch c.Cause {
	case "ctx", "dead":
		w.SrvCtx.Cancel()
		call()
	case "cclose":
		_ = w.cmux.Close()
	case "sclose":
		_ = w.smux.Close()
	case "cut":
		w.Cut(errCut)
	case "eof":
		w.Cut(nil)
	}
	if err := vt.AwaitFor("the return of the accept loop after "+c.Cause, w.Accepted, time.Hour); err != nil {
		return err
	}
	if w.AcceptErr == nil {
		return fmt.Errorf("after %s the loop returned no error", c.Cause)
	}
	if (c.Cause == "ctx" || c.Cause == "dead") && !errors.Is(w.AcceptErr, context.Canceled) {
		return fmt.Errorf("after %s the loop returned %v", c.Cause, w.AcceptErr)
	}
	time.Sleep(time.Minute)
	mu.Lock()
	s, e := started, ended
	mu.Unlock()
	if s != e {
		return fmt.Errorf("%d of %d handlers run after %s", s-e, s, c.Cause)
	}
	w.Cut(errCut)
	for _, d := range calls {
		if err := vt.AwaitFor("the end of the calls after "+c.Cause, d, time.Hour); err != nil {
			return err
		}
	}
	return es.get()
}
