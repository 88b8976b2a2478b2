package props

import (
	"context"
	"fmt"
	"io"
	"net"
	"testing"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
	"pgregory.net/rapid"
	"verif/harness/vt"
)

// openingCase is a call which is cancelled while its stream cannot be opened yet: the remote
// accepts none and the muxer has as many unaccepted as it may.
type openingCase struct {
	Backlog int    `json:"backlog"`
	At      int    `json:"at"` // ms, 0: before
	How     string `json:"how"`
	Stream  bool   `json:"stream"`
}

func runOpening(c openingCase) error {
	a, b := net.Pipe()
	defer a.Close()
	defer b.Close()
	go func() { _, _ = io.Copy(io.Discard, b) }()
	conf := srpc.NewYamuxConfig()
	conf.AcceptBacklog = c.Backlog
	mc, err := srpc.NewMuxedConn(a, true, conf)
	if err != nil {
		return err
	}
	defer mc.Close()
	client := srpc.NewClientWithMuxedConn(mc)
	other, cancelOther := context.WithCancel(context.Background())
	defer cancelOther()
	for range c.Backlog {
		if _, err := client.NewStream(other, "s", "m", nil); err != nil {
			return err
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	at := time.Duration(c.At) * time.Millisecond
	if c.How == "deadline" {
		ctx, cancel = context.WithTimeout(ctx, at)
		defer cancel()
	} else if at == 0 {
		cancel()
	} else {
		time.AfterFunc(at, cancel)
	}
	var strm srpc.Stream
	start := time.Now()
	var took time.Duration
	nd := done(func() {
		if c.Stream {
			strm, err = client.NewStream(ctx, "s", "m", nil)
		} else {
			err = client.ExecCall(ctx, "s", "m", raw([]byte("x")), raw(nil))
		}
		took = time.Since(start)
	})
	select {
	case <-nd:
	case <-time.After(at + 30*time.Second):
		return fmt.Errorf("the call was cancelled after %v while its stream was being opened, it has not ended", at)
	}
	if err != context.Canceled {
		return fmt.Errorf("the call was cancelled (%s) after %v while its stream was being opened, its error: %v", c.How, at, err)
	}
	if strm != nil {
		return fmt.Errorf("a stream was returned with the error %v", err)
	}
	if took != at {
		return fmt.Errorf("the call was cancelled after %v while its stream was being opened, it ended after %v", at, took)
	}
	return nil
}

func TestC05_Opening(t *testing.T) {
	vt.Check(t, vt.Prop[openingCase]{
		Rule:  "a call which is cancelled, or has a deadline, while its stream cannot be opened as the remote accepts none: it ends then with context.Canceled; non-trivial: all",
		Quick: 1000, Thorough: 10000,
		Gen: func(t *rapid.T) openingCase {
			return openingCase{
				Backlog: rapid.IntRange(1, 5).Draw(t, "backlog"),
				At:      rapid.IntRange(0, 5000).Draw(t, "at"),
				How:     pick(t, "how", "cancel", "deadline"),
				Stream:  rapid.Bool().Draw(t, "stream"),
			}
		},
		Run: func(t *testing.T, c openingCase, in *vt.Info) error {
			in.NonTrivial = true
			in.Label(c.How)
			return vt.Bubble(t, true, func() error {
				err := runOpening(c)
				time.Sleep(time.Minute)
				return err
			})
		},
	})
}
