package props

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"io"
	"testing"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
	"pgregory.net/rapid"
	"verif/harness/vt"
)

// floodCase is a call with many messages which wait for a slow receiver.
type floodCase struct {
	T    TCfg `json:"t"`
	Up   int  `json:"up"`   // messages from the caller
	Down int  `json:"down"` // messages from the handler
	Size int  `json:"size"`
	Late int  `json:"late"` // the receivers begin after this time
	Err  bool `json:"err,omitempty"`
	Both bool `json:"both,omitempty"` // both directions at once
}

func floodMsg(i, size int) []byte {
	if i%7 == 3 {
		return nil
	}
	b := binary.AppendUvarint(nil, uint64(i))
	return append(b, bytes.Repeat([]byte{byte(i)}, size)...)
}

func floodSend(s srpc.Stream, n, size int) error {
	for i := range n {
		if err := send(s, floodMsg(i, size)); err != nil {
			return fmt.Errorf("sending message %d of %d: %w", i, n, err)
		}
	}
	return nil
}

// floodRecv receives n messages and the end.
func floodRecv(s srpc.Stream, n, size, late int, end string) error {
	sleepUs(late)
	for i := range n {
		b, err := recv(s)
		if err != nil {
			return fmt.Errorf("receiving message %d of %d: %w", i, n, err)
		}
		if want := floodMsg(i, size); !bytes.Equal(b, want) {
			return fmt.Errorf("message %d of %d is %s, want %s", i, n, show(b), show(want))
		}
	}
	if end == "" {
		return nil
	}
	if _, err := recv(s); err == nil || err.Error() != end {
		return fmt.Errorf("after all %d messages: %v, want %q", n, err, end)
	}
	return nil
}

func runFlood(c floodCase) error {
	end := io.EOF.Error()
	var hend error
	if c.Err {
		hend = fmt.Errorf("handler failed")
		end = hend.Error()
	}
	var es errs
	h := &handler{svc: "s", mets: []string{"m"}, fn: func(_, _ string, strm srpc.Stream) (bool, error) {
		if !c.Both {
			es.add(floodRecv(strm, c.Up, c.Size, c.Late, "EOF"))
			es.add(floodSend(strm, c.Down, c.Size))
			return true, hend
		}
		d := done(func() { es.add(floodRecv(strm, c.Up, c.Size, c.Late, "EOF")) })
		es.add(floodSend(strm, c.Down, c.Size))
		<-d
		return true, hend
	}}
	mux := srpc.NewMux()
	if err := mux.Register(h); err != nil {
		return vt.Infra(err)
	}
	w, err := NewWorld(c.T, mux)
	if err != nil {
		return err
	}
	defer w.Close()
	all := done(func() {
		strm, err := w.Client.NewStream(context.Background(), "s", "m", nil)
		if err != nil {
			es.add(fmt.Errorf("NewStream: %w", err))
			return
		}
		defer func() { _ = strm.Close() }()
		rd := done(func() { es.add(floodRecv(strm, c.Down, c.Size, 2*c.Late, end)) })
		es.add(floodSend(strm, c.Up, c.Size))
		es.add(strm.CloseSend())
		<-rd
	})
	if err := vt.AwaitFor("the end of the call", all, 3*time.Hour); err != nil {
		return err
	}
	return es.get()
}

func TestC02_Flood(t *testing.T) {
	vt.Check(t, vt.Prop[floodCase]{
		Rule:  "one call with 0-70000 numbered messages in each direction (one after the other or at once) which wait, as far as the transport lets them, for receivers that begin 0-60 s late; every message and the end must arrive in order; non-trivial: more than 1000 messages in one direction",
		Quick: 240, Thorough: 6000,
		Gen: func(t *rapid.T) floodCase {
			n := func(l string) int {
				return pick(t, l, 0, 1, 1000, 1100, 2100, 5000, 17000) + rapid.IntRange(0, 50).Draw(t, l+"x")
			}
			c := floodCase{Up: n("up"), Down: n("down"), Size: pick(t, "size", 0, 1, 10, 100), Late: pick(t, "late", 0, 100, 10000, 1000000, 60000000), Err: rapid.Bool().Draw(t, "err"), Both: rapid.Bool().Draw(t, "both")}
			if rare(t, "many", 40) {
				c.Up, c.Size = 70000, 0
			}
			c.T = genTCfg(t, 100)
			// the chunks of many bytes.
			c.T.Out.Short, c.T.In.Short = 0, 0
			c.T.Sched.Prob = 0
			return c
		},
		Run: func(t *testing.T, c floodCase, in *vt.Info) error {
			in.NonTrivial = max(c.Up, c.Down) > 1000
			in.Label("transport:" + c.T.Kind)
			in.LabelIf(c.Both, "both directions at once")
			in.LabelIf(c.Late > 100000, "receivers begin late")
			return bubble(t, c.T.Sched, true, func() error { return runFlood(c) })
		},
	})
}
