package props

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"testing"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
	"pgregory.net/rapid"
	"verif/harness/sched"
	"verif/harness/vt"
	"verif/harness/wire"
)

func TestC03_Ends(t *testing.T) {
	vt.Check(t, vt.Prop[streamCase]{
		Rule:  "1-3 streaming calls over a drawn transport and schedule, ending with or without an error, read with drawn delays (also long after the end); every message, then the end, read three times; non-trivial: the handler sends a message or ends with an error, or the caller half-closes",
		Quick: 40000, Thorough: 600000,
		Gen: func(t *rapid.T) streamCase { return genStreams(t, 1, 1, 1, 2, 3) },
		Run: func(t *testing.T, c streamCase, in *vt.Info) error {
			streamLabels(in, c.T, c.Calls)
			for _, s := range c.Calls {
				in.NonTrivial = in.NonTrivial || len(s.SSends) > 0 || s.Err != "" || s.CHalf
				in.LabelIf(s.CDelay >= 5000, "caller reads late")
			}
			return bubble(t, c.T.Sched, true, func() error {
				return runStreams(c.T, c.Calls, nil, func(i int, r *sRec, s *sCall) error {
					if err := r.checkMsgs(s); err != nil {
						return err
					}
					return r.checkEnds(s)
				})
			})
		},
	})
}

func TestC03_Short(t *testing.T) {
	vt.Check(t, vt.Prop[streamCase]{
		Rule:  "1-3 streaming calls cut short at a drawn time (connection cut cleanly or not, caller's context, close, server context) while messages flow both ways; every side receives a prefix and then, three times, the same end; non-trivial: a side received a message before its end",
		Quick: 40000, Thorough: 600000,
		Gen: func(t *rapid.T) streamCase {
			c := genStreams(t, 1, 1, 1, 2, 3)
			for i := range c.Calls {
				if c.Calls[i].Mode == "" || rapid.Bool().Draw(t, "all") {
					c.Calls[i].SReads = -1
				}
			}
			c.genCut(t)
			return c
		},
		Run: func(t *testing.T, c streamCase, in *vt.Info) error {
			streamLabels(in, c.T, c.Calls)
			in.Label("cut short by " + c.How)
			return bubble(t, c.T.Sched, true, func() error {
				return runStreams(c.T, c.Calls, func(w *World, recs []*sRec) error {
					cutShort(c.How, c.Cut, w, recs)
					return nil
				}, func(i int, r *sRec, s *sCall) error {
					r.lock(func() { in.NonTrivial = in.NonTrivial || len(r.SGot)+len(r.CGot) > 0 })
					return errors.Join(r.checkPrefix(s), r.checkSame())
				})
			})
		},
	})
}

// scriptCase is one stream between a real endpoint and a script that ends it.
type scriptCase struct {
	Side  string       `json:"side"` // the real endpoint: client, server
	Msgs  []Msg        `json:"msgs"`
	Last  *Msg         `json:"last,omitempty"` // data in the packet which ends the direction
	Err   string       `json:"err,omitempty"`
	Gap   int          `json:"gap,omitempty"`
	After []string     `json:"after"` // what comes after the final status
	AGap  int          `json:"agap,omitempty"`
	Read  int          `json:"read"` // delay before reading
	RGap  int          `json:"rgap,omitempty"`
	Out   wire.Plan    `json:"out"`
	In    wire.Plan    `json:"in"`
	Sched sched.Config `json:"sched"`
}

// frame encodes a packet with its length prefix.
func frame(p *srpc.Packet) []byte {
	b, err := p.MarshalVT()
	if err != nil {
		panic(err)
	}
	return append(binary.LittleEndian.AppendUint32(nil, uint32(len(b))), b...)
}

func dataPkt(b []byte) *srpc.Packet {
	return &srpc.Packet{Body: &srpc.Packet_CallData{CallData: &srpc.CallData{Data: b, DataIsZero: len(b) == 0}}}
}

func genScript(t *rapid.T) scriptCase {
	c := scriptCase{
		Side:  pick(t, "side", "client", "client", "client", "server"),
		Gap:   pick(t, "gap", 0, 0, 100, 3000),
		AGap:  pick(t, "agap", 0, 0, 1, 50, 5000),
		Read:  pick(t, "read", 0, 0, 10, 2000, 100000),
		RGap:  pick(t, "rgap", 0, 0, 100, 5000),
		Sched: genSched(t),
	}
	m := 0
	for range pick(t, "n", 0, 1, 1, 2, 3, 6) {
		g := genMsg(t, false, "msg")
		m = max(m, g.Len())
		c.Msgs = append(c.Msgs, g)
	}
	if rapid.IntRange(0, 2).Draw(t, "hasLast") == 0 {
		g := genMsg(t, false, "last")
		if g.Len() == 0 {
			g = Msg{L: []byte("z")}
		}
		m = max(m, g.Len())
		c.Last = &g
	}
	if c.Side == "client" && rapid.Bool().Draw(t, "hasErr") {
		c.Err = genErrText(t, "err")
	}
	for range pick(t, "nafter", 0, 1, 1, 1, 2, 3) {
		c.After = append(c.After, pick(t, "after", "eof", "eof", "reset", "error", "fail", "data", "complete", "errpkt", "cancel", "garbage", "start"))
	}
	c.Out, c.In = genPlan(t, m, "out"), genPlan(t, m, "in")
	c.Out.EOFWithData = rapid.Bool().Draw(t, "eofData")
	return c
}

func runScript(c scriptCase) error {
	a, b := wire.Pipe(c.In, c.Out) // b: the script
	var want [][]byte
	var out [][]byte // frames
	if c.Side == "server" {
		out = append(out, frame(srpc.NewCallStartPacket("s", "m", nil, false)))
	}
	for _, m := range c.Msgs {
		want = append(want, m.Bytes())
		out = append(out, frame(dataPkt(m.Bytes())))
	}
	last := &srpc.CallData{Complete: true, Error: c.Err}
	if c.Last != nil {
		last.Data = c.Last.Bytes()
		want = append(want, last.Data)
	}
	out = append(out, frame(&srpc.Packet{Body: &srpc.Packet_CallData{CallData: last}}))

	var got [][]byte
	var ends []error
	read := func(s srpc.Stream) {
		sleepUs(c.Read)
		for {
			m, err := recv(s)
			if err != nil {
				ends = append(ends, err)
				for _, d := range []int{0, 1000, 10000000} {
					sleepUs(d)
					_, err := recv(s)
					ends = append(ends, err)
				}
				return
			}
			got = append(got, m)
			sleepUs(c.RGap)
		}
	}
	script := func() {
		w := func(b2 []byte) {
			for len(b2) > 0 {
				n, err := b.Write(b2)
				if err != nil {
					return
				}
				b2 = b2[n:]
			}
		}
		for _, f := range out {
			w(f)
			sleepUs(c.Gap)
		}
		for _, x := range c.After {
			sleepUs(c.AGap)
			switch x {
			case "eof":
				_ = b.CloseWrite()
			case "reset":
				b.EndWith(wire.ErrReset)
			case "error":
				b.EndWith(errors.New("some transport error"))
			case "fail":
				// fails at once: first let the final status arrive.
				time.Sleep(time.Minute)
				b.Fail(wire.ErrReset)
			case "data":
				w(frame(dataPkt([]byte("late"))))
			case "complete":
				w(frame(srpc.NewCallDataPacket(nil, false, true, nil)))
			case "errpkt":
				w(frame(srpc.NewCallDataPacket(nil, false, true, errors.New("late error"))))
			case "cancel":
				w(frame(srpc.NewCallCancelPacket()))
			case "garbage":
				w([]byte{3, 0, 0, 0, 0xff, 0xff, 0xff})
			case "start":
				w(frame(srpc.NewCallStartPacket("x", "y", nil, false)))
			}
		}
	}
	go func() { _, _ = io.Copy(io.Discard, b) }()
	var fin <-chan struct{}
	if c.Side == "client" {
		cl := srpc.NewClient(func(ctx context.Context, mh srpc.PacketDataHandler, ch srpc.CloseHandler) (srpc.PacketWriter, error) {
			prw := srpc.NewPacketReadWriter(a)
			go prw.ReadPump(mh, ch)
			return prw, nil
		})
		strm, err := cl.NewStream(context.Background(), "s", "m", nil)
		if err != nil {
			return fmt.Errorf("NewStream: %w", err)
		}
		defer strm.Close()
		fin = done(func() { read(strm) })
	} else {
		ch := make(chan struct{})
		fin = ch
		srv := srpc.NewServer(srpc.InvokerFunc(func(_, _ string, s srpc.Stream) (bool, error) {
			defer close(ch)
			read(s)
			return true, nil
		}))
		go srv.HandleStream(context.Background(), a)
	}
	sd := done(script)
	if err := vt.Await("the end of the stream", fin); err != nil {
		return err
	}
	if err := vt.Await("the end of the script", sd); err != nil {
		return err
	}
	_ = b.Close()
	if !sameMsgs(got, want) {
		return fmt.Errorf("sent %s before the final status, received %s then %v", showAll(want), showAll(got), ends)
	}
	for i, e := range ends {
		if c.Err == "" && e != io.EOF || c.Err != "" && errText(e) != c.Err {
			w := c.Err
			if w == "" {
				w = "io.EOF"
			}
			return fmt.Errorf("receive %d at the end reported %q, the final status was %q; all: %q", i+1, errText(e), w, ends)
		}
	}
	return nil
}

func TestC03_Script(t *testing.T) {
	vt.Check(t, vt.Prop[scriptCase]{
		Rule:  "a client (or server) endpoint against a script which sends 0-7 messages and a final status, then late packets and/or ends the transport (EOF, reset, error, sudden failure); the endpoint reads at a drawn time and reads the end four times; non-trivial: something follows the final status",
		Quick: 40000, Thorough: 600000,
		Gen: genScript,
		Run: func(t *testing.T, c scriptCase, in *vt.Info) error {
			in.NonTrivial = len(c.After) > 0
			in.Label("real " + c.Side)
			for _, a := range c.After {
				in.Label("after: " + a)
			}
			in.LabelIf(c.Err != "", "error status")
			in.LabelIf(c.Last != nil, "final packet with data")
			in.LabelIf(c.Read >= 2000, "late reader")
			return bubble(t, c.Sched, true, func() error { return runScript(c) })
		},
	})
}
