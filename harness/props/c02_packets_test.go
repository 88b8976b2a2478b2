package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"sync"
	"testing"

	"github.com/aperturerobotics/starpc/srpc"
	"pgregory.net/rapid"
	"verif/harness/sched"
	"verif/harness/vt"
)

// wop is a sending operation.
type wop struct {
	K        string `json:"k"` // data, msg, bad, half, close
	M        Msg    `json:"m"`
	Complete bool   `json:"complete,omitempty"`
	Err      string `json:"err,omitempty"`
	Fail     bool   `json:"fail,omitempty"` // the write fails
}

type c02Packets struct {
	Side  string       `json:"side"` // client, server, rw
	First *Msg         `json:"first,omitempty"`
	Ops   []wop        `json:"ops"`
	Err   string       `json:"err,omitempty"` // the handler's result (server)
	Sched sched.Config `json:"sched"`
}

// sentPkt is what a packet means to the receiver.
type sentPkt struct {
	Start  string
	Cancel bool
	Has    bool
	Data   []byte
	End    bool
	Err    string
}

func meaning(p *srpc.Packet) sentPkt {
	switch b := p.GetBody().(type) {
	case *srpc.Packet_CallStart:
		d := b.CallStart
		return sentPkt{Start: d.GetRpcService() + "\x00" + d.GetRpcMethod(), Has: len(d.GetData()) > 0 || d.GetDataIsZero(), Data: bytes.Clone(d.GetData())}
	case *srpc.Packet_CallData:
		d := b.CallData
		return sentPkt{Has: len(d.GetData()) > 0 || d.GetDataIsZero(), Data: bytes.Clone(d.GetData()), End: d.GetComplete() || d.GetError() != "", Err: d.GetError()}
	case *srpc.Packet_CallCancel:
		return sentPkt{Cancel: b.CallCancel}
	}
	return sentPkt{}
}

func (a sentPkt) same(b sentPkt) bool {
	return a.Start == b.Start && a.Cancel == b.Cancel && a.Has == b.Has && bytes.Equal(a.Data, b.Data) && a.End == b.End && a.Err == b.Err
}

// meanWriter records what packets mean.
type meanWriter struct {
	mu     sync.Mutex
	pkts   []sentPkt
	closed int
	fail   bool
	bad    error
}

var errWrite = errors.New("write failed")

func (w *meanWriter) WritePacket(p *srpc.Packet) error {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.fail {
		return errWrite
	}
	// like a transport: only valid packets, encoded
	b, err := p.MarshalVT()
	q := &srpc.Packet{}
	if err == nil {
		err = q.UnmarshalVT(b)
	}
	if err == nil {
		err = q.Validate()
	}
	if err != nil && w.bad == nil {
		w.bad = fmt.Errorf("wrote an invalid packet %v: %w", p, err)
	}
	w.pkts = append(w.pkts, meaning(q))
	return nil
}

// sync waits for calls which have begun.
func (w *meanWriter) sync() {
	w.mu.Lock()
	defer w.mu.Unlock()
}

func (w *meanWriter) Close() error {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.closed++
	return nil
}

// meanRw is a message stream's lower side.
type meanRw struct {
	w   *meanWriter
	in  [][]byte
	end error
}

func (r *meanRw) ReadOne() ([]byte, error) {
	if len(r.in) == 0 {
		return nil, r.end
	}
	b := r.in[0]
	r.in = r.in[1:]
	return b, nil
}

func (r *meanRw) WriteCallData(data []byte, complete bool, err error) error {
	return r.w.WritePacket(srpc.NewCallDataPacket(data, len(data) == 0 && !complete && err == nil, complete, err))
}

func (r *meanRw) WriteCallCancel() error { return r.w.WritePacket(srpc.NewCallCancelPacket()) }

func TestC02_Packets(t *testing.T) {
	vt.Check(t, vt.Prop[c02Packets]{
		Rule:  "the packets which a client rpc, a server rpc and a message stream write for a drawn first message and 0-7 drawn sends (messages incl. empty ones, messages that cannot be marshalled, WriteCallData with any combination of data, completion and error, half-close, close, failing writes) compared with what each operation means; non-trivial: an empty message, a completion or a failure",
		Quick: 40000, Thorough: 1000000,
		Gen: func(t *rapid.T) c02Packets {
			c := c02Packets{Side: pick(t, "side", "client", "server", "rw"), Sched: sched.Config{}}
			if rapid.Bool().Draw(t, "hasFirst") {
				m := genMsg(t, false, "first")
				c.First = &m
			}
			for range rapid.IntRange(0, 7).Draw(t, "n") {
				o := wop{K: pick(t, "k", "data", "data", "msg", "msg", "msg", "bad", "half"), M: genMsg(t, false, "m"), Fail: rapid.IntRange(0, 9).Draw(t, "fail") == 0}
				if o.K == "data" {
					o.Complete = rapid.IntRange(0, 2).Draw(t, "complete") == 0
					if rapid.IntRange(0, 2).Draw(t, "e") == 0 {
						o.Err = genErrText(t, "err")
					}
				}
				c.Ops = append(c.Ops, o)
			}
			if rapid.Bool().Draw(t, "close") {
				c.Ops = append(c.Ops, wop{K: "close"})
			}
			if rapid.IntRange(0, 2).Draw(t, "e") == 0 {
				c.Err = genErrText(t, "err")
			}
			return c
		},
		Run: func(t *testing.T, c c02Packets, in *vt.Info) error {
			in.Label("side: " + c.Side)
			for _, o := range c.Ops {
				in.NonTrivial = in.NonTrivial || o.M.Len() == 0 || o.K != "msg" || o.Fail
			}
			return bubble(t, c.Sched, false, func() error { return runC02Packets(c) })
		},
	})
}

func runC02Packets(c c02Packets) error {
	w := &meanWriter{}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var want []sentPkt
	var es errs
	closes := 0
	run := func(s srpc.Stream, rw srpc.MsgStreamRw) {
		for i, o := range c.Ops {
			w.fail = o.Fail
			var err error
			exp := ""
			if o.Fail {
				exp = errWrite.Error()
			}
			p := sentPkt{}
			switch o.K {
			case "data":
				var e error
				if o.Err != "" {
					e = errors.New(o.Err)
				}
				d := o.M.Bytes()
				p = sentPkt{Has: len(d) > 0 || !o.Complete && e == nil, Data: d, End: o.Complete || e != nil, Err: o.Err}
				err = rw.WriteCallData(d, o.Complete, e)
				if c.Side == "client" && o.Fail && len(d) == 0 && o.Complete && e == nil {
					exp = "*" // completing an ended call may succeed
				}
			case "msg":
				p = sentPkt{Has: true, Data: o.M.Bytes()}
				err = send(s, o.M.Bytes())
			case "bad":
				err = s.MsgSend(badMsg{raw(nil)})
				exp = "bad message"
			case "half":
				p = sentPkt{End: true}
				err = s.CloseSend()
				if o.Fail && c.Side == "client" {
					exp = "*"
				}
			case "close":
				p = sentPkt{Cancel: true}
				_ = s.Close()
				if c.Side == "rw" && closes != 1 {
					es.add(fmt.Errorf("the close callback ran %d times", closes))
				}
			}
			w.fail = false
			if exp == "" {
				want = append(want, p)
			}
			if exp != "*" && errTextOr(err) != exp {
				es.add(fmt.Errorf("operation %d (%s): result %q, want %q", i, o.K, errText(err), exp))
			}
		}
	}
	start := "s\x00m"
	switch c.Side {
	case "client":
		r := srpc.NewClientRPC(ctx, "s", "m")
		var first []byte
		if c.First != nil {
			first = c.First.Bytes()
		}
		if err := r.Start(w, c.First != nil, first); err != nil {
			return fmt.Errorf("Start: %w", err)
		}
		want = append(want, sentPkt{Start: start, Has: c.First != nil, Data: first})
		run(srpc.NewMsgStream(r.Context(), r, r.Close), r)
		closed := len(c.Ops) > 0 && c.Ops[len(c.Ops)-1].K == "close"
		if closed {
			// a second cancel is harmless.
			for len(w.pkts) > len(want) && w.pkts[len(w.pkts)-1].Cancel {
				w.pkts = w.pkts[:len(w.pkts)-1]
			}
			w.sync()
			if w.closed == 0 {
				return errors.New("the stream was closed, its writer was not")
			}
		}
		got := w.pkts
		r.Close()
		w.pkts = got
	case "server":
		fin := make(chan struct{})
		var r *srpc.ServerRPC
		r = srpc.NewServerRPC(ctx, srpc.InvokerFunc(func(_, _ string, s srpc.Stream) (bool, error) {
			defer close(fin)
			if c.First != nil {
				b, err := recv(s)
				if err != nil || !bytes.Equal(b, c.First.Bytes()) {
					es.add(fmt.Errorf("the first message is %s (%v), sent %s", show(b), err, show(c.First.Bytes())))
				}
			}
			run(s, r)
			if c.Err != "" {
				return true, errors.New(c.Err)
			}
			return true, nil
		}), w)
		var first []byte
		if c.First != nil {
			first = c.First.Bytes()
		}
		if err := r.HandlePacket(srpc.NewCallStartPacket("s", "m", first, c.First != nil && len(first) == 0)); err != nil {
			return fmt.Errorf("HandlePacket: %w", err)
		}
		if err := vt.Await("the handler", fin); err != nil {
			return err
		}
		sleepUs(60000000)
		w.sync()
		if n := len(want); n > 0 && want[n-1].Cancel && len(w.pkts) == n {
			// nothing needs to follow a cancel.
		} else {
			want = append(want, sentPkt{End: true, Err: c.Err})
		}
		if w.closed == 0 {
			return errors.New("the handler returned, the writer was not closed")
		}
	default:
		rw := &meanRw{w: w, end: io.EOF}
		if c.Err != "" {
			rw.end = errors.New(c.Err)
		}
		var in [][]byte
		for _, o := range c.Ops {
			in = append(in, o.M.Bytes())
		}
		rw.in = append([][]byte{}, in...)
		s := srpc.NewMsgStream(ctx, rw, func() { closes++ })
		if s.Context() != ctx {
			return errors.New("the context is another one")
		}
		run(s, rw)
		for i := range len(in) {
			b, err := recv(s)
			if err != nil || !bytes.Equal(b, in[i]) {
				return fmt.Errorf("receive %d gave %s (%v), want %s", i, show(b), err, show(in[i]))
			}
		}
		if _, err := recv(s); err != rw.end {
			return fmt.Errorf("the end is %v, want %v", err, rw.end)
		}
		cancel()
		if err := send(s, []byte("late")); err == nil {
			return errors.New("sending succeeded although the context is cancelled")
		}
	}
	if err := es.get(); err != nil {
		return err
	}
	w.sync()
	if w.bad != nil {
		return w.bad
	}
	for i := range max(len(want), len(w.pkts)) {
		switch {
		case i >= len(want):
			return fmt.Errorf("wrote %d packets, want %d; more: %+v", len(w.pkts), len(want), w.pkts[i])
		case i >= len(w.pkts):
			return fmt.Errorf("wrote %d packets, want %d; missing: %+v", len(w.pkts), len(want), want[i])
		case !w.pkts[i].same(want[i]):
			return fmt.Errorf("packet %d means %+v, want %+v", i, w.pkts[i], want[i])
		}
	}
	return nil
}
