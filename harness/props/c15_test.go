package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"sync"
	"testing"
	"time"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
	"pgregory.net/rapid"
	"verif/harness/vt"
)

// pkt is a packet of a nested-call stream.
type pkt struct {
	K string `json:"k"` // data, ack, init, none
	M Msg    `json:"m"`
	T string `json:"t,omitempty"` // error text of an ack, component ID of an init
}

func (p pkt) packet() *rpcstream.RpcStreamPacket {
	switch p.K {
	case "data":
		return &rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Data{Data: p.M.Bytes()}}
	case "ack":
		return &rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Ack{Ack: &rpcstream.RpcAck{Error: p.T}}}
	case "init":
		return &rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Init{Init: &rpcstream.RpcStreamInit{ComponentId: p.T}}}
	}
	return &rpcstream.RpcStreamPacket{}
}

// script is a stream whose incoming messages and faults are given.
type script struct {
	ctx    context.Context
	in     [][]byte // what it receives
	end    error    // and then
	failAt int      // the send (counted from 0) that fails with sendErr; -1: none
	serr   error

	mu     sync.Mutex
	recvs  int
	sent   [][]byte
	closes int
	halfs  int
}

func (s *script) Context() context.Context { return s.ctx }
func (s *script) MsgSend(m srpc.Message) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	b, err := m.MarshalVT()
	if err != nil {
		return err
	}
	if len(s.sent) == s.failAt {
		return s.serr
	}
	s.sent = append(s.sent, b)
	return nil
}
func (s *script) MsgRecv(m srpc.Message) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	i := s.recvs
	s.recvs++
	if i < len(s.in) {
		return m.UnmarshalVT(bytes.Clone(s.in[i]))
	}
	return s.end
}
func (s *script) CloseSend() error { s.mu.Lock(); s.halfs++; s.mu.Unlock(); return nil }
func (s *script) Close() error     { s.mu.Lock(); s.closes++; s.mu.Unlock(); return nil }

type c15Case struct {
	Ad     string `json:"ad"` // stream, rpc, pump, writer
	In     []pkt  `json:"in"`
	End    string `json:"end,omitempty"` // "": EOF
	Reads  []int  `json:"reads"`
	Writes []Msg  `json:"writes"`
	Fail   int    `json:"fail"`
	HErr   int    `json:"herr"` // pump: the handler call that fails (-1: none)
}

func TestC15_Model(t *testing.T) {
	vt.Check(t, vt.Prop[c15Case]{
		Rule:  "an adapter (StreamRwc, RpcStreamReadWriter, RpcStreamWriter, the read pump) over a scripted stream with 0-12 messages (empty ones, and acks, inits and empty packets for nested-call streams), then EOF or an error, read with random buffer sizes; 0-8 writes whose buffers are overwritten afterwards, one of which may fail; bytes read, ends, counts and bytes sent compared with the script; non-trivial: at least two messages with content, and a read smaller than a message or an empty message",
		Quick: 80000, Thorough: 2500000,
		Gen: func(t *rapid.T) c15Case {
			c := c15Case{Ad: pick(t, "ad", "stream", "stream", "rpc", "rpc", "rpc", "pump", "writer"), Fail: -1, HErr: -1}
			for range rapid.IntRange(0, 12).Draw(t, "n") {
				p := pkt{K: "data"}
				if c.Ad != "stream" && rapid.IntRange(0, 5).Draw(t, "special") == 0 {
					p.K = pick(t, "k", "ack", "init", "none")
					if p.K == "init" || rare(t, "ackErr", 4) {
						p.T = genErrText(t, "t")
					}
				} else {
					p.M = genMsg(t, false, "m")
				}
				c.In = append(c.In, p)
			}
			if rapid.Bool().Draw(t, "endErr") {
				c.End = genErrText(t, "end")
			}
			for range rapid.IntRange(1, 6).Draw(t, "nr") {
				c.Reads = append(c.Reads, pick(t, "r", 0, 1, 1, 2, 3, 5, 8, 13, 100, 1000, 2048, 5000, 20000))
			}
			for range rapid.IntRange(0, 8).Draw(t, "nw") {
				c.Writes = append(c.Writes, genMsg(t, false, "w"))
			}
			if len(c.Writes) > 0 && rare(t, "wfail", 4) {
				c.Fail = rapid.IntRange(0, len(c.Writes)-1).Draw(t, "fail")
			}
			if c.Ad == "pump" && rare(t, "herr", 3) {
				c.HErr = rapid.IntRange(0, 5).Draw(t, "herrAt")
			}
			return c
		},
		Run: runC15,
	})
}

var errHandler = errors.New("handler failed")

func runC15(_ *testing.T, c c15Case, in *vt.Info) error {
	in.Label("adapter:" + c.Ad)
	s := &script{ctx: context.Background(), end: io.EOF, failAt: c.Fail, serr: errors.New("send failed")}
	if c.End != "" {
		s.end = errors.New(c.End)
	}
	var want []byte // what must be read
	wantEnd := s.end
	ackErr := false
	empty, full, big := false, 0, 0
	var chunks [][]byte
	for _, p := range c.In {
		if c.Ad == "stream" {
			s.in = append(s.in, p.M.Bytes())
		} else {
			b, err := p.packet().MarshalVT()
			if err != nil {
				return vt.Infra(err)
			}
			s.in = append(s.in, b)
		}
		if ackErr {
			continue
		}
		switch {
		case p.K == "data":
			want = append(want, p.M.Bytes()...)
			if p.M.Len() > 0 {
				chunks = append(chunks, p.M.Bytes())
				full++
				big = max(big, p.M.Len())
			} else {
				empty = true
			}
		case p.K == "ack" && p.T != "" && c.Ad == "rpc":
			ackErr = true
			wantEnd = errors.New(p.T)
		}
	}
	in.LabelIf(empty, "empty message")
	in.LabelIf(ackErr, "ends with an error ack")
	in.LabelIf(c.End != "", "ends with an error")
	in.NonTrivial = full >= 2 && empty

	// reading
	var rwc io.ReadWriteCloser
	var w io.Writer
	switch c.Ad {
	case "stream":
		rwc = srpc.NewStreamRwc(s)
	case "rpc":
		rwc = rpcstream.NewRpcStreamReadWriter(rstrm{s})
	case "writer":
		w = rpcstream.NewRpcStreamWriter(rstrm{s})
	case "pump":
		var got [][]byte
		var ends []error
		rpcstream.ReadPump(rstrm{s}, func(b []byte) error {
			if len(got) == c.HErr {
				return errHandler
			}
			got = append(got, bytes.Clone(b))
			return nil
		}, func(err error) { ends = append(ends, err) })
		if c.HErr >= 0 && c.HErr < len(chunks) {
			chunks, wantEnd = chunks[:c.HErr], errHandler
			in.Label("packet handler fails")
		}
		if !sameMsgs(got, chunks) {
			return fmt.Errorf("the read pump delivered %s, want %s", showAll(got), showAll(chunks))
		}
		if len(ends) != 1 || errText(ends[0]) != errText(wantEnd) {
			return fmt.Errorf("the read pump reported the ends %v, want %v once", ends, wantEnd)
		}
		in.NonTrivial = full >= 2
		return nil
	}
	if rwc != nil {
		w = rwc
		var got []byte
		var end error
		stuck := 0
		small := false
		for i := 0; end == nil; i++ {
			n := c.Reads[i%len(c.Reads)]
			if n == 0 {
				if stuck++; stuck > len(c.Reads) {
					n = 7 // all sizes are zero
				}
			}
			if n < big/300 {
				n = big / 300
			}
			small = small || n < big
			// the reader may only touch its buffer.
			buf := bytes.Repeat([]byte{0xcc}, n+3)
			k, err := rwc.Read(buf[:n:n])
			if k < 0 || k > n {
				return fmt.Errorf("Read of %d bytes returned %d", n, k)
			}
			if !bytes.Equal(buf[n:], []byte{0xcc, 0xcc, 0xcc}) {
				return errors.New("Read wrote past its buffer")
			}
			if k == 0 && err == nil && n > 0 {
				return fmt.Errorf("Read of %d bytes returned 0 bytes and no error after %d bytes", n, len(got))
			}
			got = append(got, buf[:k]...)
			end = err
			if len(got) > len(want) {
				break
			}
		}
		if !bytes.Equal(got, want) {
			return fmt.Errorf("read %s (then %v), the messages contain %s", show(got), end, show(want))
		}
		if errText(end) != errText(wantEnd) || (wantEnd == io.EOF && end != io.EOF) {
			return fmt.Errorf("reading ended with %q, want %q", errText(end), errText(wantEnd))
		}
		in.LabelIf(small, "reads smaller than a message")
		in.NonTrivial = full >= 2 && (empty || small)
	}

	// writing
	var wrote []byte
	sends := 0
	for i, m := range c.Writes {
		b := withCap(m.Bytes(), 3)
		before := len(s.sent)
		n, err := w.Write(b)
		if !bytes.Equal(b, m.Bytes()) {
			return fmt.Errorf("write %d changed its buffer", i)
		}
		for j := range b {
			b[j] ^= 0x5a // the buffer is the caller's again
		}
		if err != nil {
			if c.Fail < 0 || len(s.sent) != c.Fail {
				return fmt.Errorf("write %d failed: %w", i, err)
			}
			if errText(err) != errText(s.serr) {
				return fmt.Errorf("write %d reported %q, sending failed with %q", i, err, s.serr)
			}
			if n != 0 && n >= len(b) {
				return fmt.Errorf("write %d failed but reported %d of %d bytes", i, n, len(b))
			}
			if len(s.sent) == before && n != 0 {
				return fmt.Errorf("write %d sent nothing but reported %d bytes", i, n)
			}
			in.Label("write fails")
			break
		}
		if n != len(b) {
			return fmt.Errorf("write %d reported %d of %d bytes", i, n, len(b))
		}
		wrote = append(wrote, m.Bytes()...)
		sends++
	}
	var sent []byte
	for i, b := range s.sent {
		if c.Ad != "stream" {
			p := &rpcstream.RpcStreamPacket{}
			if err := p.UnmarshalVT(b); err != nil {
				return fmt.Errorf("sent packet %d does not decode: %w", i, err)
			}
			if _, ok := p.GetBody().(*rpcstream.RpcStreamPacket_Data); !ok {
				return fmt.Errorf("sent packet %d is %T, want data", i, p.GetBody())
			}
			b = p.GetData()
		}
		sent = append(sent, b...)
	}
	if !bytes.Equal(sent, wrote) {
		return fmt.Errorf("wrote %s, sent %s", show(wrote), show(sent))
	}
	if c.Ad == "writer" {
		in.NonTrivial = sends >= 2
	}

	// closing
	if s.closes != 0 {
		return errors.New("the stream was closed by the adapter")
	}
	if rwc != nil {
		if err := rwc.Close(); err != nil {
			return fmt.Errorf("Close: %w", err)
		}
		if s.closes != 1 {
			return fmt.Errorf("closing the adapter closed the stream %d times", s.closes)
		}
	}
	return nil
}

// c15Live has byte streams over the two ends of a live message stream.
type c15Live struct {
	Over   string `json:"over"` // pair, call, rpc
	T      TCfg   `json:"t"`
	A      []Msg  `json:"a"`
	B      []Msg  `json:"b"`
	Ping   bool   `json:"ping"` // each side answers the other's write
	ARead  int    `json:"aread"`
	BRead  int    `json:"bread"`
	Err    string `json:"err,omitempty"`
	AGap   int    `json:"agap,omitempty"`
	BDelay int    `json:"bdelay,omitempty"`
}

func TestC15_Live(t *testing.T) {
	vt.Check(t, vt.Prop[c15Live]{
		Rule:  "both ends of a live message stream (an in-memory pair, or a call over a generated transport, as plain or as nested-call stream) wrapped as byte streams; both sides write 0-10 chunks, at once or in turns (each waits for the other's chunk), and read to the end with random buffer sizes; non-trivial: both sides write",
		Quick: 12000, Thorough: 400000,
		Gen: func(t *rapid.T) c15Live {
			c := c15Live{
				Over: pick(t, "over", "pair", "call", "call", "rpc"), Ping: rapid.Bool().Draw(t, "ping"),
				ARead: pick(t, "aread", 1, 3, 10, 100, 4096), BRead: pick(t, "bread", 1, 3, 10, 100, 4096),
				AGap: pick(t, "agap", 0, 0, 500), BDelay: pick(t, "bdelay", 0, 0, 20000),
			}
			mx := 0
			gen := func(l string) (out []Msg) {
				for range rapid.IntRange(0, 10).Draw(t, l+"n") {
					m := genMsg(t, false, l)
					if c.Ping && c.Over == "pair" && m.Len() == 0 {
						m = Msg{L: []byte{1}} // the pair holds 5 messages
					}
					mx = max(mx, m.Len())
					out = append(out, m)
				}
				return out
			}
			c.A, c.B = gen("a"), gen("b")
			c.ARead, c.BRead = max(c.ARead, mx/64), max(c.BRead, mx/64)
			if c.Over == "pair" {
				c.T = TCfg{Sched: genSched(t)}
			} else {
				c.T = genTCfg(t, mx)
				if rapid.IntRange(0, 2).Draw(t, "he") == 0 {
					c.Err = genErrText(t, "err")
				}
			}
			return c
		},
		Run: func(t *testing.T, c c15Live, in *vt.Info) error {
			return bubble(t, c.T.Sched, true, func() error { return runC15Live(c, in) })
		},
	})
}

func runC15Live(c c15Live, in *vt.Info) error {
	in.Label("over:" + c.Over)
	in.LabelIf(c.Ping, "in turns")
	in.NonTrivial = len(c.A) > 0 && len(c.B) > 0
	wrap := func(s srpc.Stream) io.ReadWriteCloser {
		if c.Over == "rpc" {
			return rpcstream.NewRpcStreamReadWriter(rstrm{s})
		}
		return srpc.NewStreamRwc(s)
	}
	cat := func(ms []Msg) (out []byte) {
		for _, m := range ms {
			out = append(out, m.Bytes()...)
		}
		return out
	}
	// side writes mine and reads the other's until the end; it half-closes
	// (the caller) or returns (the handler) after its writes.
	var es errs
	var ends [2]error
	side := func(k int, s srpc.Stream, mine, theirs []Msg, rsize, gap, delay int, half bool) {
		rw := wrap(s)
		who := [2]string{"caller", "handler"}[k]
		var got []byte
		write := func(i int) bool {
			sleepUs(gap)
			b := mine[i].Bytes()
			n, err := rw.Write(b)
			for j := range b {
				b[j] ^= 0x5a
			}
			if err != nil || n != len(b) {
				es.add(fmt.Errorf("%s: write %d of %d bytes: %d, %v", who, i, len(b), n, err))
				return false
			}
			return true
		}
		rbuf := make([]byte, rsize)
		read := func() bool {
			n, err := rw.Read(rbuf)
			got = append(got, rbuf[:n]...)
			if n == 0 && err == nil {
				es.add(fmt.Errorf("%s: read returned nothing and no error", who))
				return false
			}
			ends[k] = err
			return err == nil
		}
		finish := func() {
			if half {
				if err := s.CloseSend(); err != nil {
					es.add(fmt.Errorf("%s: CloseSend: %w", who, err))
				}
			}
		}
		sleepUs(delay)
		if c.Ping {
			upto := 0
			for i := 0; i < max(len(mine), len(theirs)); i++ {
				if k == 0 && i < len(mine) && !write(i) {
					break
				}
				if i < len(theirs) {
					upto += theirs[i].Len()
				}
				for len(got) < upto && read() {
				}
				if len(got) < upto {
					break
				}
				if k == 1 && i < len(mine) && !write(i) {
					break
				}
			}
			finish()
		} else {
			d := done(func() {
				for i := range mine {
					if !write(i) {
						break
					}
				}
				finish()
			})
			if k == 1 {
				defer func() { <-d }()
			} else {
				defer vt.Await("the caller's writes", d)
			}
		}
		for ends[k] == nil && read() {
		}
		if !bytes.Equal(got, cat(theirs)) {
			es.add(fmt.Errorf("%s read %s (then %v), the other side wrote %s", who, show(got), ends[k], show(cat(theirs))))
		}
	}
	if c.Over == "pair" {
		a, b := srpc.NewPipeStream(context.Background())
		d1 := done(func() { side(0, a, c.A, c.B, c.ARead, c.AGap, 0, true) })
		d2 := done(func() { side(1, b, c.B, c.A, c.BRead, 0, c.BDelay, true) })
		for _, d := range []<-chan struct{}{d1, d2} {
			if err := vt.Await("a side of the pair", d); err != nil {
				return errors.Join(es.get(), err)
			}
		}
		_, _ = a.Close(), b.Close()
	} else {
		hd := make(chan struct{})
		mux := srpc.NewMux(srpc.Invoker(srpc.InvokerFunc(func(_, _ string, s srpc.Stream) (bool, error) {
			defer close(hd)
			side(1, s, c.B, c.A, c.BRead, 0, c.BDelay, false)
			if c.Err != "" {
				return true, errors.New(c.Err)
			}
			return true, nil
		})))
		w, err := NewWorld(c.T, mux)
		if err != nil {
			return err
		}
		defer w.Close()
		in.Label("transport:" + c.T.Kind)
		s, err := w.Client.NewStream(context.Background(), "s", "m", nil)
		if err != nil {
			return fmt.Errorf("NewStream: %w", err)
		}
		d := done(func() { side(0, s, c.A, c.B, c.ARead, c.AGap, 0, true) })
		if err := vt.AwaitFor("the caller", d, time.Hour); err != nil {
			return errors.Join(es.get(), err)
		}
		if err := vt.AwaitFor("the handler", hd, time.Hour); err != nil {
			return errors.Join(es.get(), err)
		}
		_ = s.Close()
	}
	want := io.EOF
	if c.Err != "" {
		want = errors.New(c.Err)
	}
	if errText(ends[0]) != errText(want) {
		es.add(fmt.Errorf("the caller's reading ended with %q, want %q", errText(ends[0]), errText(want)))
	}
	if ends[1] != io.EOF {
		es.add(fmt.Errorf("the handler's reading ended with %q, want EOF", errText(ends[1])))
	}
	return es.get()
}
