package props

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sync"
	"testing"
	"time"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
	"pgregory.net/rapid"
	"verif/harness/sched"
	"verif/harness/vt"
)

// pside is a scripted stream of the proxy.
type pside struct {
	In   []pkt  `json:"in"`
	Gap  int    `json:"gap,omitempty"`
	End  string `json:"end,omitempty"` // "" blocks, "EOF", or an error's text
	Fail int    `json:"fail"`          // the send which fails; -1: none
	Once bool   `json:"once,omitempty"`
	CErr string `json:"cerr,omitempty"` // of Close
}

type c20Script struct {
	ID    string       `json:"id"`
	To    string       `json:"to"`
	First string       `json:"first,omitempty"` // kind of another first packet
	Dial  string       `json:"dial,omitempty"`
	NoRel bool         `json:"norel,omitempty"`
	Front pside        `json:"front"`
	Back  pside        `json:"back"`
	Sched sched.Config `json:"sched"`
}

// proxyLog has what happened in order.
type proxyLog struct {
	mu   sync.Mutex
	errs []error // given by the streams, without EOF
	own  int     // of these, the ones before any Close
	ends []*pstub
	any  bool // a send failed or something was closed
	cl   bool // something was closed
}

type pstub struct {
	ctx    context.Context
	l      *proxyLog
	p      pside
	in     [][]byte
	closed chan struct{}
	failed chan struct{}
	n      int
	recvs  int
	sends  int
	sent   [][]byte
	closes int
}

var errStubClosed = errors.New("stub closed")

func newPstub(ctx context.Context, l *proxyLog, p pside, in [][]byte) *pstub {
	return &pstub{ctx: ctx, l: l, p: p, in: in, closed: make(chan struct{}), failed: make(chan struct{})}
}

func (s *pstub) fail(err error) error {
	s.l.mu.Lock()
	defer s.l.mu.Unlock()
	if err != io.EOF {
		s.l.errs = append(s.l.errs, err)
		if !s.l.cl {
			s.l.own++
		}
	}
	return err
}

func (s *pstub) Context() context.Context { return s.ctx }

func (s *pstub) MsgSend(m srpc.Message) error {
	b, err := m.MarshalVT()
	if err != nil {
		return s.fail(err)
	}
	select {
	case <-s.closed:
		return s.fail(errStubClosed)
	default:
	}
	s.l.mu.Lock()
	k := s.sends
	s.sends++
	bad := s.p.Fail >= 0 && (k == s.p.Fail || k > s.p.Fail && !s.p.Once)
	if !bad {
		s.sent = append(s.sent, append([]byte{}, b...))
		s.l.mu.Unlock()
		return nil
	}
	s.l.any = true
	select {
	case <-s.failed:
	default:
		close(s.failed)
	}
	s.l.mu.Unlock()
	return s.fail(errors.New("send failed"))
}

func (s *pstub) MsgRecv(m srpc.Message) error {
	sleepUs(s.p.Gap)
	select {
	case <-s.closed:
		return s.fail(errStubClosed)
	default:
	}
	s.l.mu.Lock()
	if s.recvs < len(s.in) {
		b := s.in[s.recvs]
		s.recvs++
		s.l.mu.Unlock()
		return m.UnmarshalVT(append([]byte{}, b...))
	}
	if s.p.End != "" {
		if !s.l.any {
			s.l.ends = append(s.l.ends, s)
		}
		s.l.mu.Unlock()
		if s.p.End == "EOF" {
			return io.EOF
		}
		return s.fail(errors.New(s.p.End))
	}
	s.l.mu.Unlock()
	select {
	case <-s.closed:
		return s.fail(errStubClosed)
	case <-s.failed:
		return s.fail(errors.New("send failed"))
	case <-s.ctx.Done():
		return s.fail(context.Canceled)
	}
}

func (s *pstub) CloseSend() error { return nil }

func (s *pstub) Close() error {
	s.l.mu.Lock()
	defer s.l.mu.Unlock()
	s.l.any, s.l.cl = true, true
	if s.closes == 0 {
		close(s.closed)
	}
	s.closes++
	if s.p.CErr != "" {
		return errors.New(s.p.CErr)
	}
	return nil
}

func TestC20_Script(t *testing.T) {
	vt.Check(t, vt.Prop[c20Script]{
		Rule:  "HandleProxyRpcStream between two scripted streams: each receives 0-5 drawn packets at a drawn pace, then blocks, ends or fails, and a drawn send to it fails (once or from then on), and Close may return an error; what each was sent is checked to be a prefix of what the other received without gaps, complete if that side ended first, the init comes first, and the remote stream is closed, the release function has run once and the proxy returned with an error which it got from one of the streams; non-trivial: a stream failed, or packets both ways",
		Quick: 40000, Thorough: 1000000,
		Gen: func(t *rapid.T) c20Script {
			c := c20Script{ID: genID(t, "id"), To: genID(t, "to"), NoRel: rapid.IntRange(0, 4).Draw(t, "norel") == 0, Sched: genSched(t)}
			side := func(l string) pside {
				p := pside{In: genPkts(t, l, 5), Gap: pick(t, l+"gap", 0, 0, 1, 10), End: pick(t, l+"end", "", "EOF", "EOF", "x"), Fail: -1, Once: rapid.Bool().Draw(t, l+"once")}
				if p.End == "x" {
					p.End = l + " failed"
				}
				if rapid.IntRange(0, 2).Draw(t, l+"f") == 0 {
					p.Fail = rapid.IntRange(0, 5).Draw(t, l+"fail")
				}
				if rapid.IntRange(0, 5).Draw(t, l+"c") == 0 {
					p.CErr = l + " close failed"
				}
				return p
			}
			c.Front, c.Back = side("front"), side("back")
			if c.Front.End == "" && c.Back.End == "" && c.Front.Fail < 0 && c.Back.Fail < 0 {
				c.Back.End = "EOF"
			}
			switch rapid.IntRange(0, 19).Draw(t, "bad") {
			case 0:
				c.First = pick(t, "first", "data", "ack", "none", "end")
			case 1:
				c.Dial = genLookupErr(t, "dial")
			}
			return c
		},
		Run: func(t *testing.T, c c20Script, in *vt.Info) error {
			return bubble(t, c.Sched, false, func() error { return runC20Script(c, in) })
		},
	})
}

func runC20Script(c c20Script, in *vt.Info) error {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	l := &proxyLog{}
	fin, bin := pktBytes(c.Front.In), pktBytes(c.Back.In)
	head := pktBytes([]pkt{{K: "init", T: c.ID}})
	switch c.First {
	case "":
	case "end":
		head, fin = nil, nil
	default:
		head = pktBytes([]pkt{{K: c.First}})
	}
	front := newPstub(ctx, l, c.Front, append(head, fin...))
	back := newPstub(ctx, l, c.Back, bin)
	if c.First == "end" && c.Front.End == "" {
		front.p.End = "EOF"
	}
	lookups, dials, rels := 0, 0, 0
	var es errs
	var err error
	ret := done(func() {
		err = rpcstream.HandleProxyRpcStream(rstrm{front}, func(_ context.Context, id string) (rpcstream.RpcStreamCaller[rpcstream.RpcStream], string, func(), error) {
			lookups++
			if id != c.ID {
				es.add(fmt.Errorf("looked up %q instead of %q", id, c.ID))
			}
			rel := func() { rels++ }
			if c.NoRel {
				rel = nil
			}
			return func(context.Context) (rpcstream.RpcStream, error) {
				dials++
				if c.Dial != "" {
					return nil, errors.New(c.Dial)
				}
				return rstrm{back}, nil
			}, c.To, rel, nil
		})
	})
	// a failing send may be beyond the packets: then the caller's context ends it.
	select {
	case <-ret:
	case <-time.After(time.Hour):
		l.mu.Lock()
		stuck := l.any || len(l.ends) > 0
		l.mu.Unlock()
		if stuck {
			return errors.New("the proxy does not return although a stream ended or failed")
		}
		in.Label("ended by the context")
		cancel()
	}
	if werr := vt.Await("the return of the proxy", ret); werr != nil {
		return werr
	}
	relsAt := rels
	cancel()
	time.Sleep(time.Minute)
	l.mu.Lock()
	defer l.mu.Unlock()
	if e := es.get(); e != nil {
		return e
	}
	if c.First != "" {
		in.NonTrivial = true
		in.Label("first: " + c.First)
		if err == nil || lookups != 0 {
			return fmt.Errorf("a first packet %q: returned %v after %d lookups", c.First, err, lookups)
		}
		if c.First == "end" && errText(err) != front.p.End {
			return fmt.Errorf("the first receive failed with %q, the proxy returned %v", front.p.End, err)
		}
		return nil
	}
	want := 0
	if !c.NoRel {
		want = 1
	}
	if lookups != 1 || dials != 1 || relsAt != want || rels != want {
		return fmt.Errorf("%d lookups, %d dials, released %d times at the return and %d in the end, want %d", lookups, dials, relsAt, rels, want)
	}
	failText := c.Dial
	if c.Dial == "" && back.p.Fail == 0 {
		failText = "send failed"
	}
	if failText != "" {
		in.NonTrivial = true
		in.Label("connecting fails")
		if errText(err) != failText {
			return fmt.Errorf("connecting fails with %q, the proxy returned %v", failText, err)
		}
		if len(back.sent) != 0 {
			return errors.New("something was sent although connecting failed")
		}
		if front.p.Fail != 0 {
			p := &rpcstream.RpcStreamPacket{}
			if len(front.sent) != 1 || p.UnmarshalVT(front.sent[0]) != nil || p.GetAck() == nil || p.GetAck().GetError() != failText {
				return fmt.Errorf("connecting fails with %q, the caller was sent %s", failText, showAll(front.sent))
			}
		}
		if c.Dial == "" && back.closes == 0 {
			return errors.New("the remote stream was not closed")
		}
		return nil
	}
	if back.closes == 0 {
		return errors.New("the remote stream was not closed")
	}
	if len(back.sent) == 0 {
		return errors.New("the remote was sent nothing")
	}
	p := &rpcstream.RpcStreamPacket{}
	if e := p.UnmarshalVT(back.sent[0]); e != nil || p.GetInit() == nil || p.GetInit().GetComponentId() != c.To {
		return fmt.Errorf("the remote was sent first %s, want an init for %q", show(back.sent[0]), c.To)
	}
	// packets of zero bytes are dropped.
	full := func(l [][]byte) (out [][]byte) {
		for _, b := range l {
			if len(b) > 0 {
				out = append(out, b)
			}
		}
		return out
	}
	a, b := full(fin), full(bin)
	gotA, gotB := full(back.sent[1:]), full(front.sent)
	if !pktPrefix(gotA, a) {
		return fmt.Errorf("the caller sent %s, the remote was sent %s", showAll(a), showAll(gotA))
	}
	if !pktPrefix(gotB, b) {
		return fmt.Errorf("the remote sent %s, the caller was sent %s", showAll(b), showAll(gotB))
	}
	for _, s := range l.ends {
		if s == front && len(gotA) != len(a) {
			return fmt.Errorf("the caller sent %d packets and ended, the remote was sent %d", len(a), len(gotA))
		}
		if s == back && len(gotB) != len(b) {
			return fmt.Errorf("the remote sent %d packets and ended, the caller was sent %d", len(b), len(gotB))
		}
	}
	if err == nil && l.own > 0 {
		return fmt.Errorf("the proxy returned no error although a stream failed with %v", l.errs[0])
	}
	if err != nil {
		known := false
		for _, e := range l.errs {
			known = known || errText(e) == errText(err)
		}
		for _, e := range []string{c.Front.CErr, c.Back.CErr} {
			known = known || e != "" && e == errText(err)
		}
		if !known && !errors.Is(err, context.Canceled) {
			return fmt.Errorf("the proxy returned %v, the streams failed with %v", err, l.errs)
		}
	}
	in.LabelIf(front.p.Fail >= 0 && front.sends > front.p.Fail || back.p.Fail >= 0 && back.sends > back.p.Fail, "a send failed")
	in.LabelIf(len(l.ends) > 0, "a side ended by itself")
	in.LabelIf(l.own > 0, "a stream failed")
	in.NonTrivial = l.own > 0 || len(a) > 0 && len(b) > 0
	return nil
}
