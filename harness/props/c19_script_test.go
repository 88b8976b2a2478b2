package props

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"testing"
	"time"

	"github.com/aperturerobotics/starpc/rpcstream"
	"pgregory.net/rapid"
	"verif/harness/sched"
	"verif/harness/vt"
)

// rside is a scripted raw side.
type rside struct {
	Out  []Msg  `json:"out"` // what it reads, one per Read
	Gap  int    `json:"gap,omitempty"`
	End  string `json:"end,omitempty"`  // "" blocks, "EOF", or an error's text
	With bool   `json:"with,omitempty"` // the end comes with the last bytes
	Fail int    `json:"fail"`           // the write which fails; -1: none
	Part int    `json:"part,omitempty"` // bytes it takes of the failing write
	CErr bool   `json:"cerr,omitempty"`
}

type c19Script struct {
	ID    string       `json:"id"`
	First string       `json:"first,omitempty"` // kind of another first packet
	Comp  comp         `json:"comp"`
	Front pside        `json:"front"`
	Raw   rside        `json:"raw"`
	Sched sched.Config `json:"sched"`
}

type rstub struct {
	l      *proxyLog
	p      rside
	closed chan struct{}
	n      int // reads
	rest   []byte
	writes int
	got    []byte
	closes int
}

func (s *rstub) fail(err error) error {
	s.l.mu.Lock()
	defer s.l.mu.Unlock()
	if err != io.EOF {
		s.l.errs = append(s.l.errs, err)
		if !s.l.cl {
			s.l.own++
		}
	}
	return err
}

func (s *rstub) atEnd() error {
	if s.p.End == "EOF" {
		return io.EOF
	}
	return s.fail(errors.New(s.p.End))
}

func (s *rstub) Read(b []byte) (int, error) {
	if len(s.rest) == 0 {
		sleepUs(s.p.Gap)
	}
	select {
	case <-s.closed:
		return 0, s.fail(errStubClosed)
	default:
	}
	if len(s.rest) == 0 && s.n < len(s.p.Out) {
		s.rest = s.p.Out[s.n].Bytes()
		s.n++
	}
	n := copy(b, s.rest)
	s.rest = s.rest[n:]
	last := s.n == len(s.p.Out) && len(s.rest) == 0
	if n > 0 && !(last && s.p.With && s.p.End != "") {
		return n, nil
	}
	if !last {
		return n, nil // an empty chunk
	}
	if s.p.End != "" {
		return n, s.atEnd()
	}
	<-s.closed
	return 0, s.fail(errStubClosed)
}

func (s *rstub) Write(b []byte) (int, error) {
	select {
	case <-s.closed:
		return 0, s.fail(errStubClosed)
	default:
	}
	k := s.writes
	s.writes++
	if s.p.Fail >= 0 && k >= s.p.Fail {
		n := min(s.p.Part, len(b))
		s.l.mu.Lock()
		s.l.any = true
		s.got = append(s.got, b[:n]...)
		s.l.mu.Unlock()
		return n, s.fail(errors.New("raw write failed"))
	}
	s.l.mu.Lock()
	s.got = append(s.got, b...)
	s.l.mu.Unlock()
	return len(b), nil
}

func (s *rstub) Close() error {
	s.l.mu.Lock()
	defer s.l.mu.Unlock()
	s.l.any, s.l.cl = true, true
	if s.closes == 0 {
		close(s.closed)
	}
	s.closes++
	if s.p.CErr {
		return errors.New("raw close failed")
	}
	return nil
}

func TestC19_Script(t *testing.T) {
	vt.Check(t, vt.Prop[c19Script]{
		Rule:  "HandleRawRpcStream between a scripted stream (0-5 drawn packets, then it blocks, ends or fails; a drawn send fails) and a scripted raw side (0-5 reads incl. empty ones, then it blocks, ends or fails, maybe with the last bytes; a drawn write fails partly): acknowledgement, bytes each way (prefix, complete if that side ended first), the handler's error (one which a side gave), closing and releasing; non-trivial: a fault, or bytes both ways",
		Quick: 40000, Thorough: 1000000,
		Gen: func(t *rapid.T) c19Script {
			c := c19Script{ID: genID(t, "id"), Sched: genSched(t)}
			c.Comp = comp{What: pick(t, "what", "ok", "ok", "ok", "ok", "ok", "ok", "none", "err"), NoRel: rapid.IntRange(0, 3).Draw(t, "norel") == 0}
			if c.Comp.What == "err" {
				c.Comp.Err = genLookupErr(t, "lerr")
			}
			end := func(l string) string { return pick(t, l+"end", "", "EOF", "EOF", l+" failed") }
			c.Front = pside{In: genPkts(t, "p", 5), Gap: pick(t, "gap", 0, 0, 1, 10), End: end("front"), Fail: -1}
			if rapid.IntRange(0, 3).Draw(t, "f") == 0 {
				c.Front.Fail = rapid.IntRange(0, 5).Draw(t, "fail")
			}
			r := &c.Raw
			for range rapid.IntRange(0, 5).Draw(t, "n") {
				r.Out = append(r.Out, genMsg(t, false, "o"))
			}
			r.Gap, r.End, r.With, r.Fail, r.CErr = pick(t, "rgap", 0, 0, 1, 10), end("raw"), rapid.Bool().Draw(t, "with"), -1, rapid.IntRange(0, 5).Draw(t, "cerr") == 0
			if rapid.IntRange(0, 3).Draw(t, "rf") == 0 {
				r.Fail, r.Part = rapid.IntRange(0, 4).Draw(t, "rfail"), rapid.IntRange(0, 3).Draw(t, "part")
			}
			if c.Front.End == "" && r.End == "" {
				r.End = "EOF"
			}
			if rapid.IntRange(0, 19).Draw(t, "bad") == 0 {
				c.First = pick(t, "first", "data", "ack", "none", "end")
			}
			return c
		},
		Run: func(t *testing.T, c c19Script, in *vt.Info) error {
			return bubble(t, c.Sched, false, func() error { return runC19Script(c, in) })
		},
	})
}

func runC19Script(c c19Script, in *vt.Info) error {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	l := &proxyLog{}
	head, fin := pktBytes([]pkt{{K: "init", T: c.ID}}), pktBytes(c.Front.In)
	switch c.First {
	case "":
	case "end":
		head, fin = nil, nil
	default:
		head = pktBytes([]pkt{{K: c.First}})
	}
	front := newPstub(ctx, l, c.Front, append(head, fin...))
	if c.First == "end" && c.Front.End == "" {
		front.p.End = "EOF"
	}
	rw := &rstub{l: l, p: c.Raw, closed: make(chan struct{})}
	lookups, rels := 0, 0
	var es errs
	var err error
	ret := done(func() {
		err = rpcstream.HandleRawRpcStream(rstrm{front}, func(_ context.Context, id string) (io.ReadWriteCloser, func(), error) {
			lookups++
			if id != c.ID {
				es.add(fmt.Errorf("looked up %q instead of %q", id, c.ID))
			}
			switch c.Comp.What {
			case "none":
				return nil, nil, nil
			case "err":
				return nil, nil, errors.New(c.Comp.Err)
			}
			if c.Comp.NoRel {
				return rw, nil, nil
			}
			return rw, func() { rels++ }, nil
		})
	})
	if werr := vt.Await("the return of the tunnel", ret); werr != nil {
		return werr
	}
	relsAt := rels
	cancel()
	time.Sleep(time.Minute)
	l.mu.Lock()
	defer l.mu.Unlock()
	if e := es.get(); e != nil {
		return e
	}
	if c.First != "" {
		in.NonTrivial = true
		in.Label("first: " + c.First)
		if err == nil || lookups != 0 {
			return fmt.Errorf("a first packet %q: returned %v after %d lookups", c.First, err, lookups)
		}
		if c.First == "end" && errText(err) != front.p.End {
			return fmt.Errorf("the first receive failed with %q, the tunnel returned %v", front.p.End, err)
		}
		return nil
	}
	if lookups != 1 {
		return fmt.Errorf("%d lookups", lookups)
	}
	failText := ""
	switch c.Comp.What {
	case "none":
		failText = rpcstream.ErrNoServerForComponent.Error()
	case "err":
		failText = c.Comp.Err
	}
	if c.Front.Fail != 0 {
		p := &rpcstream.RpcStreamPacket{}
		if len(front.sent) == 0 || p.UnmarshalVT(front.sent[0]) != nil {
			return errors.New("no acknowledgement was sent")
		}
		if a, ok := p.GetBody().(*rpcstream.RpcStreamPacket_Ack); !ok || a.Ack.GetError() != failText {
			return fmt.Errorf("the first packet sent is %v, want an acknowledgement with %q", p, failText)
		}
	}
	if c.Comp.What != "ok" {
		in.NonTrivial = true
		in.Label("lookup: " + c.Comp.What)
		if errText(err) != failText || len(front.sent) > 1 {
			return fmt.Errorf("the lookup fails with %q, the tunnel returned %v and sent %d packets", failText, err, len(front.sent))
		}
		return nil
	}
	want := 1
	if c.Comp.NoRel {
		want = 0
	}
	if relsAt != want || rels != want || rw.closes == 0 {
		return fmt.Errorf("released %d times at the return and %d in the end, want %d; the raw side was closed %d times", relsAt, rels, want, rw.closes)
	}
	if c.Front.Fail == 0 {
		in.NonTrivial = true
		in.Label("the acknowledgement fails")
		if errText(err) != "send failed" || len(rw.got) != 0 {
			return fmt.Errorf("the acknowledgement failed: returned %v, the raw side was written %d bytes", err, len(rw.got))
		}
		return nil
	}
	// up to an acknowledgement with an error.
	var a, b strings.Builder
	ackErr := ""
	for _, p := range c.Front.In {
		if p.K == "ack" && p.T != "" {
			ackErr = p.T
			break
		}
		if p.K == "data" {
			a.Write(p.M.Bytes())
		}
	}
	for _, m := range c.Raw.Out {
		b.Write(m.Bytes())
	}
	var gotB strings.Builder
	for _, x := range front.sent[1:] {
		p := &rpcstream.RpcStreamPacket{}
		if e := p.UnmarshalVT(x); e != nil {
			return fmt.Errorf("sent a packet which does not decode: %w", e)
		}
		d, ok := p.GetBody().(*rpcstream.RpcStreamPacket_Data)
		if !ok {
			return fmt.Errorf("sent %v after the acknowledgement", p)
		}
		gotB.Write(d.Data)
	}
	if !strings.HasPrefix(a.String(), string(rw.got)) {
		return fmt.Errorf("the caller sent %s, the raw side was written %s", show([]byte(a.String())), show(rw.got))
	}
	if !strings.HasPrefix(b.String(), gotB.String()) {
		return fmt.Errorf("the raw side gave %s, the caller was sent %s", show([]byte(b.String())), show([]byte(gotB.String())))
	}
	for _, s := range l.ends {
		if s == front && len(rw.got) != a.Len() {
			return fmt.Errorf("the caller sent %d bytes and ended, the raw side was written %d", a.Len(), len(rw.got))
		}
	}
	known := err == nil && l.own == 0 || err != nil && ackErr != "" && errText(err) == ackErr
	for _, e := range l.errs {
		known = known || err != nil && errText(err) == errText(e)
	}
	if !known {
		return fmt.Errorf("the tunnel returned %v, the streams failed with %v", err, l.errs)
	}
	if c.Front.Fail < 0 && c.Raw.Fail < 0 && ackErr == "" && c.Front.End == "" {
		// only the raw side ends.
		in.Label("only the raw side ends")
		if gotB.Len() != b.Len() {
			return fmt.Errorf("the raw side gave %d bytes and ended, the caller was sent %d", b.Len(), gotB.Len())
		}
		if c.Raw.End != "EOF" && errText(err) != c.Raw.End {
			return fmt.Errorf("the raw side ended with %q, the tunnel returned %v", c.Raw.End, err)
		}
	}
	in.LabelIf(l.own > 0, "a side failed")
	in.LabelIf(ackErr != "", "error acknowledgement from the caller")
	in.NonTrivial = l.own > 0 || ackErr != "" || len(rw.got) > 0 && gotB.Len() > 0
	return nil
}
