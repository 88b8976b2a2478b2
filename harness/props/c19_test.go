package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"testing"
	"time"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
	"pgregory.net/rapid"
	"verif/harness/vt"
	"verif/harness/wire"
)

type c19Case struct {
	T     TCfg      `json:"t"`
	ID    string    `json:"id"`
	Comp  comp      `json:"comp"`
	Ack   bool      `json:"ack,omitempty"`
	First *pkt      `json:"first,omitempty"` // an unexpected first packet
	Out   wire.Plan `json:"out"`             // raw pipe, towards the raw side
	In    wire.Plan `json:"in"`
	A     []Msg     `json:"a"` // written by the caller, until both sides have read everything
	B     []Msg     `json:"b"`
	A2    []Msg     `json:"a2"` // written just before the end
	B2    []Msg     `json:"b2"`
	End   string    `json:"end"` // rawend, half, close, cancel, cut, rawfail, ack
	Err   string    `json:"err,omitempty"`
	Read  int       `json:"read"`
	Wait  int       `json:"wait,omitempty"`
	Idle  int       `json:"idle,omitempty"`
	Early int       `json:"early,omitempty"` // the caller cancels this early
}

func TestC19_Tunnel(t *testing.T) {
	vt.Check(t, vt.Prop[c19Case]{
		Rule:  "a raw tunnel over a drawn transport and schedule to a byte pipe with drawn chunking and short writes; the lookup succeeds (with or without release function), finds nothing or fails, or the first packet is not an init; both sides write 0-8 chunks concurrently and read everything, then write 0-4 more chunks and one side ends (raw end or error, half-close, close, cancel, cut, broken raw side, error acknowledgement from the caller); bytes, end, handler result, closing and releasing are checked; non-trivial: the tunnel carried bytes both ways, or ends with a fault, or the lookup failed",
		Quick: 24000, Thorough: 500000,
		Gen: func(t *rapid.T) c19Case {
			c := c19Case{ID: genID(t, "id"), Ack: rapid.Bool().Draw(t, "ack"), Read: pick(t, "read", 1, 10, 1000, 10000), Wait: pick(t, "wait", 0, 0, 2000), Idle: pick(t, "idle", 0, 0, 3)}
			c.Comp = comp{What: pick(t, "what", "ok", "ok", "ok", "ok", "ok", "ok", "none", "err"), NoRel: rapid.IntRange(0, 4).Draw(t, "norel") == 0, Delay: pick(t, "delay", 0, 0, 1000)}
			if c.Comp.What == "err" {
				c.Comp.Err = genLookupErr(t, "lerr")
			}
			if rapid.IntRange(0, 11).Draw(t, "bad") == 0 {
				c.First = &pkt{K: pick(t, "fk", "data", "ack", "none", "half")}
			}
			mx := 0
			gen := func(l string, n int) (out []Msg) {
				tot := 0
				for range rapid.IntRange(0, n).Draw(t, l+"n") {
					m := genMsg(t, false, l)
					tot += m.Len()
					out = append(out, m)
				}
				mx = max(mx, tot)
				return out
			}
			c.A, c.B, c.A2, c.B2 = gen("a", 8), gen("b", 8), gen("a2", 4), gen("b2", 4)
			c.Read = max(c.Read, mx/64)
			c.End = pick(t, "end", "rawend", "rawend", "half", "half", "close", "cancel", "cut", "rawfail", "ack")
			if c.End == "rawend" && rapid.Bool().Draw(t, "rerr") || c.End == "ack" {
				c.Err = genErrText(t, "err")
				if c.Err == "EOF" {
					c.Err = "eof"
				}
			}
			if rapid.IntRange(0, 9).Draw(t, "isEarly") == 0 {
				c.Early = rapid.IntRange(1, 3000).Draw(t, "early")
			}
			c.T = genTCfg(t, max(mx, 3200), "fake", "fake", "fake", "yamux", "yamux", "rwc")
			c.T.Out.Strict, c.T.In.Strict = false, false
			c.Out, c.In = genPlan(t, mx, "rout"), genPlan(t, mx, "rin")
			// io.Copy reports a short write without an error as a failure.
			c.In.EOFWithData = rapid.Bool().Draw(t, "eofd")
			return c
		},
		Run: func(t *testing.T, c c19Case, in *vt.Info) error {
			return bubble(t, c.T.Sched, false, func() error { return runC19(c, in) })
		},
	})
}

func runC19(c c19Case, in *vt.Info) error {
	cat := func(ms ...[]Msg) (out []byte) {
		for _, l := range ms {
			for _, m := range l {
				out = append(out, m.Bytes()...)
			}
		}
		return out
	}
	near, far := wire.Pipe(c.Out, c.In) // near: given to the tunnel
	lookups, rels := 0, 0
	var es errs
	var herr error
	hdone, found := make(chan struct{}), make(chan struct{})
	mux := srpc.NewMux(srpc.InvokerFunc(func(_, _ string, s srpc.Stream) (bool, error) {
		defer close(hdone)
		herr = rpcstream.HandleRawRpcStream(rstrm{s}, func(ctx context.Context, id string) (io.ReadWriteCloser, func(), error) {
			lookups++
			if id != c.ID {
				es.add(fmt.Errorf("looked up %q instead of %q", id, c.ID))
			}
			sleepUs(c.Comp.Delay)
			switch c.Comp.What {
			case "none":
				return nil, nil, nil
			case "err":
				return nil, nil, errors.New(c.Comp.Err)
			}
			rel := func() { rels++ }
			if c.Comp.NoRel {
				rel = nil
			}
			close(found)
			return &idler{Conn: near, every: c.Idle}, rel, nil
		})
		return true, herr
	}))
	w, err := NewWorld(c.T, mux)
	if err != nil {
		return err
	}
	defer w.Close()
	defer far.Close()
	defer near.Close()
	in.Label("transport:"+c.T.Kind, "lookup:"+c.Comp.What)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	finish := func() error {
		if err := vt.Await("the return of the tunnel's handler", hdone); err != nil {
			return err
		}
		return es.get()
	}

	if c.First != nil {
		in.Label("unexpected first packet")
		in.NonTrivial = true
		s, err := w.Client.NewStream(ctx, "nest", "raw", nil)
		if err != nil {
			return fmt.Errorf("NewStream: %w", err)
		}
		if c.First.K == "half" {
			_ = s.CloseSend()
		} else {
			_ = s.MsgSend(c.First.packet())
		}
		if err := finish(); err != nil {
			return err
		}
		if herr == nil || lookups != 0 {
			return fmt.Errorf("a first packet %q: handler returned %v after %d lookups", c.First.K, herr, lookups)
		}
		_ = s.Close()
		return nil
	}

	if c.Early > 0 {
		in.Label("cancelled early")
		time.AfterFunc(time.Duration(c.Early)*time.Microsecond, cancel)
	}
	s, err := rpcstream.OpenRpcStream(ctx, func(ctx context.Context) (rpcstream.RpcStream, error) {
		s, err := w.Client.NewStream(ctx, "nest", "raw", nil)
		if err != nil {
			return nil, err
		}
		return rstrm{s}, nil
	}, c.ID, c.Ack)
	if c.Early > 0 {
		in.NonTrivial = true
		if err == nil {
			time.Sleep(10 * time.Millisecond)
			_ = s.Close()
		}
		time.Sleep(time.Minute)
		select {
		case <-found:
		default:
			if rels != 0 {
				return errors.New("released without being found")
			}
			return es.get()
		}
		if err := finish(); err != nil {
			return err
		}
		want := 1
		if c.Comp.NoRel {
			want = 0
		}
		if rels != want || near.Closes() == 0 {
			return fmt.Errorf("cancelled early: released %d times, want %d; raw side closed %d times", rels, want, near.Closes())
		}
		return nil
	}
	if c.Comp.What != "ok" {
		in.NonTrivial = true
		want := c.Comp.Err
		if c.Comp.What == "none" {
			want = rpcstream.ErrNoServerForComponent.Error()
		}
		if c.Ack == (err == nil) {
			return fmt.Errorf("the lookup fails with %q, opening returned %v", want, err)
		}
		if err == nil {
			var b [10]byte
			var n int
			n, err = rpcstream.NewRpcStreamReadWriter(s).Read(b[:])
			if n != 0 {
				return fmt.Errorf("read %d bytes although the lookup fails with %q", n, want)
			}
			_ = s.Close()
		}
		if !strings.Contains(errText(err), want) {
			return fmt.Errorf("the lookup fails with %q, the caller got %q", want, errText(err))
		}
		if err := finish(); err != nil {
			return err
		}
		if errText(herr) != want || lookups != 1 {
			return fmt.Errorf("the lookup fails with %q, the handler returned %v after %d lookups", want, herr, lookups)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("OpenRpcStream: %w", err)
	}
	rw := rpcstream.NewRpcStreamReadWriter(s)
	writeAll := func(who string, to io.Writer, ms []Msg) error {
		for _, m := range ms {
			b := m.Bytes()
			if n, err := to.Write(b); err != nil || n != len(b) {
				return fmt.Errorf("%s: write of %d bytes: %d, %v", who, len(b), n, err)
			}
		}
		return nil
	}
	type reader struct {
		got  []byte
		end  error
		half chan struct{} // closed when it has got so many bytes
		done <-chan struct{}
	}
	read := func(from io.Reader, upto int) *reader {
		r := &reader{half: make(chan struct{})}
		if upto == 0 {
			close(r.half)
		}
		r.done = done(func() {
			sleepUs(c.Wait)
			buf := make([]byte, c.Read)
			for r.end == nil {
				var n int
				n, r.end = from.Read(buf)
				before := len(r.got)
				r.got = append(r.got, buf[:n]...)
				if before < upto && len(r.got) >= upto {
					close(r.half)
				}
			}
		})
		return r
	}
	ra := read(far, len(cat(c.A)))
	rb := read(rw, len(cat(c.B)))
	// first both sides send and get everything
	d := done(func() { es.add(writeAll("caller", rw, c.A)) })
	es.add(writeAll("raw side", far, c.B))
	if err := vt.Await("the lookup", found); err != nil {
		return errors.Join(es.get(), err)
	}
	if err := vt.Await("the caller's writes", d); err != nil {
		return errors.Join(es.get(), err)
	}
	if err := vt.Await("the arrival of the caller's bytes at the raw side", ra.half); err != nil {
		return errors.Join(es.get(), err)
	}
	if err := vt.Await("the arrival of the raw side's bytes at the caller", rb.half); err != nil {
		return errors.Join(es.get(), err)
	}
	if err := es.get(); err != nil {
		return err
	}
	if rels != 0 || near.Closes() != 0 {
		return fmt.Errorf("released %d times and closed %d times while the tunnel is used", rels, near.Closes())
	}
	// then one ends, maybe while the other writes.
	in.Label("end:" + c.End)
	in.NonTrivial = len(c.A) > 0 && len(c.B) > 0 || c.End != "half" && c.End != "rawend"
	var d1, d2 <-chan struct{}
	switch c.End {
	case "rawend", "rawfail":
		d1 = done(func() { _ = writeAll("", rw, c.A2) })
		es.add(writeAll("raw side", far, c.B2))
		if c.End == "rawfail" {
			far.Fail(errCut)
		} else if c.Err != "" {
			far.EndWith(errors.New(c.Err))
		} else {
			_ = far.CloseWrite()
		}
		d2 = d1
	default:
		d2 = done(func() { _ = writeAll("", far, c.B2) })
		d1 = done(func() {
			es.add(writeAll("caller", rw, c.A2))
			switch c.End {
			case "half":
				es.add(s.CloseSend())
			case "close":
				_ = rw.Close()
			case "cancel":
				cancel()
			case "cut":
				w.Cut(errCut)
			case "ack":
				es.add(s.Send(pkt{K: "ack", T: c.Err}.packet()))
			}
		})
	}
	for _, x := range []<-chan struct{}{d1, d2} {
		if err := vt.Await("the last writes", x); err != nil {
			return errors.Join(es.get(), err)
		}
	}
	if err := finish(); err != nil {
		return err
	}
	if err := vt.Await("the end of reading at the caller after "+c.End, rb.done); err != nil {
		return err
	}
	if err := vt.Await("the end of reading at the raw side after "+c.End, ra.done); err != nil {
		return err
	}
	wantA, wantB := cat(c.A, c.A2), cat(c.B, c.B2)
	if !bytes.HasPrefix(wantA, ra.got) {
		return fmt.Errorf("the caller wrote %s, the raw side read %s", show(wantA), show(ra.got))
	}
	if !bytes.HasPrefix(wantB, rb.got) {
		return fmt.Errorf("the raw side wrote %s, the caller read %s", show(wantB), show(rb.got))
	}
	switch c.End {
	case "rawend":
		if len(rb.got) != len(wantB) {
			return fmt.Errorf("the raw side wrote %d bytes before its end, the caller read %d, then %v", len(wantB), len(rb.got), rb.end)
		}
		// after a clean end the other direction fails because it is closed.
		if c.Err != "" && errText(herr) != c.Err {
			return fmt.Errorf("the raw side ended with %q, the handler returned %v", c.Err, herr)
		}
	case "half":
		if len(ra.got) != len(wantA) {
			return fmt.Errorf("the caller wrote %d bytes before its end, the raw side read %d, then %v", len(wantA), len(ra.got), ra.end)
		}
		if ra.end != io.EOF {
			return fmt.Errorf("the caller half-closed: the raw side's reading ended with %v", ra.end)
		}
	case "ack":
		if len(ra.got) != len(wantA) || errText(herr) != c.Err {
			return fmt.Errorf("after an error %q the raw side had read %d of %d bytes and the handler returned %v", c.Err, len(ra.got), len(wantA), herr)
		}
	case "rawfail":
		if herr == nil || herr != errCut && herr != wire.ErrReset {
			return fmt.Errorf("the raw side failed, the handler returned %v", herr)
		}
	}
	time.Sleep(time.Minute)
	want := 1
	if c.Comp.NoRel {
		want = 0
	}
	if rels != want || lookups != 1 {
		return fmt.Errorf("after the end: %d lookups, released %d times, want %d", lookups, rels, want)
	}
	if near.Closes() == 0 {
		return errors.New("the raw side was not closed")
	}
	_ = s.Close()
	return es.get()
}
