package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
	"pgregory.net/rapid"
	"verif/harness/vt"
)

type c20Case struct {
	T     TCfg   `json:"t"` // to the proxy
	U     TCfg   `json:"u"` // from the proxy
	ID    string `json:"id"`
	To    string `json:"to"` // the ID the lookup returns
	What  string `json:"what"`
	Err   string `json:"err,omitempty"` // of the lookup or dial
	NoRel bool   `json:"norel,omitempty"`
	Delay int    `json:"delay,omitempty"`
	Ack   bool   `json:"ack,omitempty"`
	First *pkt   `json:"first,omitempty"`
	A     []pkt  `json:"a"` // from the caller, then both sides wait for everything
	B     []pkt  `json:"b"`
	A2    []pkt  `json:"a2"` // just before the end
	B2    []pkt  `json:"b2"`
	End   string `json:"end"` // return, half, rhalf, close, cancel, cutfront, cutback
	RErr  string `json:"rerr,omitempty"`
	GapA  int    `json:"gapa,omitempty"`
	WaitA int    `json:"waita,omitempty"`
	WaitB int    `json:"waitb,omitempty"`
	Early int    `json:"early,omitempty"`
}

func genPkts(t *rapid.T, label string, n int) (out []pkt) {
	for range rapid.IntRange(0, n).Draw(t, label+"n") {
		p := pkt{K: pick(t, label+"k", "data", "data", "data", "data", "ack", "init")}
		if p.K == "data" {
			p.M = genMsg(t, false, label)
		} else {
			p.T = genStrShort(t, label+"t")
		}
		out = append(out, p)
	}
	return out
}

func genStrShort(t *rapid.T, label string) string {
	return pick(t, label, "", "x", "some text", "ü✓")
}

func TestC20_Proxy(t *testing.T) {
	vt.Check(t, vt.Prop[c20Case]{
		Rule:  "a proxied nested stream between two drawn transports; the lookup gives a caller and another component ID, finds nothing or fails, the dial fails or gives nothing, or the first packet is not an init; both sides send 0-8 packets of all kinds (also error acknowledgements and inits) concurrently and receive everything, then 0-4 more and one side ends (remote handler's return with or without an error, half-close, close, cancel, cut of either connection), or the caller cancels early; packets, first packet at the remote, end, lookup, dial, release and the closing of the remote stream are checked; non-trivial: packets both ways, or an end by a fault, or no connection",
		Quick: 20000, Thorough: 450000,
		Gen: func(t *rapid.T) c20Case {
			c := c20Case{
				ID: genID(t, "id"), To: genID(t, "to"), NoRel: rapid.IntRange(0, 4).Draw(t, "norel") == 0, Ack: rapid.Bool().Draw(t, "ack"),
				What:  pick(t, "what", "ok", "ok", "ok", "ok", "ok", "ok", "none", "err", "dial", "dialnil"),
				Delay: pick(t, "delay", 0, 0, 1000), GapA: pick(t, "gap", 0, 0, 300), WaitA: pick(t, "waita", 0, 0, 5000), WaitB: pick(t, "waitb", 0, 0, 5000),
				End: pick(t, "end", "return", "return", "return", "half", "rhalf", "close", "cancel", "cutfront", "cutback"),
			}
			if c.What == "err" || c.What == "dial" {
				c.Err = genLookupErr(t, "lerr")
			}
			if rapid.IntRange(0, 11).Draw(t, "bad") == 0 {
				c.First = &pkt{K: pick(t, "fk", "data", "ack", "none", "half")}
			}
			if rapid.IntRange(0, 9).Draw(t, "isEarly") == 0 {
				c.Early = rapid.IntRange(1, 3000).Draw(t, "early")
			}
			c.A, c.B, c.A2, c.B2 = genPkts(t, "a", 8), genPkts(t, "b", 8), genPkts(t, "a2", 4), genPkts(t, "b2", 4)
			if c.End == "return" && rapid.Bool().Draw(t, "hasrerr") {
				c.RErr = genErrText(t, "rerr")
			}
			kinds := []string{"fake", "fake", "fake", "yamux", "yamux", "rwc"}
			c.T = genTCfg(t, 8200, kinds...)
			c.U = genTCfg(t, 8200, kinds...)
			c.T.Out.Strict, c.T.In.Strict, c.U.Out.Strict, c.U.In.Strict = false, false, false, false
			return c
		},
		Run: func(t *testing.T, c c20Case, in *vt.Info) error {
			return bubble(t, c.T.Sched, false, func() error { return runC20(c, in) })
		},
	})
}

// pktReader reads packets until an error.
type pktReader struct {
	mu   sync.Mutex
	got  [][]byte
	end  error
	half chan struct{}
	done <-chan struct{}
}

func readPkts(s srpc.Stream, upto, wait int) *pktReader {
	r := &pktReader{half: make(chan struct{})}
	if upto == 0 {
		close(r.half)
	}
	r.done = done(func() {
		sleepUs(wait)
		for {
			b, err := recv(s)
			r.mu.Lock()
			if err != nil {
				r.end = err
				r.mu.Unlock()
				return
			}
			r.got = append(r.got, b)
			if len(r.got) == upto {
				close(r.half)
			}
			r.mu.Unlock()
		}
	})
	return r
}

func pktBytes(ps ...[]pkt) (out [][]byte) {
	for _, l := range ps {
		for _, p := range l {
			b, err := p.packet().MarshalVT()
			if err != nil {
				panic(err)
			}
			out = append(out, b)
		}
	}
	return out
}

// samePkts compares packets by content.
func samePkts(got, want [][]byte) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if bytes.Equal(got[i], want[i]) {
			continue
		}
		p, q := &rpcstream.RpcStreamPacket{}, &rpcstream.RpcStreamPacket{}
		if p.UnmarshalVT(got[i]) != nil || q.UnmarshalVT(want[i]) != nil || !p.EqualVT(q) {
			return false
		}
	}
	return true
}

func pktPrefix(got, want [][]byte) bool {
	return len(got) <= len(want) && samePkts(got, want[:len(got)])
}

func runC20(c c20Case, in *vt.Info) error {
	var mu sync.Mutex
	var es errs
	lookups, dials, rels := 0, 0, 0
	found := make(chan struct{})
	// the remote
	var remote srpc.Stream
	var first []byte
	var rb *pktReader
	rstart, rret, rdone, rgone := make(chan struct{}), make(chan error, 1), make(chan struct{}), make(chan struct{})
	nRemote := len(c.A)
	u, err := NewWorld(c.U, srpc.NewMux(srpc.InvokerFunc(func(_, _ string, s srpc.Stream) (bool, error) {
		defer close(rdone)
		b, err := recv(s)
		if err != nil {
			return true, err
		}
		context.AfterFunc(s.Context(), func() { close(rgone) })
		mu.Lock()
		first, remote = b, s
		mu.Unlock()
		rb = readPkts(s, nRemote, c.WaitB)
		close(rstart)
		select {
		case err := <-rret:
			return true, err
		case <-s.Context().Done():
			<-rb.done
			return true, context.Canceled
		}
	})))
	if err != nil {
		return err
	}
	defer u.Close()
	// the proxy
	hdone := make(chan struct{})
	var herr error
	w, err := NewWorld(c.T, srpc.NewMux(srpc.InvokerFunc(func(_, _ string, s srpc.Stream) (bool, error) {
		defer close(hdone)
		herr = rpcstream.HandleProxyRpcStream(rstrm{s}, func(ctx context.Context, id string) (rpcstream.RpcStreamCaller[rpcstream.RpcStream], string, func(), error) {
			mu.Lock()
			lookups++
			mu.Unlock()
			if id != c.ID {
				es.add(fmt.Errorf("looked up %q instead of %q", id, c.ID))
			}
			sleepUs(c.Delay)
			rel := func() { mu.Lock(); rels++; mu.Unlock() }
			if c.NoRel {
				rel = nil
			}
			switch c.What {
			case "none":
				return nil, "", nil, nil
			case "err":
				return nil, "", nil, errors.New(c.Err)
			}
			close(found)
			return func(ctx context.Context) (rpcstream.RpcStream, error) {
				mu.Lock()
				dials++
				mu.Unlock()
				switch c.What {
				case "dial":
					return nil, errors.New(c.Err)
				case "dialnil":
					return nil, nil
				}
				s, err := u.Client.NewStream(ctx, "back", "rpc", nil)
				if err != nil {
					return nil, err
				}
				return rstrm{s}, nil
			}, c.To, rel, nil
		})
		return true, herr
	})))
	if err != nil {
		return err
	}
	defer w.Close()
	in.Label("transport:"+c.T.Kind, "lookup:"+c.What)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	cleaned := func(when string) error {
		if err := vt.Await("the return of the proxy "+when, hdone); err != nil {
			return err
		}
		time.Sleep(time.Minute)
		mu.Lock()
		defer mu.Unlock()
		want := 0
		select {
		case <-found:
			if !c.NoRel {
				want = 1
			}
		default:
		}
		if rels != want {
			return fmt.Errorf("%s: released %d times, want %d", when, rels, want)
		}
		if lookups > 1 || dials > 1 {
			return fmt.Errorf("%s: %d lookups, %d dials", when, lookups, dials)
		}
		// yamux itself keeps a stream whose opening was cancelled.
		if k, _ := u.OpenStreams(); k > 0 && c.End != "cutback" && (c.Early == 0 || c.U.Kind == "fake") {
			return fmt.Errorf("%s: %d streams to the remote are not closed", when, k)
		}
		select {
		case <-rstart:
			select {
			case <-rgone:
			default:
				return fmt.Errorf("%s: the remote call was not ended", when)
			}
		default:
		}
		return es.get()
	}
	newStream := func(ctx context.Context) (rpcstream.RpcStream, error) {
		s, err := w.Client.NewStream(ctx, "nest", "proxy", nil)
		if err != nil {
			return nil, err
		}
		return rstrm{s}, nil
	}

	if c.First != nil {
		in.Label("unexpected first packet")
		in.NonTrivial = true
		s, err := newStream(ctx)
		if err != nil {
			return fmt.Errorf("NewStream: %w", err)
		}
		if c.First.K == "half" {
			_ = s.CloseSend()
		} else {
			_ = s.MsgSend(c.First.packet())
		}
		if err := cleaned("after an unexpected first packet"); err != nil {
			return err
		}
		if herr == nil || lookups != 0 {
			return fmt.Errorf("a first packet %q: handler returned %v after %d lookups", c.First.K, herr, lookups)
		}
		_ = s.Close()
		return nil
	}

	if c.Early > 0 {
		in.Label("cancelled early")
		in.NonTrivial = true
		time.AfterFunc(time.Duration(c.Early)*time.Microsecond, cancel)
		s, err := rpcstream.OpenRpcStream(ctx, newStream, c.ID, false)
		if err == nil {
			// the caller's context is watched while it receives.
			for err == nil {
				_, err = recv(s)
			}
			_ = s.Close()
		}
		time.Sleep(time.Minute)
		mu.Lock()
		none := lookups == 0
		mu.Unlock()
		if none {
			return nil
		}
		return cleaned("after cancelling early")
	}

	if c.What != "ok" {
		in.NonTrivial = true
		want := c.Err
		if want == "" {
			want = rpcstream.ErrNoServerForComponent.Error()
		}
		s, err := rpcstream.OpenRpcStream(ctx, newStream, c.ID, c.Ack)
		if c.Ack == (err == nil) {
			return fmt.Errorf("connecting fails with %q, opening returned %v", want, err)
		}
		if err == nil {
			p, rerr := s.Recv()
			if rerr == nil {
				err = errors.New(p.GetAck().GetError())
			} else {
				err = rerr
			}
			_ = s.Close()
		}
		if !strings.Contains(errText(err), want) {
			return fmt.Errorf("connecting fails with %q, the caller got %q", want, errText(err))
		}
		if err := cleaned("after failing to connect"); err != nil {
			return err
		}
		if errText(herr) != want || lookups != 1 {
			return fmt.Errorf("connecting fails with %q, the handler returned %v after %d lookups", want, herr, lookups)
		}
		return nil
	}

	// waiting for the acknowledgement is a packet from the remote.
	s, err := rpcstream.OpenRpcStream(ctx, newStream, c.ID, false)
	if err != nil {
		return fmt.Errorf("OpenRpcStream: %w", err)
	}
	if err := vt.Await("the call of the remote", rstart); err != nil {
		return errors.Join(es.get(), err)
	}
	p := &rpcstream.RpcStreamPacket{}
	if err := p.UnmarshalVT(first); err != nil || p.GetInit() == nil || p.GetInit().GetComponentId() != c.To {
		return fmt.Errorf("the remote received first %s (%v), want an init for %q", show(first), err, c.To)
	}
	sendAll := func(s srpc.Stream, ps []pkt, gap int) error {
		for i, b := range pktBytes(ps) {
			sleepUs(gap)
			if err := send(s, b); err != nil {
				return fmt.Errorf("sending packet %d of %d: %w", i, len(ps), err)
			}
		}
		return nil
	}
	ra := readPkts(s, len(c.B), c.WaitA)
	d := done(func() { es.add(sendAll(s, c.A, c.GapA)) })
	es.add(sendAll(remote, c.B, 0))
	for _, x := range []<-chan struct{}{d, ra.half, rb.half} {
		if err := vt.Await("the transfer of all packets", x); err != nil {
			return errors.Join(es.get(), err)
		}
	}
	if err := es.get(); err != nil {
		return err
	}
	mu.Lock()
	if rels != 0 {
		mu.Unlock()
		return errors.New("released while the proxy is used")
	}
	mu.Unlock()
	in.Label("end:" + c.End)
	in.NonTrivial = len(c.A) > 0 && len(c.B) > 0 || c.End != "return"
	var d1, d2 <-chan struct{}
	switch c.End {
	case "return", "rhalf":
		d2 = done(func() { _ = sendAll(s, c.A2, 0) })
		d1 = done(func() {
			es.add(sendAll(remote, c.B2, 0))
			if c.End == "rhalf" {
				es.add(remote.CloseSend())
			} else if c.RErr != "" {
				rret <- errors.New(c.RErr)
			} else {
				rret <- nil
			}
		})
	default:
		d2 = done(func() { _ = sendAll(remote, c.B2, 0) })
		d1 = done(func() {
			err := sendAll(s, c.A2, 0)
			switch c.End {
			case "half":
				es.add(err)
				es.add(s.CloseSend())
			case "close":
				_ = s.Close()
			case "cancel":
				cancel()
			case "cutfront":
				w.Cut(errCut)
			case "cutback":
				u.Cut(errCut)
			}
		})
	}
	for _, x := range []<-chan struct{}{d1, d2} {
		if err := vt.Await("the last packets", x); err != nil {
			return errors.Join(es.get(), err)
		}
	}
	for _, x := range []<-chan struct{}{ra.done, rb.done, rdone} {
		if err := vt.Await("the end of both sides after "+c.End, x); err != nil {
			return errors.Join(es.get(), err)
		}
	}
	wantA, wantB := pktBytes(c.A, c.A2), pktBytes(c.B, c.B2)
	if !pktPrefix(rb.got, wantA) {
		return fmt.Errorf("the caller sent %s, the remote received %s", showAll(wantA), showAll(rb.got))
	}
	if !pktPrefix(ra.got, wantB) {
		return fmt.Errorf("the remote sent %s, the caller received %s", showAll(wantB), showAll(ra.got))
	}
	switch c.End {
	case "return", "rhalf":
		if len(ra.got) != len(wantB) {
			return fmt.Errorf("the remote sent %d packets before its end, the caller received %d, then %v", len(wantB), len(ra.got), ra.end)
		}
	case "half":
		if len(rb.got) != len(wantA) {
			return fmt.Errorf("the caller sent %d packets before its end, the remote received %d, then %v", len(wantA), len(rb.got), rb.end)
		}
	}
	if ra.end == nil || rb.end == nil {
		return errors.New("no end")
	}
	if c.End == "return" && c.RErr != "" && c.RErr != "EOF" && ra.end == io.EOF {
		return fmt.Errorf("the remote ended with %q, the caller saw EOF", c.RErr)
	}
	if err := cleaned("after " + c.End); err != nil {
		return err
	}
	_ = s.Close()
	return nil
}
