package props

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
	"pgregory.net/rapid"
	"verif/harness/sched"
	"verif/harness/vt"
)

// comp is a component and what looking it up gives.
type comp struct {
	ID    string `json:"id"`
	What  string `json:"what"` // ok, none, err
	Err   string `json:"err,omitempty"`
	NoRel bool   `json:"norel,omitempty"`
	Delay int    `json:"delay,omitempty"`
}

type compCall struct {
	C     int    `json:"c"` // component (beyond the list: an ID nobody knows)
	Ack   bool   `json:"ack,omitempty"`
	Via   string `json:"via"` // unary, stream, open, first (an unexpected first packet)
	Err   string `json:"err,omitempty"`
	End   string `json:"end"`          // wait, cancel, close, cut
	At    int    `json:"at,omitempty"` // when it is cancelled or closed
	Start int    `json:"start,omitempty"`
	First pkt    `json:"first"`
	HWait int    `json:"hwait,omitempty"`
	Msg   Msg    `json:"msg"`
}

type c18Case struct {
	T     TCfg       `json:"t"`
	Comps []comp     `json:"comps"`
	Calls []compCall `json:"calls"`
}

func genID(t *rapid.T, label string) string {
	return pick(t, label, "", "a", "b", "a/b", "comp", "comp ", "Comp", "ünï ✓", "x\x00y", "%s", strings.Repeat("long", 700), string(genStr(t, label+"S")))
}

// lookup errors with an empty text cannot be told from success.
func genLookupErr(t *rapid.T, label string) string {
	return pick(t, label, "lookup failed", "EOF", "unimplemented", "context canceled", "é: multi\nline", "no server for that component?", strings.Repeat("z", 3000))
}

func genC18(t *rapid.T) c18Case {
	var c c18Case
	for i := range rapid.IntRange(1, 4).Draw(t, "ncomps") {
		k := comp{ID: genID(t, "id"), What: pick(t, "what", "ok", "ok", "ok", "none", "err"), Delay: pick(t, "delay", 0, 0, 100, 5000)}
		for _, o := range c.Comps {
			if o.ID == k.ID {
				k.ID += fmt.Sprint("#", i)
			}
		}
		switch k.What {
		case "ok":
			k.NoRel = rapid.IntRange(0, 4).Draw(t, "norel") == 0
		case "err":
			k.Err = genLookupErr(t, "lerr")
		}
		c.Comps = append(c.Comps, k)
	}
	for range pick(t, "ncalls", 1, 1, 2, 3, 6) {
		k := compCall{
			C: rapid.IntRange(0, len(c.Comps)).Draw(t, "c"), Ack: rapid.Bool().Draw(t, "ack"),
			Via: pick(t, "via", "unary", "unary", "stream", "stream", "open", "first"),
			End: pick(t, "end", "wait", "wait", "wait", "cancel", "close", "cut"), Start: pick(t, "start", 0, 0, 500),
			HWait: pick(t, "hwait", 0, 0, 3000), Msg: genMsg(t, false, "msg"),
		}
		if rapid.IntRange(0, 3).Draw(t, "herr") == 0 {
			k.Err = genErrText(t, "err")
		}
		if k.Via == "unary" && k.End == "close" {
			k.End = "cancel"
		}
		if k.Via == "first" || k.Via == "open" {
			k.End = "wait"
			k.First = pkt{K: pick(t, "fk", "data", "ack", "none", "half", "close")}
			if k.First.K == "data" {
				k.First.M = genMsg(t, false, "fm")
			}
			if k.First.K == "ack" {
				k.First.T = pick(t, "ft", "", "x")
			}
		}
		if k.End != "wait" {
			k.At = rapid.IntRange(0, 8000).Draw(t, "at")
		}
		c.Calls = append(c.Calls, k)
	}
	c.T = genTCfg(t, 3200, "fake", "fake", "fake", "yamux", "yamux", "rwc")
	// a rejected stream is closed while its caller may still write: on a strict
	// transport that write fails with the transport's error.
	c.T.Out.Strict, c.T.In.Strict = false, false
	return c
}

func TestC18_Open(t *testing.T) {
	vt.Check(t, vt.Prop[c18Case]{
		Rule:  "1-4 components with drawn IDs whose lookups succeed (with or without a release function), find nothing or fail after drawn delays, and 1-6 concurrent unary calls, streams, plain opens and unexpected first packets towards them, with or without waiting for the acknowledgement, ending by themselves, cancelled, closed or cut off at drawn times; lookups (count and ID), acknowledgement, answers, what was served, and releases are checked; non-trivial: a call not ending with a plain success, or two components",
		Quick: 24000, Thorough: 500000,
		Gen: genC18,
		Run: func(t *testing.T, c c18Case, in *vt.Info) error {
			return bubble(t, c.T.Sched, true, func() error { return runC18(c, in) })
		},
	})
}

func runC18(c c18Case, in *vt.Info) error {
	var mu sync.Mutex
	var es errs
	lookups := map[string]int{} // by component ID
	served := map[string]int{}
	acquired, released := 0, 0
	running := map[int]int{} // calls of handlers by lookup
	cutAny, allWait := false, true
	for _, k := range c.Calls {
		cutAny = cutAny || k.End == "cut"
		allWait = allWait && k.End == "wait"
	}
	lock := func(f func()) { mu.Lock(); defer mu.Unlock(); f() }
	find := func(id string) *comp {
		for i := range c.Comps {
			if c.Comps[i].ID == id {
				return &c.Comps[i]
			}
		}
		return nil
	}
	nlook := 0
	lookedUp := map[string]time.Time{} // end of the last lookup
	getter := func(ctx context.Context, id string) (srpc.Invoker, func(), error) {
		k := find(id)
		my := 0
		lock(func() { lookups[id]++; nlook++; my = nlook })
		if k == nil {
			return nil, nil, nil
		}
		sleepUs(k.Delay)
		lock(func() { lookedUp[id] = time.Now() })
		switch k.What {
		case "none":
			return nil, nil, nil
		case "err":
			return nil, nil, errors.New(k.Err)
		}
		lock(func() { acquired++ })
		rels := 0
		inv := srpc.InvokerFunc(func(svc, met string, s srpc.Stream) (bool, error) {
			// busy until it answers: then the caller may end the call.
			lock(func() { served[id]++; running[my]++ })
			over := sync.OnceFunc(func() { lock(func() { running[my]-- }) })
			defer over()
			if svc != "svc" {
				return false, nil
			}
			b, err := recv(s)
			if err != nil {
				return true, err
			}
			var n int
			_, _ = fmt.Sscanf(met, "m%d", &n)
			sleepUs(c.Calls[n].HWait)
			if e := c.Calls[n].Err; e != "" {
				return true, errors.New(e)
			}
			over()
			return true, send(s, append([]byte(id+"|"), b...))
		})
		if k.NoRel {
			lock(func() { released++ })
			return inv, nil, nil
		}
		return inv, func() {
			lock(func() {
				rels++
				released++
				if rels > 1 {
					es.add(fmt.Errorf("component %q was released %d times", id, rels))
				}
				if running[my] > 0 && allWait && ctx.Err() == nil {
					es.add(fmt.Errorf("component %q was released while its handler was running", id))
				}
			})
		}, nil
	}
	mux := srpc.NewMux()
	firstErr := map[string]error{}
	_ = mux.Register(&handler{svc: "nest", mets: []string{"rpc", "first"}, fn: func(_, met string, s srpc.Stream) (bool, error) {
		err := rpcstream.HandleRpcStream(rstrm{s}, getter)
		if met == "first" {
			lock(func() { firstErr[met] = err })
			if err == nil {
				es.add(errors.New("HandleRpcStream accepted a stream without an init packet"))
			}
		}
		return true, err
	}})
	w, err := NewWorld(c.T, mux)
	if err != nil {
		return err
	}
	defer w.Close()
	in.Label("transport:" + c.T.Kind)
	want := map[string]int{} // lookups for certain
	upto := map[string]int{} // at most
	wantServed, maxServed := map[string]int{}, map[string]int{}
	var wg sync.WaitGroup
	ids := map[int]bool{}
	for i, k := range c.Calls {
		id, what, lerr := "nobody", "none", ""
		if k.C < len(c.Comps) {
			id, what, lerr = c.Comps[k.C].ID, c.Comps[k.C].What, c.Comps[k.C].Err
		}
		if k.C == len(c.Comps) && find("nobody") != nil {
			continue
		}
		ids[k.C] = true
		in.Label("via:"+k.Via, "lookup:"+what, "end:"+k.End)
		if what != "ok" || k.Err != "" || k.End != "wait" || k.Via == "first" {
			in.NonTrivial = true
		}
		if k.Via != "first" {
			upto[id]++
			if k.End == "wait" && !cutAny {
				want[id]++
			}
			if what == "ok" && k.Via != "open" {
				maxServed[id]++
				if k.End == "wait" && !cutAny {
					wantServed[id]++
				}
			}
		}
		name := fmt.Sprintf("call %d (%s to %q, lookup %s %q, ack %v)", i, k.Via, id, what, lerr, k.Ack)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		caller := func(ctx context.Context) (rpcstream.RpcStream, error) {
			s, err := w.Client.NewStream(ctx, "nest", "rpc", nil)
			if err != nil {
				return nil, err
			}
			return rstrm{s}, nil
		}
		// lookupErr checks an error that a failed lookup caused.
		lookupErr := func(err error) {
			if err == nil {
				es.add(fmt.Errorf("%s: succeeded", name))
			} else if what == "none" && !strings.Contains(err.Error(), rpcstream.ErrNoServerForComponent.Error()) {
				es.add(fmt.Errorf("%s: failed with %q", name, err))
			} else if what == "err" && !strings.Contains(err.Error(), lerr) {
				es.add(fmt.Errorf("%s: failed with %q", name, err))
			}
		}
		answer := func(b []byte, err error) {
			if k.End != "wait" || cutAny {
				if err == nil && what == "ok" && k.Err == "" && string(b) != id+"|"+string(k.Msg.Bytes()) {
					es.add(fmt.Errorf("%s: answered with %s", name, show(b)))
				} else if err == nil && (what != "ok" || k.Err != "") {
					es.add(fmt.Errorf("%s: succeeded", name))
				}
				return
			}
			switch {
			case what != "ok":
				lookupErr(err)
			case k.Err != "":
				if errText(err) != k.Err {
					es.add(fmt.Errorf("%s: got %q, the handler returned %q", name, errText(err), k.Err))
				}
			case err != nil:
				es.add(fmt.Errorf("%s: failed with %q", name, err))
			case string(b) != id+"|"+string(k.Msg.Bytes()):
				es.add(fmt.Errorf("%s: answered with %s", name, show(b)))
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			sleepUs(k.Start)
			switch k.End {
			case "cancel":
				time.AfterFunc(time.Duration(k.At)*time.Microsecond, cancel)
			case "cut":
				time.AfterFunc(time.Duration(k.At)*time.Microsecond, func() { w.Cut(errCut) })
			}
			cl := rpcstream.NewRpcStreamClient(caller, id, k.Ack)
			met := fmt.Sprintf("m%d", i)
			switch k.Via {
			case "unary":
				out := srpc.NewRawMessage(nil, true)
				err := cl.ExecCall(ctx, "svc", met, raw(k.Msg.Bytes()), out)
				answer(out.GetData(), err)
			case "stream":
				s, err := cl.NewStream(ctx, "svc", met, nil)
				if err != nil {
					answer(nil, err)
					return
				}
				if k.Ack && what != "ok" {
					es.add(fmt.Errorf("%s: NewStream succeeded although it waits for the acknowledgement", name))
				}
				if k.End == "close" {
					time.AfterFunc(time.Duration(k.At)*time.Microsecond, func() { _ = s.Close() })
				}
				if err := send(s, k.Msg.Bytes()); err != nil && k.End == "wait" && !cutAny && what == "ok" {
					es.add(fmt.Errorf("%s: sending failed: %w", name, err))
				}
				b, err := recv(s)
				if err == nil {
					if _, err2 := recv(s); err2 != io.EOF && k.End == "wait" && !cutAny {
						es.add(fmt.Errorf("%s: ended with %v", name, err2))
					}
				}
				answer(b, err)
				_ = s.Close()
			case "open":
				s, err := rpcstream.OpenRpcStream(ctx, caller, id, k.Ack)
				if cutAny {
					if s != nil {
						_ = s.Close()
					}
					return
				}
				if k.Ack {
					lock(func() {
						if at := lookedUp[id]; at.IsZero() && find(id) != nil {
							es.add(fmt.Errorf("%s: opened before the component was looked up", name))
						}
					})
				}
				switch {
				case err != nil && (!k.Ack || what == "ok"):
					es.add(fmt.Errorf("%s: %w", name, err))
				case err == nil && k.Ack && what != "ok":
					es.add(fmt.Errorf("%s: opening succeeded", name))
				case err != nil:
					lookupErr(err)
				}
				if err != nil {
					return
				}
				if !k.Ack {
					// the acknowledgement comes as the first packet.
					p, err := s.Recv()
					ack, ok := p.GetBody().(*rpcstream.RpcStreamPacket_Ack)
					if err != nil || !ok {
						es.add(fmt.Errorf("%s: received %v, %v instead of an acknowledgement", name, p, err))
					} else if what == "ok" && ack.Ack.GetError() != "" {
						es.add(fmt.Errorf("%s: acknowledged with %q", name, ack.Ack.GetError()))
					} else if what != "ok" {
						lookupErr(errors.New(ack.Ack.GetError()))
					}
				}
				_ = s.Close()
			case "first":
				s, err := w.Client.NewStream(ctx, "nest", "first", nil)
				if err != nil {
					if !cutAny {
						es.add(fmt.Errorf("%s: NewStream: %w", name, err))
					}
					return
				}
				switch k.First.K {
				case "half":
					_ = s.CloseSend()
				case "close":
					_ = s.Close()
					return
				default:
					_ = s.MsgSend(k.First.packet())
				}
				p, err := (rstrm{s}).Recv()
				for err == nil && p.GetAck().GetError() != "" {
					p, err = (rstrm{s}).Recv() // a rejecting acknowledgement is fine
				}
				if err == nil {
					es.add(fmt.Errorf("%s: a first packet %v was answered with %v", name, k.First, p))
				} else if err == io.EOF && k.First.K != "half" && !cutAny {
					es.add(fmt.Errorf("%s: a first packet %v ended the call without an error", name, k.First))
				}
				_ = s.Close()
			}
		}()
	}
	if err := vt.Await("the end of all calls", done(wg.Wait)); err != nil {
		return errors.Join(es.get(), err)
	}
	w.Settle()
	time.Sleep(time.Minute)
	in.NonTrivial = in.NonTrivial || len(ids) > 1
	if err := es.get(); err != nil {
		return err
	}
	mu.Lock()
	defer mu.Unlock()
	for id, n := range lookups {
		if n > upto[id] {
			return fmt.Errorf("component %q was looked up %d times for %d streams", id, n, upto[id])
		}
	}
	for id, n := range want {
		if lookups[id] < n {
			return fmt.Errorf("component %q was looked up %d times for %d streams", id, lookups[id], n)
		}
	}
	for id, n := range served {
		if n > maxServed[id] {
			return fmt.Errorf("component %q served %d calls of %d", id, n, maxServed[id])
		}
	}
	for id, n := range wantServed {
		if served[id] < n {
			return fmt.Errorf("component %q served %d calls of %d", id, served[id], n)
		}
	}
	if acquired != released {
		return fmt.Errorf("%d components were acquired and %d released", acquired, released)
	}
	return nil
}

// c18Script has one side of opening a stream, and a scripted stream.
type c18Script struct {
	Side   string       `json:"side"` // opener, handler
	ID     string       `json:"id"`
	Ack    bool         `json:"ack,omitempty"`
	In     []pkt        `json:"in"`
	Call   bool         `json:"call,omitempty"` // handler: the second packet starts a call
	End    string       `json:"end,omitempty"`
	Fail   int          `json:"fail"`
	Dial   string       `json:"dial,omitempty"`
	Comp   comp         `json:"comp"`
	Met    Msg          `json:"met"`
	Sched  sched.Config `json:"sched"`
	Nested bool         `json:"nested,omitempty"`
}

func TestC18_Script(t *testing.T) {
	vt.Check(t, vt.Prop[c18Script]{
		Rule:  "OpenRpcStream, or HandleRpcStream with a drawn lookup outcome, over a scripted stream which receives drawn packets (any first packet), then EOF or an error, and on which sending fails at a drawn packet; packets sent, result, lookups, serving, closing and releasing compared with a model; non-trivial: the first packet is not the expected one, or a fault, or a lookup that fails",
		Quick: 40000, Thorough: 1000000,
		Gen: func(t *rapid.T) c18Script {
			c := c18Script{Side: pick(t, "side", "opener", "handler", "handler"), ID: genID(t, "id"), Ack: rapid.Bool().Draw(t, "ack"), Fail: -1, Sched: genSched(t)}
			exp := "init"
			if c.Side == "opener" {
				exp = "ack"
			}
			for i := range rapid.IntRange(0, 3).Draw(t, "n") {
				p := pkt{K: pick(t, "k", exp, exp, exp, exp, "data", "ack", "init", "none")}
				switch {
				case p.K == "data":
					p.M = genMsg(t, false, "m")
				case p.K == "init" && i == 0:
					p.T = c.ID
				case p.K == "ack" && rapid.IntRange(0, 2).Draw(t, "aerr") == 0:
					p.T = genLookupErr(t, "t")
				}
				c.In = append(c.In, p)
			}
			if rapid.Bool().Draw(t, "hasEnd") {
				c.End = genErrText(t, "end")
			}
			if rapid.IntRange(0, 3).Draw(t, "f") == 0 {
				c.Fail = rapid.IntRange(0, 2).Draw(t, "fail")
			}
			if c.Side == "opener" && rapid.IntRange(0, 5).Draw(t, "d") == 0 {
				c.Dial = genErrText(t, "dial")
			}
			c.Call = rapid.IntRange(0, 2).Draw(t, "call") != 0
			c.Comp = comp{What: pick(t, "what", "ok", "ok", "ok", "none", "err"), NoRel: rapid.IntRange(0, 3).Draw(t, "norel") == 0}
			if c.Comp.What == "err" {
				c.Comp.Err = genLookupErr(t, "lerr")
			}
			return c
		},
		Run: func(t *testing.T, c c18Script, in *vt.Info) error {
			return bubble(t, c.Sched, false, func() error { return runC18Script(c, in) })
		},
	})
}

func runC18Script(c c18Script, in *vt.Info) error {
	in.Label("side:" + c.Side)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	s := &script{ctx: ctx, end: io.EOF, failAt: c.Fail, serr: errors.New("send failed")}
	if c.End != "" {
		s.end = errors.New(c.End)
	}
	for i, p := range c.In {
		if i == 1 && c.Call && c.Side == "handler" {
			b, _ := (&srpc.Packet{Body: &srpc.Packet_CallStart{CallStart: &srpc.CallStart{RpcService: "svc", RpcMethod: "met", Data: []byte("x")}}}).MarshalVT()
			p = pkt{K: "data", M: Msg{L: b}}
		} else if i > 0 && c.Side == "handler" && p.K == "data" {
			p.K = "none"
		}
		b, err := p.packet().MarshalVT()
		if err != nil {
			return vt.Infra(err)
		}
		s.in = append(s.in, b)
	}
	decode := func(i int) *rpcstream.RpcStreamPacket {
		p := &rpcstream.RpcStreamPacket{}
		if err := p.UnmarshalVT(s.sent[i]); err != nil {
			return nil
		}
		return p
	}
	first := pkt{K: "end"}
	if len(c.In) > 0 {
		first = c.In[0]
	}

	if c.Side == "opener" {
		out, err := rpcstream.OpenRpcStream(ctx, func(cctx context.Context) (rpcstream.RpcStream, error) {
			if cctx != ctx {
				return nil, errors.New("called with another context")
			}
			if c.Dial != "" {
				return nil, errors.New(c.Dial)
			}
			return rstrm{s}, nil
		}, c.ID, c.Ack)
		var want string // error; "*": any
		closed := 1
		switch {
		case c.Dial != "":
			want, closed = c.Dial, 0
		case c.Fail == 0:
			want = s.serr.Error()
		case !c.Ack:
			closed = 0
		case first.K == "end":
			want = s.end.Error()
		case first.K == "ack" && first.T != "":
			want = first.T
		case first.K != "ack":
			want = "*"
		default:
			closed = 0
		}
		in.NonTrivial = want != ""
		in.LabelIf(want != "", "fails")
		if (want == "") != (err == nil) || (want != "" && want != "*" && !strings.Contains(errText(err), want)) {
			return fmt.Errorf("OpenRpcStream returned %q, want %q", errText(err), want)
		}
		if (out != nil) != (err == nil) {
			return fmt.Errorf("OpenRpcStream returned %v, %v", out, err)
		}
		if s.closes != closed && (closed == 0 || s.closes == 0) {
			return fmt.Errorf("the stream was closed %d times, want %d (error %v)", s.closes, closed, err)
		}
		if c.Dial == "" && c.Fail != 0 {
			if len(s.sent) != 1 || decode(0).GetInit() == nil || decode(0).GetInit().GetComponentId() != c.ID {
				return fmt.Errorf("sent %d packets instead of one init for %q", len(s.sent), c.ID)
			}
		}
		if !c.Ack && s.recvs != 0 {
			return errors.New("received although it does not wait for the acknowledgement")
		}
		if err == nil && c.Ack && s.recvs != 1 {
			return fmt.Errorf("received %d packets", s.recvs)
		}
		return nil
	}

	lookups, served, rels := 0, 0, 0
	var mu sync.Mutex
	var herr error
	err := rpcstream.HandleRpcStream(rstrm{s}, func(gctx context.Context, id string) (srpc.Invoker, func(), error) {
		lookups++
		if id != c.ID {
			herr = fmt.Errorf("looked up %q instead of %q", id, c.ID)
		}
		s.mu.Lock()
		if len(s.sent) != 0 {
			herr = errors.New("acknowledged before the lookup")
		}
		s.mu.Unlock()
		switch c.Comp.What {
		case "none":
			return nil, nil, nil
		case "err":
			return nil, nil, errors.New(c.Comp.Err)
		}
		rel := func() { rels++ }
		if c.Comp.NoRel {
			rel = nil
		}
		return srpc.InvokerFunc(func(_, _ string, st srpc.Stream) (bool, error) {
			mu.Lock()
			served++
			mu.Unlock()
			return true, send(st, []byte("y"))
		}), rel, nil
	})
	cancel()
	time.Sleep(time.Minute)
	mu.Lock()
	defer mu.Unlock()
	s.mu.Lock()
	defer s.mu.Unlock()
	if herr != nil {
		return herr
	}
	wantLook := 0
	if first.K == "init" {
		wantLook = 1
	}
	in.NonTrivial = wantLook == 0 || c.Fail >= 0 || c.Comp.What != "ok"
	in.Label("first:"+first.K, "lookup:"+c.Comp.What)
	if lookups != wantLook {
		return fmt.Errorf("%d lookups for a stream starting with %v", lookups, first.K)
	}
	ok := wantLook == 1 && c.Comp.What == "ok"
	if !ok || c.Fail == 0 {
		if err == nil {
			return errors.New("HandleRpcStream succeeded")
		}
		if served != 0 {
			return errors.New("a call was served")
		}
	}
	if wantLook == 0 && first.K == "end" && errText(err) != errText(s.end) {
		return fmt.Errorf("HandleRpcStream returned %q, the stream failed with %q", err, s.end)
	}
	if wantLook == 1 && c.Fail != 0 {
		want := c.Comp.Err
		if c.Comp.What == "none" {
			want = rpcstream.ErrNoServerForComponent.Error()
		}
		if len(s.sent) == 0 || decode(0) == nil {
			return errors.New("no acknowledgement was sent")
		}
		a, isAck := decode(0).GetBody().(*rpcstream.RpcStreamPacket_Ack)
		if !isAck || a.Ack.GetError() != want {
			return fmt.Errorf("the first packet sent is %v, want an acknowledgement with %q", decode(0), want)
		}
		if !ok && errText(err) != want {
			return fmt.Errorf("HandleRpcStream returned %q, want %q", errText(err), want)
		}
	}
	if ok && c.Fail < 0 && c.Call && len(c.In) > 1 && served != 1 {
		return fmt.Errorf("%d calls were served instead of one", served)
	}
	want := 0
	if ok && !c.Comp.NoRel {
		want = 1
	}
	if rels != want {
		return fmt.Errorf("released %d times, want %d", rels, want)
	}
	return nil
}
