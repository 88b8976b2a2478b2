package props

import (
	"bytes"
	"context"
	"encoding/base64"
	"errors"
	"fmt"
	"sync"
	"testing"

	"github.com/aperturerobotics/starpc/echo"
	"github.com/aperturerobotics/starpc/srpc"
	"pgregory.net/rapid"
	"verif/harness/vt"
)

type uCall struct {
	Svc    int    `json:"svc"`
	Met    int    `json:"met"`
	Req    Msg    `json:"req"`
	Start  int    `json:"start,omitempty"`
	HDelay int    `json:"hdelay,omitempty"`
	Back   bool   `json:"back,omitempty"` // called from the accepting end
	What   string `json:"what"`           // ok, err, none (no response)
	Resp   Msg    `json:"resp"`
	Err    string `json:"err,omitempty"`
	Echo   bool   `json:"echo,omitempty"`
	Cancel int    `json:"cancel,omitempty"` // cancel the caller's context after this time (us)
}

type c01Case struct {
	T     TCfg    `json:"t"`
	Calls []uCall `json:"calls"`
	Cut   int     `json:"cut,omitempty"`
	Nest  Nest    `json:"nest"`
}

var (
	uSvcs = []string{"svc.A", "svc.B", "a", "missing.Svc"}
	uMets = []string{"M", "N", "long.method/name with space", "Missing"}
)

func genErrText(t *rapid.T, label string) string {
	return pick(t, label, "boom", "EOF", "unimplemented", "context canceled", "x", "err: with: colons\nand newline", "ünïcode ✓", "%s %d", "a long text "+string(bytes.Repeat([]byte("y"), 3000)))
}

// maybeBig says whether the case may have messages over 8 KiB.
func maybeBig(t *rapid.T) bool { return rapid.IntRange(0, 4).Draw(t, "big") == 0 }

func genC01(t *rapid.T) c01Case {
	var c c01Case
	big := maybeBig(t)
	faults := rapid.IntRange(0, 3).Draw(t, "faults") == 0
	n := pick(t, "ncalls", 1, 1, 2, 3, 5, 8, 12)
	if big {
		n = min(n, 4)
	}
	maxMsg := 0
	for range n {
		u := uCall{
			Svc:    pick(t, "svc", 0, 0, 0, 1, 1, 2, 3),
			Met:    pick(t, "met", 0, 0, 0, 1, 1, 2, 3),
			Req:    genMsg(t, big, "req"),
			Start:  pick(t, "start", 0, 0, 0, 10, 500),
			HDelay: pick(t, "hdelay", 0, 0, 100, 2000, 20000),
			What:   pick(t, "what", "ok", "ok", "ok", "ok", "err", "none"),
			Echo:   rapid.IntRange(0, 3).Draw(t, "echo") == 0,
		}
		switch u.What {
		case "ok":
			u.Resp = genMsg(t, big, "resp")
		case "err":
			u.Err = genErrText(t, "err")
		}
		if faults && rapid.IntRange(0, 2).Draw(t, "doCancel") == 0 {
			u.Cancel = pick(t, "cancel", 1, 50, 1000, 10000)
		}
		maxMsg = max(maxMsg, u.Req.Len(), u.Resp.Len())
		c.Calls = append(c.Calls, u)
	}
	c.T = genTCfg(t, maxMsg, connKinds...)
	if faults && rapid.IntRange(0, 2).Draw(t, "doCut") == 0 {
		c.Cut = pick(t, "cut", 1, 100, 3000, 15000)
	}
	return c
}

func echoOf(m Msg) *echo.EchoMsg {
	return &echo.EchoMsg{Body: base64.StdEncoding.EncodeToString(m.Bytes())}
}

func runC01(t *testing.T, c c01Case, in *vt.Info) error {
	type key struct {
		svc, met int
		req      string
	}
	// contents on the wire.
	wireOf := func(u uCall, m Msg) []byte {
		if !u.Echo {
			return m.Bytes()
		}
		b, err := echoOf(m).MarshalVT()
		if err != nil {
			panic(err)
		}
		return b
	}
	keyOf := func(u uCall) key { return key{u.Svc, u.Met, string(wireOf(u, u.Req))} }
	// calls with the same key share the behaviour of the first of them.
	spec := map[key]uCall{}
	want := map[key]int{}
	uncertain := map[key]bool{}
	for i, u := range c.Calls {
		k := keyOf(u)
		if f, ok := spec[k]; ok {
			c.Calls[i].What, c.Calls[i].Resp, c.Calls[i].Err, c.Calls[i].Echo = f.What, f.Resp, f.Err, f.Echo
			if f.Echo && !u.Echo || u.Echo && !f.Echo {
				c.Calls[i].Req = f.Req
			}
		} else {
			spec[k] = u
		}
		want[k]++
		if u.Cancel > 0 || c.Cut > 0 {
			uncertain[k] = true
		}
	}
	err := bubble(t, c.T.Sched, true, func() error {
		var es errs
		var mu sync.Mutex
		got := map[key]int{}
		mux := srpc.NewMux()
		for si := range 3 {
			svc := uSvcs[si]
			h := &handler{svc: svc, mets: uMets[:3]}
			h.fn = func(sv, me string, strm srpc.Stream) (bool, error) {
				if sv != svc {
					es.add(fmt.Errorf("handler of %q called for service %q", svc, sv))
				}
				mi := -1
				for i, m := range uMets[:3] {
					if m == me {
						mi = i
					}
				}
				if mi < 0 {
					es.add(fmt.Errorf("handler called for method %q", me))
					return true, nil
				}
				b, err := recv(strm)
				if err != nil {
					if c.Cut == 0 && !anyCancel(c) {
						es.add(fmt.Errorf("handler of %s/%s cannot read the request: %v", sv, me, err))
					}
					return true, err
				}
				k := key{si, mi, string(b)}
				mu.Lock()
				u, ok := spec[k]
				if !ok {
					mu.Unlock()
					es.add(fmt.Errorf("handler of %s/%s got a request nobody sent: %s", sv, me, show(b)))
					return true, nil
				}
				got[k]++
				mu.Unlock()
				sleepUs(u.HDelay)
				switch u.What {
				case "err":
					return true, errors.New(u.Err)
				case "none":
					return true, nil
				}
				if u.Echo {
					return true, strm.MsgSend(echoOf(u.Resp))
				}
				return true, send(strm, u.Resp.Bytes())
			}
			if err := mux.Register(h); err != nil {
				return vt.Infra(err)
			}
		}
		w, err := NewNestWorld(c.T, c.Nest, mux)
		if err != nil {
			return err
		}
		defer w.Close()
		var wg sync.WaitGroup
		for i, u := range c.Calls {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sleepUs(u.Start)
				ctx, cancel := context.WithCancel(context.Background())
				defer cancel()
				if u.Cancel > 0 {
					go func() { sleepUs(u.Cancel); cancel() }()
				}
				what := fmt.Sprintf("call %d (%s/%s, request %s)", i, uSvcs[u.Svc], uMets[u.Met], show(u.Req.Bytes()))
				var err error
				var resp []byte
				if u.Echo {
					out := &echo.EchoMsg{Body: "garbage before"}
					out.Reset()
					if err = w.Client.ExecCall(ctx, uSvcs[u.Svc], uMets[u.Met], echoOf(u.Req), out); err == nil {
						if resp, err = base64.StdEncoding.DecodeString(out.Body); err != nil {
							es.add(fmt.Errorf("%s: response corrupted: %q", what, out.Body))
							return
						}
					}
				} else {
					out := srpc.NewRawMessage(nil, true)
					err = w.Client.ExecCall(ctx, uSvcs[u.Svc], uMets[u.Met], raw(u.Req.Bytes()), out)
					resp = out.GetData()
				}
				missing := u.Svc == 3 || u.Met == 3
				if err == nil {
					switch {
					case missing:
						es.add(fmt.Errorf("%s: succeeded without a handler", what))
					case u.What != "ok":
						es.add(fmt.Errorf("%s: succeeded with %s although its handler sent no response (%s %q)", what, show(resp), u.What, u.Err))
					case !bytes.Equal(resp, u.Resp.Bytes()):
						es.add(fmt.Errorf("%s: got response %s, handler sent %s", what, show(resp), show(u.Resp.Bytes())))
					}
					return
				}
				if c.Cut > 0 || u.Cancel > 0 {
					return
				}
				switch {
				case missing:
					if err.Error() != "unimplemented" {
						es.add(fmt.Errorf("%s: got error %q for a missing handler", what, err))
					}
				case u.What == "ok":
					es.add(fmt.Errorf("%s: failed with %q, handler responded", what, err))
				case u.What == "err" && err.Error() != u.Err:
					es.add(fmt.Errorf("%s: got error %q, handler returned %q", what, err, u.Err))
				}
			}()
		}
		if c.Cut > 0 {
			go func() { sleepUs(c.Cut); w.Cut(errors.New("cut")) }()
		}
		if err := vt.Await("the end of all calls", done(wg.Wait)); err != nil {
			return errors.Join(err, es.get())
		}
		mu.Lock()
		for k, n := range want {
			if k.svc == 3 || k.met == 3 {
				continue
			}
			if g := got[k]; g > n || (g < n && !uncertain[k]) {
				es.add(fmt.Errorf("handler of %s/%s ran %d times for %d calls with request %s", uSvcs[k.svc], uMets[k.met], g, n, show([]byte(k.req))))
			}
		}
		mu.Unlock()
		return es.get()
	})
	in.Label("transport:" + c.T.Kind)
	conc, errc, empty, bigm := false, false, false, false
	for _, u := range c.Calls {
		errc = errc || u.What != "ok" || u.Svc == 3 || u.Met == 3
		empty = empty || u.Req.Len() == 0 || (u.What == "ok" && u.Resp.Len() == 0)
		bigm = bigm || u.Req.Len() > 2048 || u.Resp.Len() > 2048
	}
	conc = len(c.Calls) > 1
	in.LabelIf(conc, "concurrent")
	in.LabelIf(errc, "error status")
	in.LabelIf(empty, "empty message")
	in.LabelIf(bigm, "message over 2048")
	in.LabelIf(c.Cut > 0, "cut")
	in.LabelIf(anyCancel(c), "cancel")
	in.LabelIf(c.T.Sched.Prob > 0, "schedule perturbed")
	in.NonTrivial = conc || errc || empty || bigm
	return err
}

func anyCancel(c c01Case) bool {
	for _, u := range c.Calls {
		if u.Cancel > 0 {
			return true
		}
	}
	return false
}

func TestC01_Unary(t *testing.T) {
	vt.Check(t, vt.Prop[c01Case]{
		Rule:  "1-12 unary calls to 3 services x 3 methods (some missing), with contents, results, delays, transport, chunking, schedule and (in a quarter) cancellation or disconnect drawn; non-trivial: concurrent calls, or an error status, or an empty message, or one over 2048 bytes",
		Quick: 40000, Thorough: 600000, Gen: genC01, Run: runC01,
	})
}
