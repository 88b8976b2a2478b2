package ts

import (
	"errors"
	"fmt"
	"slices"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"verif/harness/vt"
)

type echoCall struct {
	tsCall
	Nested bool   `json:"nested,omitempty"`
	ID     string `json:"id,omitempty"`
	Ack    bool   `json:"ack,omitempty"`
}

type echoCase struct {
	T       transport  `json:"t"`
	NoProxy bool       `json:"noProxy,omitempty"`
	Calls   []echoCall `json:"calls"`
	Cut     int        `json:"cut"`
}

// answers are what the Echoer server answers, and the error at the end.
func (c *echoCall) answers() ([]string, string) {
	switch c.Kind {
	case "unary":
		return c.Send, ""
	case "nothing":
		return []string{"{}"}, ""
	case "server":
		return slices.Repeat(c.Send, 5), ""
	case "client":
		if len(c.Send) == 0 {
			return nil, "received no messages"
		}
		return c.Send[:1], ""
	}
	return append([]string{"hello from server"}, c.Send...), ""
}

func (r *callRec) checkEcho(c *echoCall, noProxy, cut bool) error {
	if !r.Done || r.CEnd == nil {
		return errors.New("the caller is blocked")
	}
	want, wantEnd := c.answers()
	if wantEnd == "" {
		wantEnd = "EOF"
	}
	end := *r.CEnd
	if c.Nested && noProxy {
		want, wantEnd = nil, "rpc stream proxy server not set"
	}
	if !isPrefix(r.CGot, want) {
		return fmt.Errorf("the server answers %s, the caller received %s", brief(want), brief(r.CGot))
	}
	switch {
	case end == "left" && c.Reads >= 0 && len(r.CGot) == c.Reads:
		return nil
	case end == wantEnd && len(r.CGot) == len(want):
		if c.Kind == "server" && r.CAt < c.Start+1000 && wantEnd == "EOF" {
			return fmt.Errorf("the five answers took %d ms", r.CAt-c.Start)
		}
		return nil
	case c.Nested && noProxy && end != "EOF" && (!c.Ack || strings.HasSuffix(end, wantEnd)):
		return nil
	case end == "EOF":
		return fmt.Errorf("the server answers %s, then %q, the caller received %s and the clean end", brief(want), wantEnd, brief(r.CGot))
	case cut, c.Abort >= 0 && end == "ERR_RPC_ABORT":
		return nil
	}
	return fmt.Errorf("the server answers %s, then %q, the caller received %s, then %q", brief(want), wantEnd, brief(r.CGot), end)
}

func TestC35_TypeScript(t *testing.T) {
	vt.Check(t, vt.Prop[echoCase]{
		Rule:  "1-4 concurrent calls of drawn methods of the EchoerServer of echo/server.ts (Echo, EchoServerStream, EchoClientStream, EchoBidiStream, DoNothing; one in three through RpcStream, with or without a server for it) with 0-4 drawn messages and pauses, callers which abort or leave, or a lost connection, over the transports of C27; non-trivial: a streaming or nested call, or an empty message",
		Quick: 20000, Thorough: 300000,
		Gen: func(t *rapid.T) echoCase {
			c := echoCase{T: genTransport(t), Cut: -1, NoProxy: rapid.IntRange(0, 5).Draw(t, "noproxy") == 0}
			if rapid.IntRange(0, 7).Draw(t, "cuts") == 0 {
				c.Cut = pick(t, "cut", 0, 1, 10, 60, 500)
			}
			for range rapid.IntRange(1, 4).Draw(t, "ncalls") {
				x := echoCall{tsCall: tsCall{Reads: -1, Abort: -1, Send: []string{}, Ops: []hop{}}}
				x.Kind = pick(t, "kind", "unary", "client", "server", "bidi", "bidi", "nothing")
				n := 1
				if x.Kind == "client" || x.Kind == "bidi" {
					n = rapid.IntRange(0, 4).Draw(t, "nsend")
				}
				for range n {
					x.Send = append(x.Send, genBody(t, "msg"))
				}
				x.SendOpen = x.Kind == "client" && n > 0 && rapid.IntRange(0, 2).Draw(t, "open") == 0
				x.Start, x.SGap, x.RGap = genGap(t, "start"), genGap(t, "sgap"), genGap(t, "rgap")
				switch rapid.IntRange(0, 7).Draw(t, "ends") {
				case 0:
					x.Abort = pick(t, "abort", 0, 1, 5, 30, 199, 201, 700, 999, 1001)
				case 1:
					if x.Kind == "server" || x.Kind == "bidi" {
						x.Reads = rapid.IntRange(0, 2).Draw(t, "nreads")
					}
				}
				if x.Nested = rapid.IntRange(0, 2).Draw(t, "nested") == 0; x.Nested {
					x.ID = pick(t, "id", "", "a", "some/component")
					x.Ack = rapid.Bool().Draw(t, "ack")
				}
				c.Calls = append(c.Calls, x)
			}
			return c
		},
		Run: func(t *testing.T, c echoCase, in *vt.Info) error {
			in.Label("transport: " + c.T.Kind)
			in.LabelIf(c.Cut >= 0, "cut")
			for _, x := range c.Calls {
				in.Label("call: " + x.Kind)
				in.LabelIf(x.Nested, "nested")
				in.LabelIf(x.SendOpen, "endless source")
				in.NonTrivial = in.NonTrivial || x.Nested || x.Kind != "unary" && x.Kind != "nothing" || slices.Contains(x.Send, "")
			}
			var rec callsRec
			r, err := run("echo", c, &rec)
			if r == nil {
				return err
			}
			errs := []error{err}
			for i := range rec.Calls {
				if err := rec.Calls[i].checkEcho(&c.Calls[i], c.NoProxy, c.Cut >= 0); err != nil {
					errs = append(errs, fmt.Errorf("call %d (%s, nested: %v): %w", i, c.Calls[i].Kind, c.Calls[i].Nested, err))
				}
			}
			if r.Hang {
				errs = append(errs, errors.New("a call never ends"))
			}
			for i, s := range rec.Streams {
				if !s.CS || !s.SS {
					errs = append(errs, fmt.Errorf("stream %d is left open: ended by the client: %v, by the server: %v", i, s.CS, s.SS))
				}
			}
			for i, n := range rec.Open {
				if n > 0 {
					errs = append(errs, fmt.Errorf("%d streams are left open at %s", n, []string{"the client", "the server"}[i]))
				}
			}
			if r.Error != "" {
				errs = append(errs, errors.New(r.Error))
			}
			return errors.Join(errs...)
		},
	})
}
