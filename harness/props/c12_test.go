package props

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/aperturerobotics/starpc/srpc"
	"pgregory.net/rapid"
	"verif/harness/vt"
)

// wtree is a tree of wrappers.
type wtree struct {
	Kind string   `json:"kind"` // leaf, prefix, list, func, verbose, mux, nil
	Pre  []string `json:"pre,omitempty"`
	Res  result1  `json:"res"`
	Sub  []wtree  `json:"sub,omitempty"`
	Svc  string   `json:"svc,omitempty"`
}

var c12Pre = []string{"a", "a/", "b", "ab", "a/b", "aa", "a/svc", "\xc3", "svc"}
var c12Svc = []string{"svc", "a/svc", "ab", "a/b/svc", "aa/a/svc", "bsvc", "c", "a", "", "a/a/a/svc", "A/svc", "xa/svc", "\xc3\xa9svc"}

func genPrefixes(t *rapid.T) []string {
	var out []string
	for range pick(t, "npre", 0, 1, 1, 2, 3, 4) {
		out = append(out, pick(t, "pre", c12Pre...))
	}
	return out
}

func genWTree(t *rapid.T, depth int) wtree {
	kinds := []string{"leaf", "prefix", "prefix", "list", "func", "verbose", "mux"}
	if depth >= 4 {
		kinds = []string{"leaf"}
	} else if depth == 0 {
		kinds = kinds[1:]
	}
	w := wtree{Kind: pick(t, "kind", kinds...)}
	n := 1
	switch w.Kind {
	case "leaf":
		w.Res = genResult(t, "res", depth > 0)
		return w
	case "prefix":
		w.Pre = genPrefixes(t)
	case "list":
		n = rapid.IntRange(0, 4).Draw(t, "nsub")
	case "mux":
		w.Svc = pick(t, "svc", c12Svc...)
		w.Res = genResult(t, "res", false)
		n = rapid.IntRange(0, 2).Draw(t, "nsub")
	}
	for range n {
		s := genWTree(t, depth+1)
		if (w.Kind == "prefix" || w.Kind == "verbose" || w.Kind == "func") && s.Kind == "leaf" {
			s.Res.Nil = false
		}
		w.Sub = append(w.Sub, s)
	}
	return w
}

// build makes the wrappers.
func (w *wtree) build(s *stubs, id string) srpc.Invoker {
	sub := func() (out []srpc.Invoker) {
		for i := range w.Sub {
			out = append(out, w.Sub[i].build(s, fmt.Sprint(id, ".", i)))
		}
		return
	}
	switch w.Kind {
	case "leaf":
		return s.invoker(id, w.Res)
	case "prefix":
		return srpc.NewPrefixInvoker(sub()[0], w.Pre)
	case "list":
		return srpc.InvokerSlice(sub())
	case "func":
		f := sub()[0]
		return srpc.InvokerFunc(f.InvokeMethod)
	case "verbose":
		return srpc.NewVMux(srpc.NewMux(sub()...), quietLog(), true)
	case "mux":
		m := srpc.NewMux(sub()...)
		_ = m.Register(&handler{svc: w.Svc, mets: []string{"m"}, fn: s.invoker(id+"h", w.Res).InvokeMethod})
		return m
	}
	panic(w.Kind)
}

// stripRef is the reference for stripping prefixes.
func stripRef(svc string, pre []string) (string, bool) {
	if len(pre) == 0 {
		return svc, true
	}
	for _, p := range pre {
		if strings.HasPrefix(svc, p) {
			return strings.TrimPrefix(svc, p), true
		}
	}
	return "", false
}

// eval is the reference: it appends the expected calls.
func (w *wtree) eval(s *stubs, id, svc, met string, strm srpc.Stream, calls *[]call1) (bool, error) {
	list := func() (bool, error) {
		for i := range w.Sub {
			if ok, err := w.Sub[i].eval(s, fmt.Sprint(id, ".", i), svc, met, strm, calls); ok || err != nil {
				return ok, err
			}
		}
		return false, nil
	}
	switch w.Kind {
	case "leaf":
		if w.Res.Nil {
			return false, nil
		}
		*calls = append(*calls, call1{id, svc, met, strm})
		return w.Res.OK, s.err(id, w.Res)
	case "prefix":
		st, ok := stripRef(svc, w.Pre)
		if !ok {
			return false, nil
		}
		svc = st
		return list()
	case "mux":
		if svc != "" && w.Svc == svc && met == "m" {
			*calls = append(*calls, call1{id + "h", svc, met, strm})
			return w.Res.OK, s.err(id+"h", w.Res)
		}
		if svc == "" && w.Svc != "" && met == "m" {
			// a mux takes an empty service name for any service: not specified.
			return false, errUnspecified
		}
	}
	return list()
}

var errUnspecified = errors.New("not specified")

type c12Case struct {
	Tree  wtree       `json:"tree"`
	Calls [][2]string `json:"calls"`
}

func TestC12_Invokers(t *testing.T) {
	vt.Check(t, vt.Prop[c12Case]{
		Rule:  "a random tree of prefix, list, function, logging and mux wrappers over stub invokers (nil, declining, handling, failing), called with service names that share prefixes; a reference interpreter says which stubs are called with which arguments in which order and what is returned; non-trivial: a stub was called",
		Quick: 60000, Thorough: 1500000,
		Gen: func(t *rapid.T) c12Case {
			c := c12Case{Tree: genWTree(t, 0)}
			for range rapid.IntRange(1, 5).Draw(t, "n") {
				c.Calls = append(c.Calls, [2]string{pick(t, "svc", c12Svc...), pick(t, "met", "m", "m", "n", "")})
			}
			return c
		},
		Run: func(_ *testing.T, c c12Case, in *vt.Info) error {
			s := &stubs{}
			inv := c.Tree.build(s, "r")
			for i, x := range c.Calls {
				strm := &stubStream{i}
				var want []call1
				wok, werr := c.Tree.eval(s, "r", x[0], x[1], strm, &want)
				if werr == errUnspecified {
					in.Label("unspecified")
					continue
				}
				ok, err := inv.InvokeMethod(x[0], x[1], strm)
				got := s.take()
				if !sameCalls(got, want) {
					return fmt.Errorf("call %q: called %s, want %s", x, showCalls(got), showCalls(want))
				}
				// an error counts as an answer, with or without "handled".
				if err != werr || err == nil && ok != wok {
					return fmt.Errorf("call %q: returned %v, %v, want %v, %v", x, ok, err, wok, werr)
				}
				in.NonTrivial = in.NonTrivial || len(want) > 0
				in.LabelIf(len(want) > 1, "several invokers asked")
				in.LabelIf(len(want) == 0, "not forwarded")
				in.LabelIf(err != nil, "error")
			}
			return nil
		},
	})
}

// ctree is a chain of client wrappers around a client.
type c12Client struct {
	Layers []wtree     `json:"layers"` // prefix or verbose, outermost first
	Calls  []c12Call   `json:"calls"`
	Strip  [][2]string `json:"-"`
}

type c12Call struct {
	Svc, Met string
	Stream   bool
	First    bool
	Err      string
}

type stubClient struct {
	calls []string
	ctx   context.Context
	in    srpc.Message
	out   srpc.Message
	svc   string
	met   string
	err   error
	strm  srpc.Stream
}

func (s *stubClient) ExecCall(ctx context.Context, service, method string, in, out srpc.Message) error {
	s.calls = append(s.calls, "exec")
	s.ctx, s.svc, s.met, s.in, s.out = ctx, service, method, in, out
	return s.err
}

func (s *stubClient) NewStream(ctx context.Context, service, method string, firstMsg srpc.Message) (srpc.Stream, error) {
	s.calls = append(s.calls, "stream")
	s.ctx, s.svc, s.met, s.in, s.out = ctx, service, method, firstMsg, nil
	if s.err != nil {
		return nil, s.err
	}
	return s.strm, nil
}

func TestC12_Clients(t *testing.T) {
	vt.Check(t, vt.Prop[c12Client]{
		Rule:  "a chain of 1-4 prefix and logging client wrappers around a stub client; unary calls and streams must reach the stub once with the same context, messages and method and the stripped service name, and the stub's result must come back, or 'unimplemented' without reaching it; non-trivial: forwarded through a prefix",
		Quick: 40000, Thorough: 1000000,
		Gen: func(t *rapid.T) c12Client {
			var c c12Client
			for range rapid.IntRange(1, 4).Draw(t, "nl") {
				w := wtree{Kind: pick(t, "kind", "prefix", "prefix", "verbose")}
				if w.Kind == "prefix" {
					w.Pre = genPrefixes(t)
				}
				c.Layers = append(c.Layers, w)
			}
			for range rapid.IntRange(1, 4).Draw(t, "n") {
				c.Calls = append(c.Calls, c12Call{Svc: pick(t, "svc", c12Svc...), Met: pick(t, "met", "m", "n", ""), Stream: rapid.Bool().Draw(t, "stream"), First: rapid.Bool().Draw(t, "first"), Err: pick(t, "err", "", "", "unimplemented", "boom")})
			}
			return c
		},
		Run: func(_ *testing.T, c c12Client, in *vt.Info) error {
			st := &stubClient{}
			var cl srpc.Client = st
			for i := len(c.Layers) - 1; i >= 0; i-- {
				if c.Layers[i].Kind == "prefix" {
					cl = srpc.NewPrefixClient(cl, c.Layers[i].Pre)
				} else {
					cl = srpc.NewVClient(cl, quietLog())
				}
			}
			for _, x := range c.Calls {
				svc, ok, stripped := x.Svc, true, false
				for _, l := range c.Layers {
					if l.Kind == "prefix" && ok {
						n := svc
						n, ok = stripRef(svc, l.Pre)
						stripped = stripped || ok && n != svc
						svc = n
					}
				}
				*st = stubClient{strm: &stubStream{1}}
				if x.Err != "" {
					st.err = errors.New(x.Err)
				}
				ctx := context.WithValue(context.Background(), ctxKey{}, 1)
				var m1, m2 srpc.Message = raw([]byte("in")), raw(nil)
				var err error
				var strm srpc.Stream
				kind := "exec"
				if x.Stream {
					kind = "stream"
					m2 = nil
					if !x.First {
						m1 = nil
					}
					strm, err = cl.NewStream(ctx, x.Svc, x.Met, m1)
				} else {
					err = cl.ExecCall(ctx, x.Svc, x.Met, m1, m2)
				}
				if !ok {
					in.Label("not forwarded")
					if len(st.calls) != 0 || errText(err) != "unimplemented" || strm != nil {
						return fmt.Errorf("%+v matches no prefix: forwarded %v, result %v, %v", x, st.calls, strm, err)
					}
					continue
				}
				in.NonTrivial = in.NonTrivial || stripped
				if len(st.calls) != 1 || st.calls[0] != kind || st.svc != svc || st.met != x.Met || st.in != m1 || st.out != m2 || st.ctx.Value(ctxKey{}) != 1 {
					return fmt.Errorf("%+v was forwarded as %v %q %q, want %s %q %q with the same messages", x, st.calls, st.svc, st.met, kind, svc, x.Met)
				}
				if err != st.err {
					return fmt.Errorf("%+v: the client returned %v, the wrapper %v", x, st.err, err)
				}
				if x.Stream && err == nil && strm != st.strm {
					return fmt.Errorf("%+v: the wrapper returned another stream", x)
				}
				// the stripping function itself
				for _, l := range c.Layers {
					if l.Kind == "prefix" && len(l.Pre) > 0 {
						id, p := srpc.CheckStripPrefix(x.Svc, l.Pre)
						want, found := stripRef(x.Svc, l.Pre)
						if !found {
							want = x.Svc
						}
						if id != want || (p != "") != found || p+id != x.Svc {
							return fmt.Errorf("CheckStripPrefix(%q, %q) is %q, %q", x.Svc, l.Pre, id, p)
						}
					}
				}
			}
			return nil
		},
	})
}

type ctxKey struct{}

// recStream records the operations on a stream or packet writer.
type recStream struct {
	ops  []string
	msg  srpc.Message
	pkt  *srpc.Packet
	errs []error
	ctx  context.Context
}

func (r *recStream) do(op string) error {
	r.ops = append(r.ops, op)
	return r.errs[len(r.ops)-1]
}
func (r *recStream) Context() context.Context     { return r.ctx }
func (r *recStream) MsgSend(m srpc.Message) error { r.msg = m; return r.do("send") }
func (r *recStream) MsgRecv(m srpc.Message) error { r.msg = m; return r.do("recv") }
func (r *recStream) CloseSend() error             { return r.do("half") }
func (r *recStream) Close() error                 { return r.do("close") }
func (r *recStream) WritePacket(p *srpc.Packet) error {
	r.pkt = p
	return r.do("packet")
}

type c12Hook struct {
	Ops    []string `json:"ops"`
	Errs   []bool   `json:"errs"`
	Hooks  int      `json:"hooks"`
	HErrs  []bool   `json:"herrs"`
	Writer bool     `json:"writer"`
}

func TestC12_Hooks(t *testing.T) {
	vt.Check(t, vt.Prop[c12Hook]{
		Rule:  "1-12 operations on a stream or packet writer with 1-3 nested close hooks, each operation and hook failing or not: every operation must reach the inner object once with the same argument and result, a close must close the inner object, run each hook once and return the first error; non-trivial: closed at least once with an error somewhere",
		Quick: 30000, Thorough: 500000,
		Gen: func(t *rapid.T) c12Hook {
			c := c12Hook{Hooks: rapid.IntRange(1, 3).Draw(t, "hooks"), Writer: rapid.Bool().Draw(t, "writer")}
			for range rapid.IntRange(1, 12).Draw(t, "n") {
				if c.Writer {
					c.Ops = append(c.Ops, pick(t, "op", "packet", "packet", "close"))
				} else {
					c.Ops = append(c.Ops, pick(t, "op", "send", "recv", "half", "close", "ctx"))
				}
				c.Errs = append(c.Errs, rapid.IntRange(0, 2).Draw(t, "err") == 0)
			}
			for range c.Hooks {
				c.HErrs = append(c.HErrs, rapid.IntRange(0, 1).Draw(t, "herr") == 0)
			}
			return c
		},
		Run: func(_ *testing.T, c c12Hook, in *vt.Info) error {
			r := &recStream{ctx: context.WithValue(context.Background(), ctxKey{}, 2)}
			for i, e := range c.Errs {
				if e {
					r.errs = append(r.errs, fmt.Errorf("op %d failed", i))
				} else {
					r.errs = append(r.errs, nil)
				}
			}
			var s srpc.Stream = r
			var w srpc.PacketWriter = r
			ran := make([]int, c.Hooks)
			herr := make([]error, c.Hooks)
			for i := range c.Hooks {
				if c.HErrs[i] {
					herr[i] = fmt.Errorf("hook %d failed", i)
				}
				hook := func() error { ran[i]++; return herr[i] }
				s = srpc.NewStreamWithClose(s, hook)
				w = srpc.NewPacketWriterWithClose(w, hook)
			}
			closes := 0
			for _, op := range c.Ops {
				k := len(r.ops)
				var err error
				msg := raw([]byte{1})
				pkt := srpc.NewCallCancelPacket()
				switch op {
				case "send":
					err = s.MsgSend(msg)
				case "recv":
					err = s.MsgRecv(msg)
				case "half":
					err = s.CloseSend()
				case "packet":
					err = w.WritePacket(pkt)
				case "ctx":
					if s.Context().Value(ctxKey{}) != 2 {
						return errors.New("another context")
					}
					continue
				case "close":
					closes++
					if c.Writer {
						err = w.Close()
					} else {
						err = s.Close()
					}
				}
				if len(r.ops) != k+1 || r.ops[k] != op {
					return fmt.Errorf("%s reached the inner object as %v", op, r.ops[k:])
				}
				if (op == "send" || op == "recv") && r.msg != msg || op == "packet" && r.pkt != pkt {
					return fmt.Errorf("%s reached the inner object with another argument", op)
				}
				want := r.errs[k]
				if op == "close" {
					for i := range c.Hooks {
						if want == nil {
							want = herr[i]
						}
						if ran[i] != closes {
							return fmt.Errorf("after %d closes hook %d ran %d times", closes, i, ran[i])
						}
					}
				}
				if err != want {
					return fmt.Errorf("%s returned %v, want %v", op, err, want)
				}
				in.NonTrivial = in.NonTrivial || op == "close" && want != nil
			}
			return nil
		},
	})
}
