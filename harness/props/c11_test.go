package props

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/sirupsen/logrus"
	"pgregory.net/rapid"
	"verif/harness/sched"
	"verif/harness/vt"
)

// stubStream is a stream that only has an identity.
type stubStream struct{ id int }

func (*stubStream) Context() context.Context     { return context.Background() }
func (*stubStream) MsgSend(srpc.Message) error   { return nil }
func (*stubStream) MsgRecv(m srpc.Message) error { return io.EOF }
func (*stubStream) CloseSend() error             { return nil }
func (*stubStream) Close() error                 { return nil }

func quietLog() *logrus.Entry {
	l := logrus.New()
	l.SetOutput(io.Discard)
	l.SetLevel(logrus.DebugLevel)
	return logrus.NewEntry(l)
}

// call1 is one call seen by a stub.
type call1 struct {
	who      string
	svc, met string
	strm     srpc.Stream
}

// result1 is what a stub answers: handled, and the error with this text.
type result1 struct {
	Nil bool   `json:"nil,omitempty"` // the stub is nil
	OK  bool   `json:"ok,omitempty"`
	Err string `json:"err,omitempty"`
}

func genResult(t *rapid.T, label string, nils bool) result1 {
	r := result1{}
	switch rapid.IntRange(0, 7).Draw(t, label) {
	case 0, 1, 2:
	case 3, 4:
		r.OK = true
	case 5:
		r.OK, r.Err = true, "handled error"
	case 6:
		r.Err = "unhandled error"
	case 7:
		r.Nil = nils
	}
	return r
}

// stubs records the calls of stubs.
type stubs struct {
	mu    sync.Mutex
	calls []call1
	errs  map[string]error
}

func (s *stubs) err(who string, r result1) error {
	if r.Err == "" {
		return nil
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.errs == nil {
		s.errs = map[string]error{}
	}
	if s.errs[who] == nil {
		s.errs[who] = errors.New(r.Err)
	}
	return s.errs[who]
}

func (s *stubs) invoker(who string, r result1) srpc.Invoker {
	if r.Nil {
		return nil
	}
	return srpc.InvokerFunc(func(svc, met string, strm srpc.Stream) (bool, error) {
		s.mu.Lock()
		s.calls = append(s.calls, call1{who, svc, met, strm})
		s.mu.Unlock()
		return r.OK, s.err(who, r)
	})
}

func (s *stubs) take() []call1 {
	s.mu.Lock()
	defer s.mu.Unlock()
	c := s.calls
	s.calls = nil
	return c
}

func sameCalls(a, b []call1) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func showCalls(c []call1) string {
	s := ""
	for _, x := range c {
		id := -1
		if st, ok := x.strm.(*stubStream); ok {
			id = st.id
		}
		s += fmt.Sprintf(" %s(%q,%q,#%d)", x.who, x.svc, x.met, id)
	}
	return "[" + s + " ]"
}

type c11Op struct {
	Op   string   `json:"op"` // reg, invoke, has, hasm
	Svc  string   `json:"svc"`
	Met  string   `json:"met,omitempty"`
	Mets []string `json:"mets,omitempty"`
	Res  result1  `json:"res"`
	H    int      `json:"h,omitempty"` // register the handler of this registration again (1..)
	D    int      `json:"d,omitempty"`
	G    int      `json:"g,omitempty"` // goroutine
}

type c11Case struct {
	Ops      []c11Op      `json:"ops"`
	Fallback []result1    `json:"fallback,omitempty"`
	Verbose  int          `json:"verbose,omitempty"`
	Sched    sched.Config `json:"sched"`
}

var c11Svcs = []string{"a", "b", "a.b", "A", "a"}
var c11Mets = []string{"m", "n", "o", "M", "m"}

func genC11Op(t *rapid.T, nreg int) c11Op {
	o := c11Op{Op: pick(t, "op", "reg", "reg", "invoke", "invoke", "invoke", "has", "hasm"), Svc: pick(t, "svc", c11Svcs...)}
	switch o.Op {
	case "reg":
		if nreg > 0 && rapid.IntRange(0, 4).Draw(t, "again") == 0 {
			o.H = rapid.IntRange(1, nreg).Draw(t, "h")
			return o
		}
		if rapid.IntRange(0, 15).Draw(t, "emptysvc") == 9 {
			o.Svc = ""
		}
		for range rapid.IntRange(0, 3).Draw(t, "nmets") {
			o.Mets = append(o.Mets, pick(t, "rmet", append([]string{""}, c11Mets...)...))
		}
		o.Res = genResult(t, "res", false)
	case "invoke", "hasm":
		o.Met = pick(t, "met", append([]string{"none"}, c11Mets...)...)
		if o.Op == "hasm" && rapid.IntRange(0, 9).Draw(t, "emptym") == 4 {
			o.Met = ""
		}
	case "has":
		if rapid.IntRange(0, 9).Draw(t, "emptys") == 4 {
			o.Svc = ""
		}
	}
	return o
}

func TestC11_Model(t *testing.T) {
	vt.Check(t, vt.Prop[c11Case]{
		Rule:  "1-30 registrations (overlapping, repeated, empty names), calls and queries on a mux with 0-4 fallback invokers (nil, declining, handling, failing), plain or in logging wrappers, against a map model: who is called with what, and every result; non-trivial: a call reached a handler or a fallback",
		Quick: 60000, Thorough: 1500000,
		Gen: func(t *rapid.T) c11Case {
			c := c11Case{Verbose: rapid.IntRange(0, 2).Draw(t, "verbose")}
			for i := range rapid.IntRange(0, 4).Draw(t, "nfb") {
				c.Fallback = append(c.Fallback, genResult(t, fmt.Sprint("fb", i), true))
			}
			n := 0
			for range rapid.IntRange(1, 30).Draw(t, "nops") {
				o := genC11Op(t, n)
				if o.Op == "reg" && o.H == 0 {
					n++
				}
				c.Ops = append(c.Ops, o)
			}
			return c
		},
		Run: func(_ *testing.T, c c11Case, in *vt.Info) error { return runC11(c, in) },
	})
}

func (c *c11Case) mux(s *stubs) srpc.Mux {
	var fb []srpc.Invoker
	for i, f := range c.Fallback {
		fb = append(fb, s.invoker(fmt.Sprint("fb", i), f))
	}
	m := srpc.NewMux(fb...)
	if c.Verbose > 0 {
		m = srpc.NewVMux(m, quietLog(), c.Verbose == 2)
	}
	return m
}

func (c *c11Case) handler(s *stubs, i int, o c11Op) *handler {
	inv := s.invoker(fmt.Sprint("h", i), o.Res)
	return &handler{svc: o.Svc, mets: o.Mets, fn: inv.InvokeMethod}
}

func runC11(c c11Case, in *vt.Info) error {
	s := &stubs{}
	m := c.mux(s)
	type reg struct {
		h   *handler
		res result1
		who string
	}
	var regs []reg
	model := map[[2]string]reg{}
	for i, o := range c.Ops {
		fail := func(f string, a ...any) error {
			return fmt.Errorf("operation %d %+v: %s", i, o, fmt.Sprintf(f, a...))
		}
		switch o.Op {
		case "reg":
			var r reg
			if o.H > 0 && o.H <= len(regs) {
				r = regs[o.H-1]
			} else {
				r = reg{c.handler(s, len(regs), o), o.Res, fmt.Sprint("h", len(regs))}
				regs = append(regs, r)
			}
			err := m.Register(r.h)
			if r.h.svc == "" {
				if err != srpc.ErrEmptyServiceID {
					return fail("registering an empty service name: %v", err)
				}
				break
			}
			if err != nil {
				return fail("Register: %v", err)
			}
			for _, x := range r.h.mets {
				if x != "" {
					model[[2]string{r.h.svc, x}] = r
				}
			}
		case "invoke":
			strm := &stubStream{i}
			ok, err := m.InvokeMethod(o.Svc, o.Met, strm)
			var want []call1
			wok, werr := false, error(nil)
			if r, found := model[[2]string{o.Svc, o.Met}]; found {
				in.Label("handler called")
				in.NonTrivial = true
				want = append(want, call1{r.who, o.Svc, o.Met, strm})
				wok, werr = r.res.OK, s.err(r.who, r.res)
			} else {
				for j, f := range c.Fallback {
					if f.Nil {
						continue
					}
					in.Label("fallback called")
					in.NonTrivial = true
					who := fmt.Sprint("fb", j)
					want = append(want, call1{who, o.Svc, o.Met, strm})
					if f.OK || f.Err != "" {
						wok, werr = f.OK, s.err(who, f)
						break
					}
				}
			}
			if got := s.take(); !sameCalls(got, want) {
				return fail("called %s, want %s", showCalls(got), showCalls(want))
			}
			if ok != wok || err != werr {
				return fail("returned %v, %v, want %v, %v", ok, err, wok, werr)
			}
		case "has":
			want := false
			for k := range model {
				want = want || k[0] == o.Svc && o.Svc != ""
			}
			if got := m.HasService(o.Svc); got != want {
				return fail("HasService is %v, want %v", got, want)
			}
		case "hasm":
			_, want := model[[2]string{o.Svc, o.Met}]
			if got := m.HasServiceMethod(o.Svc, o.Met); got != want {
				return fail("HasServiceMethod is %v, want %v", got, want)
			}
		}
	}
	return nil
}

// TestC11_Concurrent checks registrations concurrent with calls.
func TestC11_Concurrent(t *testing.T) {
	vt.Check(t, vt.Prop[c11Case]{
		Rule:  "2-4 goroutines register handlers, call and query at once under a drawn schedule; per service and method the results must fit an order of the operations consistent with their times (a call reaches a handler registered before it ended and not replaced before it began, and never an older one than an earlier call saw); non-trivial: a registration and a call of the same method overlap in time or follow each other in different goroutines",
		Quick: 30000, Thorough: 600000,
		Gen: func(t *rapid.T) c11Case {
			c := c11Case{Sched: genSched(t), Verbose: rapid.IntRange(0, 2).Draw(t, "verbose")}
			if c.Sched.Prob == 0 {
				c.Sched = sched.Config{Prob: 200, Max: 100, Seed: rapid.Uint64Range(0, 1000).Draw(t, "s")}
			}
			n := 0
			for range rapid.IntRange(4, 24).Draw(t, "nops") {
				o := genC11Op(t, 0)
				o.Svc = "a"
				o.Res = result1{OK: true}
				o.D = pick(t, "d", 0, 0, 1, 20, 100)
				o.G = rapid.IntRange(0, 3).Draw(t, "g")
				if o.Op == "reg" {
					n++
				}
				c.Ops = append(c.Ops, o)
			}
			return c
		},
		Run: func(t *testing.T, c c11Case, in *vt.Info) error {
			return bubble(t, c.Sched, false, func() error { return runC11Conc(c, in) })
		},
	})
}

func runC11Conc(c c11Case, in *vt.Info) error {
	s := &stubs{}
	m := c.mux(s)
	var clock atomic.Int64
	type ev struct {
		op         c11Op
		start, end int64
		got        int // handler reached (index of the registration), -1: none
		has        bool
	}
	evs := make([]ev, len(c.Ops))
	var wg sync.WaitGroup
	for g := range 4 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i, o := range c.Ops {
				if o.G != g {
					continue
				}
				sleepUs(o.D)
				e := ev{op: o, got: -1, start: clock.Add(1)}
				switch o.Op {
				case "reg":
					_ = m.Register(&handler{svc: o.Svc, mets: o.Mets, fn: func(_, _ string, strm srpc.Stream) (bool, error) {
						strm.(*stubStream).id = i
						return true, nil
					}})
				case "invoke":
					strm := &stubStream{-1}
					_, _ = m.InvokeMethod(o.Svc, o.Met, strm)
					e.got = strm.id
				case "has":
					e.has = m.HasService(o.Svc)
				case "hasm":
					e.has = m.HasServiceMethod(o.Svc, o.Met)
				}
				e.end = clock.Add(1)
				evs[i] = e
			}
		}()
	}
	if err := vt.Await("the end of all operations", done(wg.Wait)); err != nil {
		return err
	}
	registers := func(e ev, met string) bool {
		if e.op.Op != "reg" || e.op.Svc == "" {
			return false
		}
		for _, x := range e.op.Mets {
			if x != "" && (x == met || met == "*") {
				return true
			}
		}
		return false
	}
	for i, r := range evs {
		switch r.op.Op {
		case "has", "hasm":
			met := r.op.Met
			if r.op.Op == "has" {
				met = "*"
			}
			before, possible := false, false
			for _, w := range evs {
				if registers(w, met) {
					before = before || w.end < r.start
					possible = possible || w.start < r.end
				}
			}
			if r.has && !possible || !r.has && before {
				return fmt.Errorf("operation %d %+v answered %v", i, r.op, r.has)
			}
		case "invoke":
			for _, w := range evs {
				if !registers(w, r.op.Met) {
					continue
				}
				if w.op.G != r.op.G {
					in.NonTrivial = true
				}
				in.LabelIf(w.start < r.end && r.start < w.end, "registration overlaps call")
				if r.got < 0 && w.end < r.start {
					return fmt.Errorf("call %d %+v reached nothing although a registration had ended before", i, r.op)
				}
				if r.got >= 0 {
					h := evs[r.got]
					if h.end < w.start && w.end < r.start {
						return fmt.Errorf("call %d %+v reached a handler that was replaced before", i, r.op)
					}
				}
			}
			if r.got >= 0 {
				h := evs[r.got]
				if !registers(h, r.op.Met) || h.start > r.end {
					return fmt.Errorf("call %d %+v reached a handler which was not registered for it", i, r.op)
				}
			}
			for j, q := range evs {
				if q.op.Op == "invoke" && q.op.Met == r.op.Met && q.end < r.start && q.got >= 0 && q.got != r.got {
					if r.got < 0 || evs[r.got].end < evs[q.got].start {
						return fmt.Errorf("call %d %+v reached an older handler than call %d before it", i, r.op, j)
					}
				}
			}
		}
	}
	return nil
}
