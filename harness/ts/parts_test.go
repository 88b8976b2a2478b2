package ts

import (
	"encoding/json"
	"errors"
	"fmt"
	"slices"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"verif/harness/vt"
)

type muxOp struct {
	Op      string   `json:"op"`
	Service string   `json:"service"`
	Method  string   `json:"method,omitempty"`
	Methods []string `json:"methods"`
	Finds   string   `json:"finds,omitempty"`
	Err     string   `json:"err,omitempty"`
	All     bool     `json:"all,omitempty"`
	Early   bool     `json:"early,omitempty"`
	D       int      `json:"d,omitempty"`
	I       int      `json:"i"`
}

type muxCase struct {
	Ops []muxOp `json:"ops"`
}

var (
	tsServices  = []string{"a", "a", "a", "b", "echo.Echoer", "constructor", "__proto__", "toString", "a/b", ""}
	tsMethods   = []string{"x", "x", "x", "y", "Echo", "Echo", "EchoBidiStream", "constructor", "__proto__", "toString", "hasOwnProperty"}
	echoMethods = []string{"Echo", "EchoServerStream", "EchoClientStream", "EchoBidiStream", "RpcStream", "DoNothing"}
)

// muxModel is a mux: the handler of every method, and the fallbacks.
type muxModel struct {
	methods   map[[2]string]func(s, m string) string
	fallbacks []func(s, m string) string
	handlers  []func(s, m string) string
}

func (x *muxModel) lookup(s, m string) string {
	if s != "" {
		if h := x.methods[[2]string{s, m}]; h != nil {
			if r := h(s, m); r != "none" {
				return r
			}
		}
	}
	for _, f := range x.fallbacks {
		if r := f(s, m); r != "none" {
			return r
		}
	}
	return "none"
}

// do runs an operation and returns what it gives.
func (x *muxModel) do(k int, o *muxOp) string {
	id := strconv.Itoa(k)
	add := func(s string, methods []string, h func(s, m string) string) string {
		x.handlers = append(x.handlers, h)
		if s == "" {
			return "error: service id cannot be empty"
		}
		for _, m := range methods {
			x.methods[[2]string{s, m}] = h
		}
		return ""
	}
	static := func(service string, methods []string) func(s, m string) string {
		return func(s, m string) string {
			if s != "" && s != service || !slices.Contains(methods, m) {
				return "none"
			}
			return id + "." + m
		}
	}
	switch o.Op {
	case "register":
		if err := add(o.Service, o.Methods, static(o.Service, o.Methods)); err != "" {
			return err
		}
		ms := slices.Clone(o.Methods)
		slices.Sort(ms)
		return o.Service + ":" + strings.Join(slices.Compact(ms), ",")
	case "custom":
		return add(o.Service, o.Methods, func(s, m string) string {
			if m == o.Finds {
				return id
			}
			return "none"
		})
	case "create":
		s := o.Service
		if s == "" {
			s = "echo.Echoer"
		}
		var ms []string
		for _, m := range echoMethods {
			if slices.Contains(o.Methods, m) {
				ms = append(ms, m)
			}
		}
		add(s, ms, static(s, ms))
		slices.Sort(ms)
		return s + ":" + strings.Join(ms, ",")
	case "fallback":
		x.fallbacks = append(x.fallbacks, func(s, m string) string {
			switch {
			case o.Err != "":
				return "error: " + o.Err
			case o.All || o.Service == s && slices.Contains(o.Methods, m):
				return id
			}
			return "none"
		})
	case "direct":
		if len(x.handlers) == 0 {
			return ""
		}
		return x.handlers[o.I%len(x.handlers)](o.Service, o.Method)
	case "lookup":
		return x.lookup(o.Service, o.Method)
	}
	return ""
}

func TestC32_Mux(t *testing.T) {
	vt.Check(t, vt.Prop[muxCase]{
		Rule:  "4-20 operations on a StaticMux: static handlers, handlers of a definition with some methods implemented, handlers which do not find what they list, fallback lookups which find, miss or fail; lookups in the mux and in the handlers, also of names like constructor and __proto__; against a model; non-trivial: a lookup finds something",
		Quick: 60000, Thorough: 800000,
		Gen: func(t *rapid.T) muxCase {
			var c muxCase
			for range rapid.IntRange(4, 20).Draw(t, "nops") {
				o := muxOp{
					Op:      pick(t, "op", "lookup", "lookup", "lookup", "lookup", "direct", "register", "register", "custom", "create", "fallback"),
					Service: pick(t, "service", tsServices...), Methods: []string{},
				}
				switch o.Op {
				case "lookup", "direct":
					o.Method, o.Early = pick(t, "method", tsMethods...), rapid.Bool().Draw(t, "early")
					o.I = rapid.IntRange(0, 9).Draw(t, "i")
				case "create":
					o.Methods = rapid.SliceOfN(rapid.SampledFrom(echoMethods), 0, 4).Draw(t, "impl")
				default:
					o.Methods = rapid.SliceOfN(rapid.SampledFrom(tsMethods), 0, 4).Draw(t, "methods")
					o.Finds = pick(t, "finds", tsMethods...)
					o.D = pick(t, "d", 0, 0, 5)
					if o.Op == "fallback" {
						o.All = rapid.IntRange(0, 9).Draw(t, "all") == 0
						if rapid.IntRange(0, 9).Draw(t, "fails") == 0 {
							o.Err = "lookup failed"
						}
					}
				}
				c.Ops = append(c.Ops, o)
			}
			return c
		},
		Run: func(t *testing.T, c muxCase, in *vt.Info) error {
			var rec struct {
				Out []string `json:"out"`
			}
			if err := runEnd("mux", c, &rec); err != nil {
				return err
			}
			x := muxModel{methods: map[[2]string]func(s, m string) string{}}
			for k := range c.Ops {
				o := &c.Ops[k]
				want := x.do(k, o)
				if o.Op == "lookup" && want != "none" {
					in.NonTrivial = true
				}
				if rec.Out[k] != want {
					return fmt.Errorf("operation %d (%s %q %q %q): %q, want %q", k, o.Op, o.Service, o.Method, o.Methods, rec.Out[k], want)
				}
			}
			return nil
		},
	})
}

type ctrOp struct {
	Op string `json:"op"`
	D  int    `json:"d"`
	V  *int   `json:"v"`
}

type ctrCase struct {
	Kind string  `json:"kind"`
	Init *int    `json:"init"`
	Ops  []ctrOp `json:"ops"`
}

func TestC32_Containers(t *testing.T) {
	vt.Check(t, vt.Prop[ctrCase]{
		Rule:  "2-14 operations (set, unset, get, wait, wait with a callback, once or again and again, call of the stream function) on a ValueCtr, OpenStreamCtr or HandleStreamCtr, with or without a value at first, with pauses; against a model; non-trivial: something waits for a value",
		Quick: 60000, Thorough: 800000,
		Gen: func(t *rapid.T) ctrCase {
			c := ctrCase{Kind: pick(t, "kind", "value", "open", "handle")}
			val := func(l string) *int {
				if v := rapid.IntRange(-1, 4).Draw(t, l); v >= 0 {
					return &v
				}
				return nil
			}
			if rapid.IntRange(0, 3).Draw(t, "has") == 0 {
				c.Init = val("init")
			}
			cur := c.Init
			for range rapid.IntRange(2, 14).Draw(t, "nops") {
				o := ctrOp{Op: pick(t, "op", "set", "set", "get", "wait", "wait", "callback", "again", "call", "call"), D: pick(t, "d", 0, 0, 0, 1, 10)}
				if o.Op == "call" && c.Kind == "value" || (o.Op == "callback" || o.Op == "again") && cur != nil {
					o.Op = "wait"
				}
				if o.Op == "set" {
					o.V = val("v")
					cur = o.V
				}
				c.Ops = append(c.Ops, o)
			}
			return c
		},
		Run: func(t *testing.T, c ctrCase, in *vt.Info) error {
			in.Label(c.Kind)
			var rec struct {
				Out []struct {
					N  int             `json:"n"`
					V  json.RawMessage `json:"v"`
					At int             `json:"at"`
				} `json:"out"`
			}
			if err := runEnd("ctr", c, &rec); err != nil {
				return err
			}
			cur, now := c.Init, 0
			var waiting []int
			want := make([]string, len(c.Ops))
			at, n := make([]int, len(c.Ops)), make([]int, len(c.Ops))
			give := func(k int) {
				if at[k] = now; c.Ops[k].Op == "again" {
					n[k]++
					want[k] += "," + strconv.Itoa(*cur)
					return
				}
				want[k], at[k] = strconv.Itoa(*cur), now
				if c.Ops[k].Op == "call" {
					if want[k] = `"` + strconv.Itoa(*cur) + `"`; c.Kind == "handle" {
						want[k] = fmt.Sprintf(`"%d:arg%d"`, *cur, k)
					}
				}
			}
			for k, o := range c.Ops {
				now += o.D
				switch o.Op {
				case "set":
					if cur = o.V; cur != nil {
						var again []int
						for _, w := range waiting {
							if give(w); c.Ops[w].Op == "again" {
								again = append(again, w)
							}
						}
						waiting = again
					}
				case "get":
					if want[k], at[k] = "null", now; cur != nil {
						give(k)
					}
				default:
					if cur != nil {
						give(k)
					} else {
						waiting = append(waiting, k)
						in.NonTrivial = true
					}
				}
			}
			for k, o := range c.Ops {
				r := rec.Out[k]
				if want[k] == "" {
					if r.N > 0 {
						return fmt.Errorf("operation %d (%s) gave %s, no value was set", k, o.Op, r.V)
					}
					continue
				}
				v, times := string(r.V), 1
				if o.Op == "again" {
					v, times = strings.ReplaceAll(strings.Replace(v, "[", ",", 1), "]", ""), n[k]
				}
				if o.Op == "call" && c.Kind == "open" {
					v = `"` + strings.Trim(v, `"`) + `"`
				}
				if r.N != times || v != want[k] || r.At != at[k] {
					return fmt.Errorf("operation %d (%s) gave %s (%d times) at %d ms, want %s at %d ms", k, o.Op, r.V, r.N, r.At, want[k], at[k])
				}
			}
			return nil
		},
	})
}

type dogOp struct {
	Op string `json:"op"`
	D  int    `json:"d"`
}

type dogCase struct {
	Timeout int     `json:"timeout"`
	Grain   int     `json:"grain"`
	Ops     []dogOp `json:"ops"`
}

func TestC32_Watchdog(t *testing.T) {
	vt.Check(t, vt.Prop[dogCase]{
		Rule:  "1-15 feeds and clears of a watchdog at drawn times, around its timeout, with an exact or a coarse clock; non-trivial: it expires at least once",
		Quick: 60000, Thorough: 800000,
		Gen: func(t *rapid.T) dogCase {
			c := dogCase{Timeout: pick(t, "timeout", 1, 10, 100, 1000, 1500), Grain: pick(t, "grain", 1, 1, 1, 2, 7)}
			for range rapid.IntRange(1, 15).Draw(t, "nops") {
				d := rapid.IntRange(0, 3*c.Timeout).Draw(t, "d")
				if rapid.Bool().Draw(t, "near") {
					d = max(0, c.Timeout+rapid.IntRange(-2, 2).Draw(t, "off"))
				}
				c.Ops = append(c.Ops, dogOp{Op: pick(t, "op", "feed", "feed", "feed", "clear"), D: d})
			}
			return c
		},
		Run: func(t *testing.T, c dogCase, in *vt.Info) error {
			in.LabelIf(c.Grain > 1, "coarse clock")
			var rec struct {
				Fired  []int `json:"fired"`
				At     []int `json:"at"`
				Timers int   `json:"timers"`
			}
			if err := runEnd("watchdog", c, &rec); err != nil {
				return err
			}
			in.NonTrivial = len(rec.Fired) > 0
			slack := 0
			if c.Grain > 1 {
				slack = 2 * c.Grain
			}
			fired := rec.Fired
			for k, o := range c.Ops {
				if o.Op != "feed" {
					continue
				}
				// it expires once, the timeout after the feed, unless something is done before.
				from, to := rec.At[k]+c.Timeout, rec.At[k]+c.Timeout+slack
				must, may := true, true
				if k+1 < len(c.Ops) {
					must, may = rec.At[k+1] > to, rec.At[k+1] >= from
				}
				hit := len(fired) > 0 && (k+1 >= len(c.Ops) || fired[0] <= rec.At[k+1] && fired[0] < rec.At[k+1]+1 && fired[0] <= to)
				switch {
				case hit && (!may || fired[0] < from || fired[0] > to):
					return fmt.Errorf("fed at %d ms, expired at %d ms, the timeout is %d ms", rec.At[k], fired[0], c.Timeout)
				case hit:
					fired = fired[1:]
				case must:
					return fmt.Errorf("fed at %d ms and left alone, expired at %v, the timeout is %d ms", rec.At[k], rec.Fired, c.Timeout)
				}
			}
			if len(fired) > 0 {
				return fmt.Errorf("expired at %v", rec.Fired)
			}
			if rec.Timers > 0 {
				return fmt.Errorf("%d timers are left", rec.Timers)
			}
			return nil
		},
	})
}

type pushCase struct {
	Out    string   `json:"out"`
	Sink   bool     `json:"sink,omitempty"`
	Sync   bool     `json:"sync,omitempty"`
	Msgs   []string `json:"msgs"`
	Gaps   []int    `json:"gaps"`
	Err    *string  `json:"err"`
	ReadAt int      `json:"readAt,omitempty"`
	RGap   int      `json:"rgap,omitempty"`
}

func TestC32_Pushables(t *testing.T) {
	vt.Check(t, vt.Prop[pushCase]{
		Rule:  "0-6 values written to a pushable by writeToPushable or its sink, by a source which ends or fails, read at its own pace; non-trivial: several values",
		Quick: 30000, Thorough: 300000,
		Gen: func(t *rapid.T) pushCase {
			c := pushCase{
				Out: pick(t, "out", "message", "any"), Sink: rapid.Bool().Draw(t, "sink"), Sync: rapid.Bool().Draw(t, "sync"),
				Msgs:   rapid.SliceOfN(rapid.SampledFrom([]string{"a", "b", "c", ""}), 0, 6).Draw(t, "msgs"),
				Gaps:   rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 1, 20}), 1, 3).Draw(t, "gaps"),
				ReadAt: pick(t, "readat", 0, 0, 1, 50), RGap: pick(t, "rgap", 0, 0, 1, 30),
			}
			if rapid.IntRange(0, 2).Draw(t, "fails") == 0 {
				e := "source failed"
				c.Err = &e
			}
			return c
		},
		Run: func(t *testing.T, c pushCase, in *vt.Info) error {
			in.NonTrivial = len(c.Msgs) > 1
			var rec struct {
				Got  []string `json:"got"`
				End  string   `json:"end"`
				Done *string  `json:"done"`
			}
			if err := runEnd("pushing", c, &rec); err != nil {
				return err
			}
			end := "EOF"
			if c.Err != nil {
				end = *c.Err
			}
			if !slices.Equal(rec.Got, c.Msgs) || rec.End != end {
				return fmt.Errorf("the values %q (end %q) are read as %q (end %q)", c.Msgs, end, rec.Got, rec.End)
			}
			if rec.Done == nil {
				return errors.New("the write is not over")
			}
			return nil
		},
	})
}

type errCase struct {
	Kind string `json:"kind"`
	Text string `json:"text"`
	Num  int    `json:"num"`
	Def  string `json:"def"`
}

func TestC32_Errors(t *testing.T) {
	vt.Check(t, vt.Prop[errCase]{
		Rule:  "anything that can be thrown (errors, strings, numbers, null, objects with and without a message) with drawn texts; non-trivial: all",
		Quick: 20000, Thorough: 100000,
		Gen: func(t *rapid.T) errCase {
			return errCase{
				Kind: pick(t, "kind", "error", "error", "string", "undefined", "null", "number", "object", "bare", "like", "zero", "named", "range", "function"),
				Text: pick(t, "text", "boom", "", "ERR_RPC_ABORT", "ERR_STREAM_IDLE", "ERR_RPC_ABORT ", "\u00e9"), Num: rapid.IntRange(1, 100).Draw(t, "num"), Def: pick(t, "def", "", "default"),
			}
		},
		Run: func(t *testing.T, c errCase, in *vt.Info) error {
			in.NonTrivial = true
			in.Label(c.Kind)
			var rec struct {
				Cast    string `json:"cast"`
				Same    bool   `json:"same"`
				IsError bool   `json:"isError"`
				Abort   bool   `json:"abort"`
				Idle    bool   `json:"idle"`
			}
			if err := runEnd("errors", c, &rec); err != nil {
				return err
			}
			def := c.Def
			if def == "" {
				def = "error"
			}
			hasText := c.Kind == "error" || c.Kind == "range" || c.Kind == "like"
			switch c.Kind {
			case "error", "range", "like":
				if c.Text != "" && (!rec.Same || rec.Cast != c.Text) {
					return fmt.Errorf("the error %q is cast to %q (the same: %v)", c.Text, rec.Cast, rec.Same)
				}
			case "string", "named":
				if c.Text != "" && rec.Cast != c.Text || c.Text == "" && rec.Cast != def {
					return fmt.Errorf("%s %q is cast to %q", c.Kind, c.Text, rec.Cast)
				}
			case "number":
				if rec.Cast != strconv.Itoa(c.Num) {
					return fmt.Errorf("%d is cast to %q", c.Num, rec.Cast)
				}
			case "undefined", "null", "zero", "bare":
				if rec.Cast != def {
					return fmt.Errorf("%s is cast to %q, want %q", c.Kind, rec.Cast, def)
				}
			}
			if rec.Cast == "" || !rec.IsError && c.Kind != "like" {
				return fmt.Errorf("%s %q is cast to %q (an Error: %v)", c.Kind, c.Text, rec.Cast, rec.IsError)
			}
			if rec.Abort != (hasText && c.Text == "ERR_RPC_ABORT") || rec.Idle != (hasText && c.Text == "ERR_STREAM_IDLE") {
				return fmt.Errorf("%s %q: an abort: %v, idle: %v", c.Kind, c.Text, rec.Abort, rec.Idle)
			}
			return nil
		},
	})
}
