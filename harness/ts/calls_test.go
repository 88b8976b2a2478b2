package ts

import (
	"errors"
	"fmt"
	"slices"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"verif/harness/vt"
)

type dirPlan struct {
	Delays []int `json:"delays,omitempty"`
	Chunks []int `json:"chunks,omitempty"`
	Join   bool  `json:"join,omitempty"`
}

type transport struct {
	Kind     string  `json:"kind"`
	Inner    string  `json:"inner,omitempty"`
	ID       *string `json:"id,omitempty"`
	Ack      bool    `json:"ack,omitempty"`
	Open     int     `json:"open,omitempty"`
	Late     int     `json:"late,omitempty"` // when the client learns how to open streams
	FailOpen string  `json:"failOpen,omitempty"`
	Raise    string  `json:"raise,omitempty"` // what is thrown instead of an Error
	Side     string  `json:"side,omitempty"`  // the end which cuts the connection
	Out      dirPlan `json:"out"`
	In       dirPlan `json:"in"`
}

type hop struct {
	D    int     `json:"d,omitempty"`
	Send *string `json:"send,omitempty"`
	Read int     `json:"read,omitempty"` // -1: to the end
}

type tsCall struct {
	Kind     string   `json:"kind"`
	Start    int      `json:"start,omitempty"`
	Send     []string `json:"send"`
	SGap     int      `json:"sgap,omitempty"`
	SendErr  string   `json:"sendErr,omitempty"`
	SendOpen bool     `json:"sendOpen,omitempty"`
	Reads    int      `json:"reads"` // -1: to the end
	RGap     int      `json:"rgap,omitempty"`
	Abort    int      `json:"abort"` // when the caller aborts, -1: never
	Ops      []hop    `json:"ops"`
	D        int      `json:"d,omitempty"`
	Err      string   `json:"err,omitempty"`
	Raise    string   `json:"raise,omitempty"` // what the handler or the source throws instead of an Error
	Pass     bool     `json:"pass,omitempty"`  // a failing receive fails the handler
	Back     bool     `json:"back,omitempty"`  // the other end of the connection is the caller
}

type callsCase struct {
	T      transport `json:"t"`
	Calls  []tsCall  `json:"calls"`
	Cut    int       `json:"cut"`
	CutErr string    `json:"cutErr,omitempty"`

	FailLookup string `json:"failLookup,omitempty"` // looking up methods fails, as t.raise says
}

type callRec struct {
	SGot  []string `json:"sgot"`
	SEnd  *string  `json:"send"`
	SRet  string   `json:"sret"`
	Runs  int      `json:"runs"`
	CGot  []string `json:"cgot"`
	CEnd  *string  `json:"cend"`
	CSent int      `json:"csent"`
	CAt   int      `json:"cat"` // when the caller's call ended
	Done  bool     `json:"done"`
}

type streamRec struct {
	CS    bool `json:"cs"` // the caller ended its direction
	CR    bool `json:"cr"` // the caller read to the end, or left
	COver bool `json:"cOver"`
	SS    bool `json:"ss"`
	SR    bool `json:"sr"`
	SOver bool `json:"sOver"`
}

type callsRec struct {
	Calls   []callRec   `json:"calls"`
	Streams []streamRec `json:"streams"`
	Open    []int       `json:"open"`
	IDs     []string    `json:"ids"`
}

func genPlan(t *rapid.T, l string) dirPlan {
	p := dirPlan{
		Delays: rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 1, 2, 10, 100}), 0, 5).Draw(t, l+"delays"),
		Join:   rapid.Bool().Draw(t, l+"join"),
	}
	if rapid.Bool().Draw(t, l+"chunked") {
		p.Chunks = rapid.SliceOfN(rapid.SampledFrom([]int{1, 1, 2, 3, 4, 5, 7, 12, 40, 1000}), 1, 5).Draw(t, l+"chunks")
	}
	return p
}

func genBody(t *rapid.T, l string) string {
	switch rapid.IntRange(0, 9).Draw(t, l+"k") {
	case 0, 1:
		return ""
	case 2:
		return string(make([]byte, rapid.SampledFrom([]int{100, 127, 128, 129, 5000, 70000}).Draw(t, l+"n")))
	case 3:
		return rapid.String().Draw(t, l+"u")
	default:
		return rapid.StringMatching(`[a-z]{1,4}`).Draw(t, l)
	}
}

func genGap(t *rapid.T, l string) int { return pick(t, l, 0, 0, 0, 1, 5, 50, 1000) }

func genTransport(t *rapid.T) transport {
	tr := transport{
		Kind: pick(t, "transport", "packet", "packet", "framed", "conn", "websocket", "channel", "port", "broadcast", "nested"),
		Out:  genPlan(t, "out"), In: genPlan(t, "in"),
		Open: pick(t, "open", 0, 0, 0, 10),
	}
	if tr.Kind == "packet" || tr.Kind == "framed" {
		tr.Late = pick(t, "late", 0, 0, 0, 20)
	}
	if tr.Kind == "nested" {
		tr.Inner = pick(t, "inner", "packet", "framed", "conn")
		tr.Ack = rapid.Bool().Draw(t, "ack")
		id := pick(t, "id", "", "x", "component/1")
		tr.ID = &id
	}
	return tr
}

func genCall(t *rapid.T) tsCall {
	c := tsCall{
		Kind:  pick(t, "kind", "unary", "client", "server", "server", "bidi", "bidi"),
		Start: genGap(t, "start"), SGap: genGap(t, "sgap"), RGap: genGap(t, "rgap"), D: genGap(t, "d"),
		Reads: -1, Abort: -1,
	}
	n := 1
	if c.Kind == "client" || c.Kind == "bidi" {
		n = rapid.IntRange(0, 4).Draw(t, "nsend")
	}
	c.Send = []string{}
	for range n {
		c.Send = append(c.Send, genBody(t, "msg"))
	}
	c.Ops = []hop{}
	sends := 0
	for range rapid.IntRange(0, 6).Draw(t, "nops") {
		h := hop{D: genGap(t, "opd")}
		if rapid.Bool().Draw(t, "opread") && (c.Kind == "client" || c.Kind == "bidi") {
			h.Read = pick(t, "opreads", 1, 1, 2, -1)
		} else if sends == 0 || c.Kind == "server" || c.Kind == "bidi" {
			b := genBody(t, "reply")
			h.Send = &b
			sends++
		} else {
			continue
		}
		c.Ops = append(c.Ops, h)
	}
	if rapid.Bool().Draw(t, "readall") && (c.Kind == "client" || c.Kind == "bidi") {
		c.Ops = append(c.Ops, hop{Read: -1})
	}
	if rapid.IntRange(0, 3).Draw(t, "fails") == 0 {
		c.Err = pick(t, "err", "boom", "unicode \u00e9\u4e16", "EOF", "x\ny")
	}
	return c
}

// twoWay says whether both ends of the transport can make calls.
func twoWay(kind string) bool {
	return slices.Contains([]string{"conn", "websocket", "channel", "port", "broadcast"}, kind)
}

func genRaise(t *rapid.T) string {
	return pick(t, "raise", "", "", "", "", "string", "object", "nothing", "null", "empty")
}

// raised says whether an end shows what was thrown with a text.
func raised(end, text, raise string) bool {
	switch raise {
	case "":
		return end == text
	case "string", "object":
		return strings.HasSuffix(end, text)
	default:
		// there is no text, but it is no clean end.
		return end != "EOF" && end != "left"
	}
}

func isPrefix(a, b []string) bool { return len(a) <= len(b) && slices.Equal(a, b[:len(a)]) }

// replies are the messages which the handler sends.
func (c *tsCall) replies() []string {
	var res []string
	for _, o := range c.Ops {
		if o.Send != nil {
			res = append(res, *o.Send)
		}
	}
	if c.Kind == "unary" || c.Kind == "client" {
		if c.Err != "" {
			return nil
		}
		if len(res) == 0 {
			return []string{""}
		}
		return res[len(res)-1:]
	}
	return res
}

// reads are the number of messages which the handler reads, and whether it reads to the end.
func (c *tsCall) reads() (int, bool) {
	if c.Kind == "unary" || c.Kind == "server" {
		return 1, false
	}
	n := 0
	for _, o := range c.Ops {
		if o.Read < 0 {
			return len(c.Send), true
		}
		n += o.Read
	}
	return min(n, len(c.Send)), n > len(c.Send)
}

func str(s *string) string {
	if s == nil {
		return "none"
	}
	return fmt.Sprintf("%q", *s)
}

func brief(l []string) string {
	s := fmt.Sprintf("%d:%q", len(l), l)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

// checkFull checks a call which nothing cut short.
func (r *callRec) checkFull(c *tsCall) error {
	if r.Runs != 1 {
		return fmt.Errorf("the handler ran %d times", r.Runs)
	}
	n, all := c.reads()
	if !slices.Equal(r.SGot, c.Send[:n]) {
		return fmt.Errorf("the caller sent %s, the handler received %s", brief(c.Send[:n]), brief(r.SGot))
	}
	if all && (r.SEnd == nil || *r.SEnd != "EOF") {
		return fmt.Errorf("after the caller's messages the handler's receive gave %s, want the end", str(r.SEnd))
	}
	if want := c.replies(); !slices.Equal(r.CGot, want) {
		return fmt.Errorf("the handler sent %s, the caller received %s, then %s", brief(want), brief(r.CGot), str(r.CEnd))
	}
	want := "EOF"
	if c.Err != "" {
		want = c.Err
	}
	if r.CEnd == nil || *r.CEnd != want && !(c.Err != "" && raised(*r.CEnd, c.Err, c.Raise)) {
		return fmt.Errorf("the caller's end is %s, want %q", str(r.CEnd), want)
	}
	return nil
}

func TestC27_Calls(t *testing.T) {
	vt.Check(t, vt.Prop[callsCase]{
		Rule:  "1-4 concurrent calls of every kind between the TypeScript client and server (echo service), over connections in both directions, with drawn bodies, pauses, handler scripts and results, over packets, framed bytes, the muxed connection, a message channel, message port, broadcast channel or nested stream with drawn delays and chunks; non-trivial: an empty message, several messages, an error or several calls",
		Quick: 40000, Thorough: 500000,
		Gen: func(t *rapid.T) callsCase {
			c := callsCase{T: genTransport(t), Cut: -1}
			for range rapid.IntRange(1, 4).Draw(t, "ncalls") {
				x := genCall(t)
				if x.Err != "" && x.Err != "EOF" {
					x.Raise = genRaise(t)
				}
				if twoWay(c.T.Kind) {
					x.Back = pick(t, "back", false, false, true)
				}
				c.Calls = append(c.Calls, x)
			}
			return c
		},
		Run: func(t *testing.T, c callsCase, in *vt.Info) error {
			in.Label("transport: " + c.T.Kind)
			in.NonTrivial = len(c.Calls) > 1
			for _, x := range c.Calls {
				in.Label("kind: " + x.Kind)
				in.NonTrivial = in.NonTrivial || x.Err != "" || len(x.Send) > 1 || slices.Contains(x.Send, "")
				in.LabelIf(x.Err != "", "handler fails")
				in.LabelIf(x.Raise != "", "handler throws no Error")
				in.LabelIf(x.Back, "called from the accepting end")
			}
			var rec callsRec
			r, err := run("calls", c, &rec)
			if err != nil {
				return err
			}
			var errs []error
			for i := range rec.Calls {
				if err := rec.Calls[i].checkFull(&c.Calls[i]); err != nil {
					errs = append(errs, fmt.Errorf("call %d (%s): %w", i, c.Calls[i].Kind, err))
				}
			}
			if r.Hang {
				errs = append(errs, errors.New("a call never ends"))
			}
			if r.Error != "" {
				errs = append(errs, errors.New(r.Error))
			}
			return errors.Join(errs...)
		},
	})
}
