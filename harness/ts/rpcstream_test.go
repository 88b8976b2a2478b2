package ts

import (
	"errors"
	"fmt"
	"slices"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"verif/harness/vt"
)

type rsGetter struct {
	Kind string `json:"kind"`
	D    int    `json:"d,omitempty"`
	Err  string `json:"err,omitempty"`
}

// ack is the error which the getter makes, and whether it may be another.
func (g *rsGetter) ack() (want string, any bool) {
	switch g.Kind {
	case "null":
		return "not implemented", false
	case "throw":
		return g.Err, g.Err == ""
	case "string", "nothing":
		return "", true
	}
	return "", false
}

type rsSide struct {
	Msgs  [][]byte `json:"msgs"`
	Gaps  []int    `json:"gaps"`
	End   string   `json:"end"`
	Err   string   `json:"err,omitempty"`
	RGap  int      `json:"rgap,omitempty"`
	Wait  bool     `json:"wait,omitempty"`  // the handler waits for its reads
	Fails string   `json:"fails,omitempty"` // the handler fails at once
}

type rsCase struct {
	ID     string   `json:"id"`
	Ack    bool     `json:"ack"`
	Getter rsGetter `json:"getter"`
	Up     []int    `json:"up"`
	Down   []int    `json:"down"`
	Client rsSide   `json:"client"`
	Server rsSide   `json:"server"`
}

type rsEnd struct {
	Got [][]byte `json:"got"`
	End *string  `json:"end"`
}

type rsRec struct {
	IDs    []string `json:"ids"`
	Runs   int      `json:"runs"`
	Client rsEnd    `json:"client"`
	Server rsEnd    `json:"server"`
	Failed *string  `json:"failed"`
	At     int      `json:"at"`
	Sunk   bool     `json:"sunk"`
	Back   []struct {
		What string `json:"what"`
		V    string `json:"v"`
	} `json:"back"`
	Over *string `json:"over"`
}

func genRSSide(t *rapid.T) rsSide {
	s := rsSide{
		Gaps: rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 1, 20}), 1, 3).Draw(t, "gaps"),
		End:  pick(t, "end", "end", "end", "throw", "never"),
		RGap: pick(t, "rgap", 0, 0, 0, 1, 30), Wait: rapid.Bool().Draw(t, "wait"),
		Msgs: [][]byte{},
	}
	if s.End == "throw" {
		s.Err = pick(t, "err", "source failed", "\u00e9")
	}
	for range rapid.IntRange(0, 6).Draw(t, "nmsgs") {
		s.Msgs = append(s.Msgs, pick(t, "m", []byte("a"), []byte("b"), []byte("c"), []byte{}, []byte{0}, []byte{255, 0, 1}, make([]byte, 2000)))
	}
	return s
}

func genGetter(t *rapid.T) rsGetter {
	g := rsGetter{Kind: pick(t, "getter", "ok", "ok", "ok", "ok", "ok", "null", "throw", "string", "nothing"), D: pick(t, "getterd", 0, 0, 1, 100)}
	if g.Kind == "throw" || g.Kind == "string" {
		g.Err = pick(t, "gettererr", "no such component", "")
	}
	return g
}

func isPrefixBytes(a, b [][]byte) bool {
	return len(a) <= len(b) && slices.EqualFunc(a, b[:len(a)], func(x, y []byte) bool { return string(x) == string(y) })
}

// check checks what an end received of the other.
func (r *rsEnd) check(who string, from *rsSide, fails string) error {
	if !isPrefixBytes(r.Got, from.Msgs) || len(r.Got) != len(from.Msgs) {
		return fmt.Errorf("the %s received %.60q, the other side sent %.60q", who, r.Got, from.Msgs)
	}
	switch want := map[string]string{"end": "EOF", "throw": from.Err, "never": fails}[from.End]; {
	case r.End == nil && want != "":
		return fmt.Errorf("the %s still waits, the other side's end is %q", who, want)
	case r.End != nil && *r.End != want:
		return fmt.Errorf("the %s received the end %q, want %q", who, *r.End, want)
	}
	return nil
}

func TestC31_Streams(t *testing.T) {
	vt.Check(t, vt.Prop[rsCase]{
		Rule:  "an rpc stream opened with or without waiting for the ack, a getter which finds a handler, none, or fails, at once or later, both sides writing 0-6 packets at their pace until they end, fail or stay open; non-trivial: a handler runs and packets are sent both ways",
		Quick: 40000, Thorough: 500000,
		Gen: func(t *rapid.T) rsCase {
			c := rsCase{
				ID: pick(t, "id", "", "x", "plugin/a", "\u00e9", strings.Repeat("n", 300)), Ack: rapid.Bool().Draw(t, "ack"), Getter: genGetter(t),
				Up:     rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 1, 7}), 0, 3).Draw(t, "up"),
				Down:   rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 1, 7}), 0, 3).Draw(t, "down"),
				Client: genRSSide(t), Server: genRSSide(t),
			}
			if rapid.IntRange(0, 9).Draw(t, "fails") == 0 {
				c.Server = rsSide{Msgs: [][]byte{}, Gaps: []int{0}, End: "never", RGap: c.Server.RGap, Fails: "handler failed"}
			}
			return c
		},
		Run: func(t *testing.T, c rsCase, in *vt.Info) error {
			in.Label("getter " + c.Getter.Kind)
			in.NonTrivial = c.Getter.Kind == "ok" && len(c.Client.Msgs) > 0 && len(c.Server.Msgs) > 0
			var rec rsRec
			if err := runEnd("rpcstream", c, &rec); err != nil {
				return err
			}
			if !slices.Equal(rec.IDs, []string{c.ID}) {
				return fmt.Errorf("the getter was asked for %q, want %q once", rec.IDs, c.ID)
			}
			if !c.Ack && rec.At > 0 {
				return fmt.Errorf("the stream was opened after %d ms though the ack is not waited for", rec.At)
			}
			want, any := c.Getter.ack()
			if c.Getter.Kind != "ok" {
				if rec.Runs > 0 {
					return errors.New("a handler ran")
				}
				if c.Ack {
					if rec.Failed == nil || !any && !strings.HasSuffix(*rec.Failed, want) {
						return fmt.Errorf("the getter's error is %q, the open gave %s", want, str(rec.Failed))
					}
					return nil
				}
				if rec.Failed != nil || rec.Client.End == nil || *rec.Client.End == "EOF" || *rec.Client.End == "" || !any && *rec.Client.End != want || len(rec.Client.Got) > 0 {
					return fmt.Errorf("the getter's error is %q, the open gave %s, the stream %q and %s", want, str(rec.Failed), rec.Client.Got, str(rec.Client.End))
				}
				return nil
			}
			if rec.Failed != nil || rec.Runs != 1 {
				return fmt.Errorf("the open gave %s, %d handlers ran", str(rec.Failed), rec.Runs)
			}
			if c.Client.End != "never" && c.Server.Fails == "" && !rec.Sunk {
				return errors.New("the client's sink is not over")
			}
			if c.Server.Fails != "" {
				return rec.Client.check("client", &c.Server, c.Server.Fails)
			}
			return errors.Join(rec.Client.check("client", &c.Server, ""), rec.Server.check("handler", &c.Client, ""))
		},
	})
}

// rsOp is a packet, or an end.
type rsOp struct {
	D    int    `json:"d"`
	What string `json:"what"`
	V    string `json:"v"`
}

type rsPackets struct {
	To     string   `json:"to"`
	ID     string   `json:"id"`
	Ack    bool     `json:"ack"`
	Getter rsGetter `json:"getter"`
	Ops    []rsOp   `json:"ops"`
	Client rsSide   `json:"client"`
	Server rsSide   `json:"server"`
}

func TestC31_Packets(t *testing.T) {
	vt.Check(t, vt.Prop[rsPackets]{
		Rule:  "one end of an rpc stream against 0-7 packets in drawn order: inits, acks, errors, data, packets without a body, then the end, an error or nothing; non-trivial: the stream was opened",
		Quick: 40000, Thorough: 500000,
		Gen: func(t *rapid.T) rsPackets {
			c := rsPackets{
				To: pick(t, "to", "client", "server"), ID: pick(t, "id", "", "x"), Ack: rapid.Bool().Draw(t, "ack"), Getter: genGetter(t),
				Client: genRSSide(t), Server: genRSSide(t), Ops: []rsOp{},
			}
			c.Server.Wait = false
			first := []string{"ack", "ack", "ack", "ack none", "data", "init"}
			if c.To == "server" {
				first = []string{"init", "init", "init", "init", "init none", "data", "ack"}
			}
			for i := range rapid.IntRange(0, 7).Draw(t, "nops") {
				o := rsOp{D: pick(t, "d", 0, 0, 1, 50)}
				if i == 0 && rapid.IntRange(0, 5).Draw(t, "odd") > 0 {
					o.What = pick(t, "first", first...)
				} else {
					o.What = pick(t, "what", "data", "data", "data", "data", "data", "ack", "ack none", "init", "init none", "empty", "no body", "no case")
				}
				switch o.What {
				case "init":
					o.V = pick(t, "component", "", "x", "y")
				case "ack":
					if o.V = pick(t, "ackerr", "", "", "", "failed"); i == 0 {
						o.V = pick(t, "ackerr0", "", "", "", "", "failed")
					}
				case "data":
					o.V = pick(t, "data", "a", "b", "c", "")
				}
				c.Ops = append(c.Ops, o)
			}
			if end := pick(t, "over", "", "throw", "wait"); end != "" {
				c.Ops = append(c.Ops, rsOp{What: end, V: "call failed"})
			}
			return c
		},
		Run: func(t *testing.T, c rsPackets, in *vt.Info) error {
			in.Label("to " + c.To)
			var rec rsRec
			if err := runEnd("rpcpackets", c, &rec); err != nil {
				return err
			}
			ops := c.Ops
			first := rsOp{What: "over"}
			if len(ops) > 0 {
				first = ops[0]
			}
			r, s := &rec.Client, &c.Client
			if c.To == "server" {
				r, s = &rec.Server, &c.Server
				if first.What == "wait" {
					if rec.Over != nil || len(rec.Back) > 0 || len(rec.IDs) > 0 {
						return fmt.Errorf("no packet arrived, the server sent %v, then %s", rec.Back, str(rec.Over))
					}
					return nil
				}
				if first.What != "init" && first.What != "init none" {
					if len(rec.IDs) > 0 || len(rec.Back) > 0 || rec.Over == nil || *rec.Over == "EOF" || first.What == "throw" && *rec.Over != first.V {
						return fmt.Errorf("the first packet is %q; the getter was asked for %q, the server sent %v, then %s", first.What, rec.IDs, rec.Back, str(rec.Over))
					}
					return nil
				}
				if !slices.Equal(rec.IDs, []string{first.V}) {
					return fmt.Errorf("the getter was asked for %q, want %q", rec.IDs, first.V)
				}
				ops = ops[1:]
				want, any := c.Getter.ack()
				if len(rec.Back) == 0 || rec.Back[0].What != "ack" || !any && rec.Back[0].V != want || any && rec.Back[0].V == "" {
					return fmt.Errorf("the getter's error is %q, the server sent %v", want, rec.Back)
				}
				if c.Getter.Kind != "ok" {
					if len(rec.Back) > 1 || rec.Runs > 0 || rec.Over == nil || *rec.Over == "EOF" {
						return fmt.Errorf("the getter's error is %q, the server sent %v, then %s", want, rec.Back, str(rec.Over))
					}
					return nil
				}
				rec.Back = rec.Back[1:]
			} else {
				if len(rec.Back) == 0 || rec.Back[0].What != "init" || rec.Back[0].V != c.ID {
					return fmt.Errorf("the client sent %v, want init %q", rec.Back, c.ID)
				}
				rec.Back = rec.Back[1:]
				if c.Ack {
					if first.What == "wait" {
						if rec.Failed != nil || r.End != nil {
							return fmt.Errorf("no ack arrived, the open gave %s, %s", str(rec.Failed), str(r.End))
						}
						return nil
					}
					if acked := (first.What == "ack" || first.What == "ack none") && first.V == ""; !acked {
						if rec.Failed == nil || first.What == "ack" && !strings.HasSuffix(*rec.Failed, first.V) || first.What == "throw" && *rec.Failed != first.V {
							return fmt.Errorf("the first packet is %s %q; the open gave %s", first.What, first.V, str(rec.Failed))
						}
						return nil
					}
					ops = ops[1:]
				}
				if rec.Failed != nil {
					return fmt.Errorf("the open gave %s", str(rec.Failed))
				}
			}
			in.NonTrivial = true
			// what the stream's reader receives
			var want [][]byte
			end := "EOF"
		ops:
			for _, o := range ops {
				switch o.What {
				case "data":
					want = append(want, []byte(o.V))
				case "ack":
					if o.V != "" {
						end = o.V
						break ops
					}
				case "throw":
					end = o.V
				case "wait":
					end = ""
				}
			}
			if !isPrefixBytes(r.Got, want) || len(r.Got) != len(want) {
				return fmt.Errorf("the stream's reader received %q, want %q", r.Got, want)
			}
			if end == "" && r.End != nil || end != "" && (r.End == nil || *r.End != end) {
				return fmt.Errorf("the stream's reader received the end %s, want %q", str(r.End), end)
			}
			// what the stream's writer sent
			if len(rec.Back) != len(s.Msgs) {
				return fmt.Errorf("%d packets were sent for %d written", len(rec.Back), len(s.Msgs))
			}
			for i, m := range s.Msgs {
				if b := rec.Back[i]; b.What != "data" || b.V != strings.ToValidUTF8(string(m), "\ufffd") {
					return fmt.Errorf("packet %d is %v, want data %q", i, b, m)
				}
			}
			over := map[string]string{"end": "EOF", "throw": s.Err}[s.End]
			if over == "" && rec.Over != nil || over != "" && (rec.Over == nil || *rec.Over != over) {
				return fmt.Errorf("the stream's writer ended with %q, the call's with %s", over, str(rec.Over))
			}
			return nil
		},
	})
}
