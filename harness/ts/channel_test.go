package ts

import (
	"encoding/json"
	"errors"
	"fmt"
	"slices"
	"testing"

	"pgregory.net/rapid"
	"verif/harness/vt"
)

type chanOpts struct {
	RemoteOpen bool `json:"remoteOpen,omitempty"`
	KeepAlive  *int `json:"keepAliveMs,omitempty"`
	Idle       *int `json:"idleTimeoutMs,omitempty"`
}

type chanSide struct {
	At       int               `json:"at"` // when the stream is made
	Opts     *chanOpts         `json:"opts,omitempty"`
	SinkAt   int               `json:"sinkAt"` // after At; or never
	Msgs     []json.RawMessage `json:"msgs"`
	Gaps     []int             `json:"gaps"`
	Sync     bool              `json:"sync,omitempty"`
	End      string            `json:"end"`
	Err      string            `json:"err,omitempty"`
	ReadAt   int               `json:"readAt"`
	RGap     int               `json:"rgap,omitempty"`
	CloseAt  int               `json:"closeAt"`
	CloseErr string            `json:"closeErr,omitempty"`
	Twice    bool              `json:"twice,omitempty"`
	MuteAt   int               `json:"muteAt"` // nothing it posts arrives from then on
}

type chanCase struct {
	Kind   string     `json:"kind"`
	Delays []int      `json:"delays"`
	Sides  []chanSide `json:"sides"`
	// nobody waits for the remote's ack and open.
	Unwatched bool `json:"unwatched,omitempty"`
}

type chanState struct {
	Got    []json.RawMessage `json:"got"`
	Ats    []int             `json:"ats"`
	End    *string           `json:"end"`
	EndAt  int               `json:"endAt"`
	Sent   int               `json:"sent"`
	Left   bool              `json:"left"`
	Sink   *string           `json:"sink"`
	Ack    *string           `json:"ack"`
	Opened *string           `json:"opened"`
	Acked  bool              `json:"acked"`
	Open   bool              `json:"open"`
	Threw  string            `json:"threw"`
	Last   int               `json:"last"` // when something arrived last
	Shut   int               `json:"shut"` // when the port was closed
}

type chanRec struct {
	Before []chanState `json:"before"`
	After  []chanState `json:"after"`
	Timers int         `json:"timers"`
}

func genChanSide(t *rapid.T, c *chanCase, closing bool) chanSide {
	s := chanSide{
		At: pick(t, "at", 0, 0, 0, 1, 40), SinkAt: pick(t, "sinkat", 0, 0, 0, 0, 1, 60, -1),
		ReadAt: pick(t, "readat", 0, 0, 0, 1, 100, 1000), RGap: pick(t, "rgap", 0, 0, 0, 1, 30),
		Gaps:    rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 1, 20, 500}), 1, 4).Draw(t, "gaps"),
		Sync:    pick(t, "sync", false, false, true),
		End:     pick(t, "end", "end", "end", "throw", "never"),
		CloseAt: -1, MuteAt: -1,
		Msgs: []json.RawMessage{},
	}
	if s.End == "throw" {
		s.Err = pick(t, "err", "source failed", "\u00e9", "")
	}
	if s.Sync && s.End == "never" {
		s.End = "end"
	}
	for range rapid.IntRange(0, 6).Draw(t, "nmsgs") {
		m := pick(t, "m", `"a"`, `"b"`, `"c"`, `1`, `2`, `0`, `""`, `false`, `true`, `{"data":1}`, `{"closed":true}`, `[1,2]`, `null`)
		s.Msgs = append(s.Msgs, json.RawMessage(m))
	}
	if rapid.IntRange(0, 3).Draw(t, "opts") == 0 {
		s.Opts = &chanOpts{RemoteOpen: pick(t, "ropen", false, true)}
	}
	if closing && rapid.IntRange(0, 2).Draw(t, "closes") == 0 {
		s.CloseAt = pick(t, "closeat", 0, 0, 1, 5, 30, 100, 1500)
		s.CloseErr = pick(t, "closeerr", "", "closed with it")
		s.Twice = pick(t, "twice", false, true)
	}
	return s
}

// fix makes the options of the case true.
func (c *chanCase) fix() {
	for i := range c.Sides {
		// the remote listens, and knows.
		if s, p := &c.Sides[i], &c.Sides[1-i]; c.Kind != "port" && s.remoteOpen() {
			p.Opts = nil
			s.At = max(s.At, p.At+1)
		}
	}
}

func (s *chanSide) remoteOpen() bool { return s.Opts != nil && s.Opts.RemoteOpen }

func isPrefixRaw(a, b []json.RawMessage) bool {
	return len(a) <= len(b) && slices.EqualFunc(a, b[:len(a)], func(x, y json.RawMessage) bool { return string(x) == string(y) })
}

func genChanCase(t *rapid.T) *chanCase {
	return &chanCase{
		Kind:      pick(t, "kind", "port", "port", "broadcast", "same"),
		Delays:    rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 1, 7, 40}), 1, 4).Draw(t, "delays"),
		Unwatched: pick(t, "unwatched", false, false, true),
	}
}

// checkAll checks what holds of every case.
func (c *chanCase) checkAll(rec *chanRec) error {
	for i := range c.Sides {
		s, r, p := &c.Sides[i], &rec.After[i], &c.Sides[1-i]
		if !isPrefixRaw(r.Got, p.Msgs) {
			return fmt.Errorf("side %d sent %s, side %d received %s", 1-i, p.Msgs, i, r.Got)
		}
		if r.Threw != "" {
			return fmt.Errorf("side %d: close threw %q", i, r.Threw)
		}
		if r.End == nil {
			return fmt.Errorf("side %d: the stream is closed, its reader waits", i)
		}
		if !c.Unwatched && (r.Ack == nil || r.Opened == nil) {
			return fmt.Errorf("side %d: the stream is closed, the wait for the remote's ack (%s) or open (%s) is not over", i, str(r.Ack), str(r.Opened))
		}
		if !c.Unwatched && ((*r.Ack == "ok") != rec.Before[i].Acked || (*r.Opened == "ok") != rec.Before[i].Open) {
			return fmt.Errorf("side %d: ack %q (%v), open %q (%v)", i, *r.Ack, rec.Before[i].Acked, *r.Opened, rec.Before[i].Open)
		}
		if s.SinkAt >= 0 && r.Sink == nil && s.End != "never" {
			return fmt.Errorf("side %d: the stream is closed, its sink (%d of %d messages sent) is not over", i, r.Sent, len(s.Msgs))
		}
	}
	if rec.Timers > 0 {
		return fmt.Errorf("%d timers are left after both streams were closed", rec.Timers)
	}
	return nil
}

// opens says whether both sides come to write.
func (c *chanCase) opens() bool { return c.Sides[0].SinkAt >= 0 && c.Sides[1].SinkAt >= 0 }

func TestC30_Channel(t *testing.T) {
	vt.Check(t, vt.Prop[chanCase]{
		Rule:  "two ChannelStreams over message ports, a pair of broadcast channels or a single one, made at drawn times, messages of all kinds (also falsy ones) delivered with drawn delays, each side writing and reading at its own pace, ending cleanly, with an error or never; non-trivial: messages in both directions",
		Quick: 30000, Thorough: 400000,
		Gen: func(t *rapid.T) chanCase {
			c := genChanCase(t)
			c.Sides = []chanSide{genChanSide(t, c, false), genChanSide(t, c, false)}
			c.fix()
			return *c
		},
		Run: func(t *testing.T, c chanCase, in *vt.Info) error {
			in.Label(c.Kind)
			in.NonTrivial = c.opens() && len(c.Sides[0].Msgs) > 0 && len(c.Sides[1].Msgs) > 0
			var rec chanRec
			if err := runEnd("channel", c, &rec); err != nil {
				return err
			}
			if err := c.checkAll(&rec); err != nil {
				return err
			}
			for i := range c.Sides {
				s, r, p, b := &c.Sides[i], &rec.Before[i], &c.Sides[1-i], &rec.Before[1-i]
				// a writer waits for the other side to open, unless it knows it has.
				opened := p.SinkAt >= 0 || s.remoteOpen()
				flows := s.SinkAt >= 0 && opened
				if !flows {
					if len(b.Got) > 0 || r.Sink != nil || b.End != nil {
						return fmt.Errorf("side %d is not open; side %d received %s (%s), the sink: %s", i, 1-i, b.Got, str(b.End), str(r.Sink))
					}
					continue
				}
				if len(b.Got) != len(s.Msgs) {
					return fmt.Errorf("side %d sent %s, side %d received %s, then %s", i, s.Msgs, 1-i, b.Got, str(b.End))
				}
				want := map[string]string{"end": "EOF", "throw": s.Err, "never": "nothing"}[s.End]
				if b.End == nil && want != "nothing" || b.End != nil && *b.End != want {
					return fmt.Errorf("side %d wrote and ended with %q, side %d received the end %s", i, want, 1-i, str(b.End))
				}
				if (r.Sink == nil) != (s.End == "never") || r.Sink != nil && *r.Sink != "ok" {
					return fmt.Errorf("side %d: the sink ended with %s", i, str(r.Sink))
				}
				if !r.Open || !r.Acked {
					return fmt.Errorf("side %d wrote, is acked: %v, open: %v", i, r.Acked, r.Open)
				}
			}
			return nil
		},
	})
}

func TestC30_Close(t *testing.T) {
	vt.Check(t, vt.Prop[chanCase]{
		Rule:  "as before, and each side may be closed at a drawn time, with or without an error, once or twice; non-trivial: one is",
		Quick: 30000, Thorough: 400000,
		Gen: func(t *rapid.T) chanCase {
			c := genChanCase(t)
			c.Sides = []chanSide{genChanSide(t, c, true), genChanSide(t, c, true)}
			c.fix()
			return *c
		},
		Run: func(t *testing.T, c chanCase, in *vt.Info) error {
			in.Label(c.Kind)
			closed := c.Sides[0].CloseAt >= 0 || c.Sides[1].CloseAt >= 0
			in.NonTrivial = closed
			var rec chanRec
			if err := runEnd("channel", c, &rec); err != nil {
				return err
			}
			if err := c.checkAll(&rec); err != nil {
				return err
			}
			if !closed {
				return nil
			}
			for i := range c.Sides {
				s, r, p := &c.Sides[i], &rec.Before[i], &c.Sides[1-i]
				if s.CloseAt < 0 {
					continue
				}
				b := &rec.Before[1-i]
				if r.End == nil {
					return fmt.Errorf("side %d was closed, its reader waits", i)
				}
				if s.SinkAt >= 0 && r.Sink == nil && s.End != "never" {
					return fmt.Errorf("side %d was closed, its sink is not over", i)
				}
				if !c.Unwatched && (r.Ack == nil || r.Opened == nil) {
					return fmt.Errorf("side %d was closed, the wait for the remote's ack (%s) or open (%s) is not over", i, str(r.Ack), str(r.Opened))
				}
				if p.CloseAt >= 0 || c.Kind != "port" && s.At+min(s.CloseAt, max(s.SinkAt, 0)) <= p.At {
					continue // the other side was closed itself, or did not listen yet
				}
				// the other side receives what was sent before, then the end.
				if n := r.Sent; !s.Sync && len(b.Got) < n {
					return fmt.Errorf("side %d sent %s and was closed, side %d received %s, then %s", i, s.Msgs[:n], 1-i, b.Got, str(b.End))
				}
				want := "EOF"
				if s.CloseErr != "" {
					want = s.CloseErr
				}
				over := map[string]string{"end": "EOF", "throw": s.Err}[s.End]
				if b.End == nil || *b.End != want && (s.SinkAt < 0 || s.End == "never" || *b.End != over) {
					return fmt.Errorf("side %d was closed with %q, the other side's end is %s", i, s.CloseErr, str(b.End))
				}
				if p.SinkAt >= 0 && p.End != "never" && b.Sink == nil {
					return fmt.Errorf("side %d was closed, the other side's sink is not over", i)
				}
			}
			return nil
		},
	})
}

func TestC30_KeepAlive(t *testing.T) {
	vt.Check(t, vt.Prop[chanCase]{
		Rule:  "as before, with keep-alive and idle timeouts, and a side which is closed, or falls silent without closing, at a drawn time; non-trivial: an idle timeout is set",
		Quick: 20000, Thorough: 300000,
		Gen: func(t *rapid.T) chanCase {
			c := genChanCase(t)
			c.Sides = []chanSide{genChanSide(t, c, false), genChanSide(t, c, false)}
			if c.fix(); c.Kind == "same" {
				c.Delays = []int{0} // its own messages delay the others
			}
			for i := range c.Sides {
				s := &c.Sides[i]
				if s.Opts == nil {
					s.Opts = &chanOpts{}
				}
				if rapid.Bool().Draw(t, "keep") {
					v := pick(t, "keepms", 100, 3000, 20000)
					s.Opts.KeepAlive = &v
				}
				if rapid.Bool().Draw(t, "idle") {
					v := pick(t, "idlems", 141, 200, 5000, 30000)
					s.Opts.Idle = &v
				}
			}
			if rapid.Bool().Draw(t, "mutes") {
				c.Sides[rapid.IntRange(0, 1).Draw(t, "who")].MuteAt = pick(t, "muteat", 0, 50, 1000, 45000)
			}
			return *c
		},
		Run: func(t *testing.T, c chanCase, in *vt.Info) error {
			in.Label(c.Kind)
			var rec chanRec
			if err := runEnd("channel", c, &rec); err != nil {
				return err
			}
			if err := c.checkAll(&rec); err != nil {
				return err
			}
			var idled [2]bool
			for i := range c.Sides {
				s, r, p := &c.Sides[i], &rec.Before[i], &c.Sides[1-i]
				if s.Opts.Idle == nil || r.Last < 0 {
					continue
				}
				in.NonTrivial = true
				idled[i] = true
				idle := *s.Opts.Idle
				if p.Opts.KeepAlive != nil && *p.Opts.KeepAlive+slices.Max(c.Delays) < idle && p.MuteAt < 0 && p.Opts.Idle == nil {
					// the remote keeps the stream alive.
					idled[i] = false
					in.Label("kept alive")
					if r.Shut >= 0 {
						return fmt.Errorf("side %d became idle at %d ms though the remote sends every %d ms", i, r.Shut, *p.Opts.KeepAlive)
					}
					continue
				}
				if (p.MuteAt >= 0 || p.Opts.KeepAlive == nil) && 400e3-r.Last > idle {
					in.Label("idle")
					// nothing arrived any more.
					if r.End == nil {
						return fmt.Errorf("side %d received nothing after %d ms, its reader still waits", i, r.Last)
					}
					if p.Opts.Idle == nil && r.Shut != r.Last+idle {
						return fmt.Errorf("side %d was closed at %d ms, the last arrived at %d ms, the idle timeout is %d ms", i, r.Shut, r.Last, idle)
					}
				}
			}
			// without timeouts everything arrives.
			for i := range c.Sides {
				s, b, p := &c.Sides[i], &rec.Before[1-i], &c.Sides[1-i]
				if idled[0] || idled[1] || s.MuteAt >= 0 || p.MuteAt >= 0 || !c.opens() || s.remoteOpen() || p.remoteOpen() {
					continue
				}
				if len(b.Got) != len(s.Msgs) {
					return fmt.Errorf("side %d sent %s, side %d received %s, then %s", i, s.Msgs, 1-i, b.Got, str(b.End))
				}
			}
			return errors.Join()
		},
	})
}
