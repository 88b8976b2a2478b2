package ts

import (
	"encoding/json"
	"fmt"
	"testing"

	"pgregory.net/rapid"
	"verif/harness/vt"
)

type duplexRec struct {
	Sides []struct {
		Got   []json.RawMessage `json:"got"`
		End   *string           `json:"end"`
		Sink  *string           `json:"sink"`
		Sent  int               `json:"sent"`
		Over  int               `json:"over"` // when it was closed
		Threw string            `json:"threw"`
	} `json:"sides"`
	Timers int `json:"timers"`
}

func TestC30_Duplex(t *testing.T) {
	vt.Check(t, vt.Prop[chanCase]{
		Rule:  "two MessagePortDuplexes or BroadcastChannelDuplexes, each side reading at its pace and writing messages of all kinds until its source ends, fails or stays open, or until it is closed; non-trivial: messages in both directions or a close",
		Quick: 30000, Thorough: 400000,
		Gen: func(t *rapid.T) chanCase {
			c := genChanCase(t)
			if c.Kind == "same" {
				c.Kind = "broadcast"
			}
			c.Sides = []chanSide{genChanSide(t, c, true), genChanSide(t, c, true)}
			for i := range c.Sides {
				s := &c.Sides[i]
				if c.Kind == "broadcast" {
					s.ReadAt = 0 // nothing waits in a broadcast channel
				}
				for j, m := range s.Msgs {
					if string(m) == "null" { // marks the end
						s.Msgs[j] = json.RawMessage("3")
					}
				}
			}
			return *c
		},
		Run: func(t *testing.T, c chanCase, in *vt.Info) error {
			in.Label(c.Kind)
			in.NonTrivial = c.opens() && len(c.Sides[0].Msgs) > 0 && len(c.Sides[1].Msgs) > 0 || c.Sides[0].CloseAt >= 0 || c.Sides[1].CloseAt >= 0
			var rec duplexRec
			if err := runEnd("duplex", c, &rec); err != nil {
				return err
			}
			for i := range c.Sides {
				s, r, p, b := &c.Sides[i], &rec.Sides[i], &c.Sides[1-i], &rec.Sides[1-i]
				if r.Threw != "" {
					return fmt.Errorf("side %d: close threw %q", i, r.Threw)
				}
				if !isPrefixRaw(r.Got, p.Msgs) {
					return fmt.Errorf("side %d sent %s, side %d received %s", 1-i, p.Msgs, i, r.Got)
				}
				if (s.CloseAt >= 0 || s.SinkAt >= 0 && s.End != "never") && r.Over < 0 {
					return fmt.Errorf("side %d closed (its sink: %s), its port is not", i, str(r.Sink))
				}
				if (r.Over >= 0) != (b.Over >= 0) {
					return fmt.Errorf("the port of side %d was closed at %d ms, the other side's at %d ms", i, r.Over, b.Over)
				}
				if (r.End != nil) != (r.Over >= 0) || r.End != nil && *r.End != "EOF" {
					return fmt.Errorf("side %d was closed at %d ms, its reader's end is %s", i, r.Over, str(r.End))
				}
				if s.SinkAt >= 0 && s.End != "never" {
					if r.Sink == nil {
						return fmt.Errorf("side %d: the sink is not over", i)
					}
					if *r.Sink == "ok" && s.End == "throw" {
						return fmt.Errorf("side %d: the source failed with %q, the sink has not", i, s.Err)
					}
				}
				// what was sent before this side closed arrives, unless the other closed itself.
				if own := p.CloseAt >= 0 || p.SinkAt >= 0 && p.End != "never"; !own && len(b.Got) < r.Sent {
					return fmt.Errorf("side %d sent %s (closed at %d ms), side %d received %s (closed at %d ms)", i, s.Msgs[:r.Sent], r.Over, 1-i, b.Got, b.Over)
				}
			}
			if rec.Timers > 0 {
				return fmt.Errorf("%d timers are left", rec.Timers)
			}
			return nil
		},
	})
}
