package props

import (
	"fmt"
	"testing"

	"pgregory.net/rapid"
	"verif/harness/vt"
)

func TestC04_HalfClose(t *testing.T) {
	vt.Check(t, vt.Prop[streamCase]{
		Rule:  "1-3 streaming calls in which the caller and/or the handler half-closes at a drawn position and the other direction goes on (drawn messages, delays, transport, schedule); non-trivial: messages flow against the direction that was half-closed",
		Quick: 60000, Thorough: 600000,
		Gen: func(t *rapid.T) streamCase {
			var c streamCase
			big := maybeBig(t)
			m := 0
			for range pick(t, "ncalls", 1, 1, 1, 2, 3) {
				s := genSCall(t, big)
				switch rapid.IntRange(0, 3).Draw(t, "who") {
				case 0, 1:
					// the caller half-closes early, the handler goes on.
					s.CHalf, s.SReads = true, -1
					if rapid.Bool().Draw(t, "late") {
						s.Mode, s.SDelay = "readfirst", 0
					}
				case 2:
					// the handler half-closes first, the caller goes on.
					s.SHalf = true
					s.Mode = pick(t, "mode2", "sendfirst", "conc")
					if len(s.csent()) == 0 {
						s.CSends = []sSend{{M: genMsg(t, false, "extra")}}
					}
					for i := range s.CSends {
						s.CSends[i].D += 2000
					}
					s.SReads = len(s.csent())
				case 3:
					s.CHalf, s.SReads, s.SHalf = true, -1, true
				}
				m = max(m, s.maxMsg())
				c.Calls = append(c.Calls, s)
			}
			c.T = genTCfg(t, m)
			return c
		},
		Run: func(t *testing.T, c streamCase, in *vt.Info) error {
			streamLabels(in, c.T, c.Calls)
			for _, s := range c.Calls {
				in.NonTrivial = in.NonTrivial || s.CHalf && len(s.SSends) > 0 || s.SHalf && len(s.csent()) > 0
			}
			return bubble(t, c.T.Sched, true, func() error {
				return runStreams(c.T, c.Calls, nil, func(i int, r *sRec, s *sCall) error {
					if err := r.checkMsgs(s); err != nil {
						return err
					}
					if err := r.checkHalf(s); err != nil {
						return err
					}
					if err := r.checkEnds(s); err != nil {
						return err
					}
					if s.SReads < 0 || s.SReads == len(s.csent()) && !s.CHalf {
						// the handler was still reading when these were sent.
						r.mu.Lock()
						defer r.mu.Unlock()
						if len(r.CSendErr) > 0 {
							return fmt.Errorf("the caller failed to send: %w", r.CSendErr[0])
						}
					}
					return nil
				})
			})
		},
	})
}
