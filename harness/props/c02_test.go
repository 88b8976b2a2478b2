package props

import (
	"testing"

	"pgregory.net/rapid"
	"verif/harness/vt"
)

type streamCase struct {
	T     TCfg    `json:"t"`
	Calls []sCall `json:"calls"`
	Cut   int     `json:"cut,omitempty"`
	How   string  `json:"how,omitempty"`
}

func (c *streamCase) genCut(t *rapid.T) {
	c.Cut = pick(t, "cut", 1, 50, 400, 3000, 20000) + rapid.IntRange(0, 20).Draw(t, "cutx")
	c.How = pick(t, "how", "cut", "cut", "eof", "cancel", "cancel", "close", "srvctx")
	if c.T.Kind == "pipe" {
		c.How = pick(t, "how", "cancel", "close")
	}
}

func genStreams(t *rapid.T, ns ...int) streamCase {
	var c streamCase
	big := maybeBig(t)
	n := pick(t, "ncalls", ns...)
	m := 0
	for range n {
		s := genSCall(t, big)
		m = max(m, s.maxMsg())
		c.Calls = append(c.Calls, s)
	}
	c.T = genTCfg(t, m, connKinds...)
	return c
}

func TestC02_Streams(t *testing.T) {
	vt.Check(t, vt.Prop[streamCase]{
		Rule:  "1-3 streaming calls with 0-21 messages each way (contents, sizes up to 600 kB, delays, receive order, half-closes, transport, chunking, schedule drawn; in a sixth the connection is cut, or the calls are cancelled or closed, at a drawn time); non-trivial: at least two messages in one direction, or an empty message, or a half-close read to the end",
		Quick: 50000, Thorough: 600000,
		Gen: func(t *rapid.T) streamCase {
			c := genStreams(t, 1, 1, 1, 2, 3)
			if rapid.IntRange(0, 5).Draw(t, "doCut") == 0 {
				c.genCut(t)
			}
			return c
		},
		Run: func(t *testing.T, c streamCase, in *vt.Info) error {
			err := bubble(t, c.T.Sched, true, func() error {
				if c.Cut > 0 {
					return runStreams(c.T, c.Calls, func(w *World, recs []*sRec) error {
						cutShort(c.How, c.Cut, w, recs)
						return nil
					}, func(i int, r *sRec, s *sCall) error { return r.checkPrefix(s) })
				}
				return runStreams(c.T, c.Calls, nil, func(i int, r *sRec, s *sCall) error { return r.checkMsgs(s) })
			})
			streamLabels(in, c.T, c.Calls)
			in.LabelIf(c.Cut > 0, "cut short")
			for _, s := range c.Calls {
				if len(s.csent()) > 1 || len(s.SSends) > 1 || (s.CHalf && s.SReads < 0) {
					in.NonTrivial = true
				}
				for _, b := range append(s.csent(), s.ssent()...) {
					if len(b) == 0 {
						in.NonTrivial = true
					}
				}
			}
			return err
		},
	})
}
