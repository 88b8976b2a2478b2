package props

import (
	"fmt"
	"testing"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
	"pgregory.net/rapid"
	"verif/harness/vt"
)

func TestC17_Unary(t *testing.T) {
	vt.Check(t, vt.Prop[c01Case]{
		Rule:  "the cases of C01 (1-12 concurrent unary calls with drawn results, errors, missing handlers, cancels, a cut) made through 1-3 nested streams and 0-2 proxies; non-trivial: concurrent calls, or an error status, or an empty message, or one over 2048 bytes",
		Quick: 8000, Thorough: 200000,
		Gen: func(t *rapid.T) c01Case {
			c := genC01(t)
			c.Nest = genNest(t, 1)
			return c
		},
		Run: func(t *testing.T, c c01Case, in *vt.Info) error {
			nestLabels(in, c.Nest)
			return runC01(t, c, in)
		},
	})
}

func nestLabels(in *vt.Info, n Nest) {
	in.Label(fmt.Sprintf("depth:%d", n.Depth))
	in.LabelIf(n.Proxies > 0, "proxied")
	in.LabelIf(n.Ack, "waits for acknowledgement")
}

type c17Case struct {
	T     TCfg    `json:"t"`
	Calls []sCall `json:"calls"`
	Nests []Nest  `json:"nests"` // of each call
	Comp  []int   `json:"comp"`  // the component of each call
	Cut   int     `json:"cut,omitempty"`
}

func TestC17_Streams(t *testing.T) {
	vt.Check(t, vt.Prop[c17Case]{
		Rule:  "1-5 concurrent streaming calls (as in C02) to 1-3 components with the same services and methods, each call through its own drawn depth (1-3) and proxies (0-2), with or without waiting for acknowledgements; messages, ends and half-closes as for direct calls, each call at its own component; one in eight is cut; non-trivial: at least two messages in one direction, or an empty one, or a half-close read to the end, or an error",
		Quick: 14000, Thorough: 350000,
		Gen: func(t *rapid.T) c17Case {
			var c c17Case
			big := maybeBig(t)
			m := 0
			for range pick(t, "ncalls", 1, 1, 2, 3, 5) {
				s := genSCall(t, big)
				m = max(m, s.maxMsg())
				c.Calls = append(c.Calls, s)
				c.Nests = append(c.Nests, genNest(t, 1))
				c.Comp = append(c.Comp, pick(t, "comp", 0, 0, 1, 2))
			}
			c.T = genTCfg(t, m+40)
			if rapid.IntRange(0, 7).Draw(t, "doCut") == 0 && c.T.Kind != "pipe" {
				c.Cut = pick(t, "cut", 1, 50, 400, 3000, 20000)
			}
			return c
		},
		Run: func(t *testing.T, c c17Case, in *vt.Info) error {
			streamLabels(in, c.T, c.Calls)
			for i, s := range c.Calls {
				nestLabels(in, c.Nests[i])
				in.NonTrivial = in.NonTrivial || len(s.csent()) > 1 || len(s.SSends) > 1 || s.Err != "" || (s.CHalf && s.SReads < 0)
			}
			in.LabelIf(c.Cut > 0, "cut short")
			return bubble(t, c.T.Sched, true, func() error { return runC17(c) })
		},
	})
}

func runC17(c c17Case) error {
	// component k at depth d has the calls with this component and depth, as
	// methods m0, m1...
	type place struct{ d, k int }
	recs := make([]*sRec, len(c.Calls))
	by := map[place][]int{}
	met := make([]string, len(c.Calls))
	for i := range recs {
		recs[i] = newRec()
		p := place{c.Nests[i].Depth, c.Comp[i]}
		met[i] = fmt.Sprintf("m%d", len(by[p]))
		by[p] = append(by[p], i)
	}
	path := func(p place) string { return nestPath(p.d, fmt.Sprintf("c%d", p.k)) }
	leaf := map[string]srpc.Invoker{}
	for p, is := range by {
		var cs []sCall
		var rs []*sRec
		for _, i := range is {
			cs, rs = append(cs, c.Calls[i]), append(rs, recs[i])
		}
		mux := srpc.NewMux()
		if err := mux.Register(streamServer("s", cs, rs)); err != nil {
			return vt.Infra(err)
		}
		leaf[path(p)] = mux
	}
	w, n, err := newNested(c.T, leaf)
	if err != nil {
		return err
	}
	defer w.Close()
	var during func(*World, []*sRec) error
	check := func(i int, r *sRec, s *sCall) error {
		if err := r.checkMsgs(s); err != nil {
			return err
		}
		if err := r.checkEnds(s); err != nil {
			return err
		}
		return r.checkHalf(s)
	}
	if c.Cut > 0 {
		during = func(w *World, _ []*sRec) error {
			sleepUs(c.Cut)
			w.Cut(errCut)
			return nil
		}
		check = func(i int, r *sRec, s *sCall) error { return r.checkPrefix(s) }
	}
	err = runStreamsOn(w, c.Calls, recs, func(i int) (srpc.Client, string) {
		return n.client(w.Client, c.Nests[i], path(place{c.Nests[i].Depth, c.Comp[i]})), met[i]
	}, during, check)
	if err != nil {
		return err
	}
	time.Sleep(time.Minute)
	if a, b := n.counts(); a != b {
		return fmt.Errorf("%d components were acquired and %d released", a, b)
	}
	return nil
}

func TestC17_Ends(t *testing.T) {
	vt.Check(t, vt.Prop[endCase]{
		Rule:  "the cases of C05 (a call ended by a drawn cause while both sides are blocked in or loop over drawn operations) made through 1-3 nested streams and 0-2 proxies; non-trivial: the handler ran before the cause",
		Quick: 14000, Thorough: 300000,
		Gen: func(t *rapid.T) endCase {
			c := genEnd(t)
			c.Nest = genNest(t, 1)
			c.At += pick(t, "later", 0, 1000, 30000, 100000)
			return c
		},
		Run: func(t *testing.T, c endCase, in *vt.Info) error {
			in.Label("transport:"+c.T.Kind, "cause:"+c.Cause, "handler:"+c.Srv)
			nestLabels(in, c.Nest)
			err := bubble(t, c.T.Sched, false, func() error { return runEnd(c, in) })
			for _, l := range in.Labels {
				in.NonTrivial = in.NonTrivial || l == "while the handler ran"
			}
			return err
		},
	})
}
