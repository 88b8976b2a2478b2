package ts

import (
	"errors"
	"fmt"
	"testing"

	"pgregory.net/rapid"
	"verif/harness/vt"
)

// overreads says whether the handler reads more than the caller sends.
func (c *tsCall) overreads() bool {
	_, all := c.reads()
	return all
}

// checkCut checks a call which something may have cut short.
func (r *callRec) checkCut(c *tsCall, t *transport, cut bool, lookup string) error {
	n, all := c.reads()
	if r.Runs > 1 {
		return fmt.Errorf("the handler ran %d times", r.Runs)
	}
	if r.Runs > 0 && lookup != "" {
		return errors.New("the handler ran though looking it up failed")
	}
	if !r.Done || r.CEnd == nil {
		return errors.New("the caller is blocked")
	}
	if r.Runs == 1 && r.SRet == "" {
		return errors.New("the handler is blocked")
	}
	if !isPrefix(r.SGot, c.Send[:n]) {
		return fmt.Errorf("the caller sent %s, the handler received %s", brief(c.Send), brief(r.SGot))
	}
	if r.SEnd != nil && *r.SEnd == "EOF" && (len(r.SGot) < len(c.Send) || !all || c.SendErr != "" || c.SendOpen) {
		return fmt.Errorf("the handler saw the caller's clean end after %s of %s (the source fails with %q)", brief(r.SGot), brief(c.Send), c.SendErr)
	}
	replies := c.replies()
	if !isPrefix(r.CGot, replies) {
		return fmt.Errorf("the handler sent %s, the caller received %s", brief(replies), brief(r.CGot))
	}
	switch end := *r.CEnd; {
	case end == "left":
		if c.Reads < 0 || len(r.CGot) != c.Reads {
			return fmt.Errorf("the caller left after %d messages", len(r.CGot))
		}
	case c.Abort >= 0 && end == "ERR_RPC_ABORT":
	case t.FailOpen != "" && raised(end, t.FailOpen, t.Raise):
		if r.Runs > 0 {
			return errors.New("the handler ran though no stream was opened")
		}
	case t.FailOpen != "":
		return fmt.Errorf("the stream fails to open with %q, the caller's end is %q", t.FailOpen, end)
	case lookup != "" && (end == lookup || t.Raise != "" && end != "EOF"):
		// what is thrown instead of an Error may be replaced by another error
	case lookup != "" && end == "EOF":
		return fmt.Errorf("looking up the method fails with %q, the caller saw the clean end", lookup)
	case end == "EOF" && c.Err == "", c.Err != "" && raised(end, c.Err, c.Raise) && len(r.CGot) == len(replies):
		if len(r.CGot) != len(replies) {
			return fmt.Errorf("the handler sent %s, the caller received %s, then %q", brief(replies), brief(r.CGot), end)
		}
	case cut:
		// any error, but the end of an unfinished call
		if end == "EOF" {
			return fmt.Errorf("the handler fails with %q, the caller saw the clean end", c.Err)
		}
	case c.SendErr != "" && raised(end, c.SendErr, c.Raise):
	default:
		return fmt.Errorf("the caller's end is %q", end)
	}
	// an abort ends the call there and then.
	if c.Abort >= 0 {
		limit := c.Start + c.Abort
		if c.Kind == "server" || c.Kind == "bidi" {
			limit += (len(replies) + 2) * c.RGap
		}
		if r.CAt > limit {
			return fmt.Errorf("the caller aborted at %d ms, its call ended (%q) at %d ms", c.Start+c.Abort, *r.CEnd, r.CAt)
		}
	}
	return nil
}

func TestC28_Endings(t *testing.T) {
	vt.Check(t, vt.Prop[callsCase]{
		Rule:  "as TestC27_Calls, with calls which the caller aborts (before, while opening, or after drawn pauses), request sources which fail or never end, callers which leave early, streams which fail to open, methods which fail to be looked up, or a connection cut at the link, from one end or both; non-trivial: one of these was drawn",
		Quick: 40000, Thorough: 500000,
		Gen: func(t *rapid.T) callsCase {
			c := callsCase{T: genTransport(t), Cut: -1}
			c.T.Open = pick(t, "open2", 0, 0, 10, 200)
			if rapid.IntRange(0, 2).Draw(t, "cuts") == 0 {
				c.Cut = pick(t, "cut", 0, 1, 3, 10, 60, 500)
				c.T.Side = pick(t, "side", "", "client", "server")
				c.CutErr = pick(t, "cutErr", "", "link lost")
			}
			if rapid.IntRange(0, 9).Draw(t, "failopen") == 0 && (c.T.Kind == "packet" || c.T.Kind == "framed") {
				c.T.FailOpen = "no stream"
				c.T.Raise = genRaise(t)
			} else if rapid.IntRange(0, 14).Draw(t, "faillookup") == 0 {
				c.FailLookup = "no lookup"
				c.T.Raise = genRaise(t)
			}
			for range rapid.IntRange(1, 3).Draw(t, "ncalls") {
				x := genCall(t)
				if rapid.Bool().Draw(t, "aborts") {
					x.Abort = pick(t, "abort", 0, 1, 5, 30, 100, 1000, 3000)
				}
				if x.Kind == "client" || x.Kind == "bidi" {
					switch rapid.IntRange(0, 4).Draw(t, "source") {
					case 0:
						x.SendErr = "no more"
						x.Pass = rapid.Bool().Draw(t, "pass")
					case 1:
						// the handler must not wait for what never comes, unless the call is cut
						x.SendOpen = !x.overreads() || x.Abort >= 0 || c.Cut >= 0 && c.Cut < 100000
					}
				}
				if (x.Kind == "server" || x.Kind == "bidi") && rapid.IntRange(0, 4).Draw(t, "leaves") == 0 {
					x.Reads = rapid.IntRange(0, 2).Draw(t, "nreads")
					if x.SendOpen && x.overreads() {
						x.Reads = -1
					}
				}
				if x.Err != "EOF" {
					x.Raise = genRaise(t)
				}
				if twoWay(c.T.Kind) {
					x.Back = pick(t, "back", false, false, true)
				}
				c.Calls = append(c.Calls, x)
			}
			return c
		},
		Run: func(t *testing.T, c callsCase, in *vt.Info) error {
			in.Label("transport: " + c.T.Kind)
			in.NonTrivial = c.Cut >= 0 || c.T.FailOpen != ""
			in.LabelIf(c.Cut >= 0, "cut from "+map[string]string{"": "both ends", "client": "the client", "server": "the server"}[c.T.Side])
			in.LabelIf(c.FailLookup != "", "failing lookup")
			for _, x := range c.Calls {
				in.LabelIf(x.Abort >= 0, "abort")
				in.LabelIf(x.SendErr != "", "failing source")
				in.LabelIf((x.SendErr != "" || x.Err != "") && x.Raise != "", "no Error thrown")
				in.LabelIf(x.SendOpen, "endless source")
				in.LabelIf(x.Back, "called from the accepting end")
				in.LabelIf(x.Reads >= 0, "leaves early")
				in.NonTrivial = in.NonTrivial || x.Abort >= 0 || x.SendErr != "" || x.SendOpen || x.Reads >= 0
			}
			var rec callsRec
			r, err := run("calls", c, &rec)
			var errs []error
			if err != nil {
				errs = append(errs, err)
			}
			if r == nil {
				return err
			}
			for i := range rec.Calls {
				if err := rec.Calls[i].checkCut(&c.Calls[i], &c.T, c.Cut >= 0, c.FailLookup); err != nil {
					errs = append(errs, fmt.Errorf("call %d (%s): %w", i, c.Calls[i].Kind, err))
				}
			}
			if r.Hang {
				errs = append(errs, errors.New("a call never ends"))
			}
			for i, s := range rec.Streams {
				if !s.CS || !s.SS {
					errs = append(errs, fmt.Errorf("stream %d is left open: ended by the client: %v, by the server: %v", i, s.CS, s.SS))
				}
			}
			for i, n := range rec.Open {
				if n > 0 {
					errs = append(errs, fmt.Errorf("%d streams are left open at %s", n, []string{"the client", "the server"}[i]))
				}
			}
			if r.Error != "" {
				errs = append(errs, errors.New(r.Error))
			}
			return errors.Join(errs...)
		},
	})
}
