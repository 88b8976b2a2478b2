package props

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
	"pgregory.net/rapid"
	"verif/harness/sched"
	"verif/harness/vt"
)

type c24End struct {
	Sends [][]sSend `json:"sends"` // by each sender of this end
	Reads int       `json:"reads"` // -1: until the end
	RWait int       `json:"rwait,omitempty"`
	RGap  int       `json:"rgap,omitempty"`
	// Half half-closes after the sends of all senders.
	Half bool `json:"half,omitempty"`
	// Acts happen at given times.
	Acts []c24Act `json:"acts,omitempty"`
}

type c24Act struct {
	What string `json:"what"` // half, close, send, recv, bad
	At   int    `json:"at"`
}

type c24Case struct {
	E      [2]c24End    `json:"e"`
	Cancel int          `json:"cancel,omitempty"` // the context is cancelled then
	Sched  sched.Config `json:"sched"`
}

func TestC24_Pair(t *testing.T) {
	vt.Check(t, vt.Prop[c24Case]{
		Rule:  "an in-memory stream pair: each end has 0-3 senders (0-12 messages each, drawn delays), a receiver which reads to the end or stops, a half-close after its sends, and up to 4 half-closes, closes, sends and receives at drawn times; the context may be cancelled; messages, ends, errors and contexts are checked, and after both ends were closed nothing may stay blocked; non-trivial: messages in both directions, or a close, cancel or half-close while messages are sent",
		Quick: 60000, Thorough: 1500000,
		Gen: func(t *rapid.T) c24Case {
			c := c24Case{Sched: genSched(t)}
			faults := rapid.Bool().Draw(t, "faults")
			for k := range c.E {
				e := &c.E[k]
				for range pick(t, "nsenders", 0, 1, 1, 1, 2, 3) {
					n := rapid.IntRange(0, 12).Draw(t, "n")
					gap := pick(t, "gap", 0, 0, 300)
					var l []sSend
					for range n {
						s := sSend{M: genMsg(t, false, "m")}
						if gap > 0 {
							s.D = rapid.IntRange(0, gap).Draw(t, "d")
						}
						l = append(l, s)
					}
					e.Sends = append(e.Sends, l)
				}
				e.Reads = -1
				if faults && rapid.IntRange(0, 2).Draw(t, "stops") == 0 {
					e.Reads = rapid.IntRange(0, 10).Draw(t, "reads")
				}
				e.RWait, e.RGap = pick(t, "rwait", 0, 0, 2000), pick(t, "rgap", 0, 0, 300)
				e.Half = !faults || rapid.Bool().Draw(t, "half")
				if faults {
					for range rapid.IntRange(0, 4).Draw(t, "nacts") {
						e.Acts = append(e.Acts, c24Act{What: pick(t, "what", "half", "half", "close", "close", "send", "recv", "bad"), At: rapid.IntRange(0, 3000).Draw(t, "at")})
					}
				}
			}
			if faults && rapid.IntRange(0, 4).Draw(t, "c") == 0 {
				c.Cancel = rapid.IntRange(1, 3000).Draw(t, "cancel")
			}
			return c
		},
		Run: func(t *testing.T, c c24Case, in *vt.Info) error {
			return bubble(t, c.Sched, false, func() error { return runC24(c, in) })
		},
	})
}

func runC24(c c24Case, in *vt.Info) error {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var strm [2]srpc.Stream
	strm[0], strm[1] = srpc.NewPipeStream(ctx)
	var mu sync.Mutex
	var es errs
	const never = int64(1) << 60
	begin := time.Now()
	now := func() int64 { return int64(time.Since(begin)) }
	type ev struct {
		b    string
		s, e int64
		err  error
	}
	type side struct {
		sends  []ev // in the order of their return
		recvs  []ev
		halfS  int64 // first call of CloseSend or Close
		halfE  int64 // first return of them
		closeS int64
		closeE int64
		extraR bool // other receivers took messages
		pend   int  // operations that have not returned
	}
	var sd [2]side
	for k := range sd {
		sd[k].halfS, sd[k].halfE, sd[k].closeS, sd[k].closeE = never, never, never, never
	}
	cancelS, cancelE := never, never
	doSend := func(k int, b []byte) error {
		s := now()
		mu.Lock()
		sd[k].pend++
		mu.Unlock()
		err := send(strm[k], b)
		mu.Lock()
		sd[k].pend--
		sd[k].sends = append(sd[k].sends, ev{string(b), s, now(), err})
		mu.Unlock()
		return err
	}
	doRecv := func(k int) error {
		s := now()
		mu.Lock()
		sd[k].pend++
		mu.Unlock()
		b, err := recv(strm[k])
		mu.Lock()
		sd[k].pend--
		sd[k].recvs = append(sd[k].recvs, ev{string(b), s, now(), err})
		mu.Unlock()
		return err
	}
	doHalf := func(k int) {
		mu.Lock()
		sd[k].halfS = min(sd[k].halfS, now())
		mu.Unlock()
		if err := strm[k].CloseSend(); err != nil {
			es.add(fmt.Errorf("CloseSend: %w", err))
		}
		mu.Lock()
		sd[k].halfE = min(sd[k].halfE, now())
		mu.Unlock()
	}
	doClose := func(k int) {
		mu.Lock()
		sd[k].halfS, sd[k].closeS = min(sd[k].halfS, now()), min(sd[k].closeS, now())
		mu.Unlock()
		if err := strm[k].Close(); err != nil {
			es.add(fmt.Errorf("Close: %w", err))
		}
		mu.Lock()
		sd[k].halfE, sd[k].closeE = min(sd[k].halfE, now()), min(sd[k].closeE, now())
		mu.Unlock()
	}
	var wg sync.WaitGroup
	guard := func(f func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					es.add(fmt.Errorf("panic: %v", r))
				}
			}()
			f()
		}()
	}
	acts := false
	for k := range c.E {
		e := c.E[k]
		var sw sync.WaitGroup
		for _, l := range e.Sends {
			sw.Add(1)
			guard(func() {
				defer sw.Done()
				for _, s := range l {
					sleepUs(s.D)
					if doSend(k, s.M.Bytes()) != nil {
						return
					}
				}
			})
		}
		if e.Half {
			guard(func() { sw.Wait(); doHalf(k) })
		}
		guard(func() {
			sleepUs(e.RWait)
			for i := 0; e.Reads < 0 || i < e.Reads; i++ {
				if doRecv(k) != nil {
					_ = doRecv(k)
					return
				}
				sleepUs(e.RGap)
			}
		})
		for _, a := range e.Acts {
			acts = true
			in.Label("act:" + a.What)
			guard(func() {
				sleepUs(a.At)
				switch a.What {
				case "half":
					doHalf(k)
				case "close":
					doClose(k)
				case "send":
					_ = doSend(k, []byte{9, 9})
				case "bad":
					// fails and sends nothing.
					if err := strm[k].MsgSend(badMsg{raw([]byte{8, 8})}); err == nil {
						es.add(errors.New("sending a message that cannot be marshalled succeeded"))
					}
				case "recv":
					mu.Lock()
					sd[k].extraR = true
					mu.Unlock()
					_ = doRecv(k)
				}
			})
		}
	}
	if c.Cancel > 0 {
		in.Label("context cancelled")
		guard(func() {
			sleepUs(c.Cancel)
			mu.Lock()
			cancelS = now()
			mu.Unlock()
			cancel()
			mu.Lock()
			cancelE = now()
			mu.Unlock()
		})
	}
	time.Sleep(time.Minute)
	synctest.Wait()
	// an end which was closed or cancelled has no pending operations.
	stop := [2]bool{}
	allDone := false
	d := done(wg.Wait)
	synctest.Wait()
	select {
	case <-d:
		allDone = true
	default:
	}
	if !acts && c.Cancel == 0 && c.E[0].Half && c.E[1].Half && c.E[0].Reads < 0 && c.E[1].Reads < 0 && !allDone {
		return fmt.Errorf("both ends half-close and read to the end, but an operation did not return%s", vt.Stacks())
	}
	mid := now()
	for k := range strm {
		stop[k] = sd[k].closeE < mid || cancelE < mid
		mu.Lock()
		pend := sd[k].pend
		mu.Unlock()
		if stop[k] && pend > 0 {
			return fmt.Errorf("end %d was closed or cancelled, %d of its operations did not return%s", k, pend, vt.Stacks())
		}
		if stop[k] && strm[k].Context().Err() == nil {
			return fmt.Errorf("end %d was closed or cancelled, its context is alive", k)
		}
		if !stop[k] && strm[k].Context().Err() != nil {
			return fmt.Errorf("the context of end %d is dead", k)
		}
	}
	mu.Lock()
	for k := range sd {
		for _, e := range sd[k].sends {
			if e.s > sd[k].halfE && e.err == nil {
				mu.Unlock()
				return fmt.Errorf("a send after closing the send side of end %d succeeded", k)
			}
			if e.s > cancelE && e.err == nil {
				mu.Unlock()
				return fmt.Errorf("a send after cancelling succeeded")
			}
			if e.err != nil && e.e < min(sd[k].halfS, cancelS, sd[1-k].closeS) {
				mu.Unlock()
				return fmt.Errorf("a send failed with %v although nothing was closed", e.err)
			}
		}
		// what arrived is what was sent.
		var got, sent []string
		ended := false
		for _, e := range sd[k].recvs {
			switch {
			case e.err == nil:
				got = append(got, e.b)
				if e.s > min(sd[k].closeE, cancelE)+int64(time.Second) {
					mu.Unlock()
					return fmt.Errorf("end %d received long after it was closed", k)
				}
			case e.err == io.EOF:
				ended = true
				if e.e < sd[1-k].halfS {
					mu.Unlock()
					return fmt.Errorf("end %d received the end before the other end closed", k)
				}
			case e.e < min(sd[k].closeS, cancelS):
				mu.Unlock()
				return fmt.Errorf("end %d: receiving failed with %v", k, e.err)
			}
		}
		for _, e := range sd[1-k].sends {
			if e.err == nil {
				sent = append(sent, e.b)
			}
		}
		what := fmt.Sprintf("end %d sent %q, end %d received %q (%v)", 1-k, sent, k, got, ended)
		single := len(c.E[1-k].Sends) <= 1 && !sd[k].extraR
		for _, a := range c.E[1-k].Acts {
			single = single && a.What != "send"
		}
		if single {
			if len(got) > len(sent) {
				mu.Unlock()
				return errors.New(what)
			}
			for i := range got {
				if got[i] != sent[i] {
					mu.Unlock()
					return errors.New(what)
				}
			}
		} else {
			// by message: nothing twice, nothing else.
			cnt := map[string]int{}
			for _, b := range sent {
				cnt[b]++
			}
			for _, b := range got {
				if cnt[b]--; cnt[b] < 0 {
					mu.Unlock()
					return errors.New(what)
				}
			}
		}
		if ended && len(got) != len(sent) {
			mu.Unlock()
			return errors.New("at the end: " + what)
		}
		if c.E[k].Reads < 0 && min(sd[k].closeS, cancelS) == never && sd[1-k].halfE < never && !ended {
			mu.Unlock()
			return errors.New("no end: " + what)
		}
	}
	in.NonTrivial = len(sd[0].sends) > 0 && len(sd[1].sends) > 0 || (acts || c.Cancel > 0) && len(sd[0].sends)+len(sd[1].sends) > 0
	mu.Unlock()
	in.LabelIf(!allDone, "operations pending until closed")
	in.LabelIf(c.Sched.Prob > 0, "schedule perturbed")
	if !allDone && stop[0] && stop[1] {
		return fmt.Errorf("both ends are closed or cancelled, but an operation did not return%s", vt.Stacks())
	}
	for k := range strm {
		doClose(k)
		doClose(k)
		if err := doSend(k, []byte{1}); err == nil {
			return errors.New("a send after Close succeeded")
		}
	}
	if err := vt.Await("the return of all operations after closing both ends", d); err != nil {
		return err
	}
	return es.get()
}
