package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
	"pgregory.net/rapid"
	"verif/harness/sched"
	"verif/harness/vt"
	"verif/harness/wire"
)

// idler is a reader which sometimes returns no byte and no error.
type idler struct {
	*wire.Conn
	n, every int
}

func (i *idler) Read(p []byte) (int, error) {
	if i.every > 0 {
		if i.n++; i.n%i.every == 0 {
			return 0, nil
		}
	}
	return i.Conn.Read(p)
}

type c16Dir struct {
	W     []Msg  `json:"w"`
	WGap  int    `json:"wgap,omitempty"`
	Reads []int  `json:"reads"`
	RGap  int    `json:"rgap,omitempty"`
	RWait int    `json:"rwait,omitempty"`
	End   string `json:"end,omitempty"`  // "": EOF
	Fail  int    `json:"fail,omitempty"` // writing fails after this many bytes (0: not)
}

type c16Bytes struct {
	Out, In wire.Plan
	Sched   sched.Config `json:"sched"`
	A, B    c16Dir       // A: written by the first end
	BufN    int          `json:"bufn"`
	Idle    int          `json:"idle,omitempty"`
}

func TestC16_Bytes(t *testing.T) {
	vt.Check(t, vt.Prop[c16Bytes]{
		Rule:  "two connection adapters (packet buffers of 0-20) over the ends of a byte pipe with drawn chunking, short writes, reads of nothing, delays, ends (EOF or error, with or without the last bytes) and write failures at a byte count; both ends write 0-15 buffers and read to the end with drawn sizes and pauses; bytes, counts and ends compared; non-trivial: at least 3 reads smaller than the data in a direction with chunking, short writes or sizes over 2048",
		Quick: 20000, Thorough: 600000,
		Gen: func(t *rapid.T) c16Bytes {
			c := c16Bytes{BufN: pick(t, "bufn", 0, 1, 2, 10, 20), Idle: pick(t, "idle", 0, 0, 2, 5), Sched: genSched(t)}
			mx := 0
			dir := func(l string) c16Dir {
				var d c16Dir
				tot := 0
				for range rapid.IntRange(0, 15).Draw(t, l+"n") {
					m := genMsg(t, false, l)
					tot += m.Len()
					d.W = append(d.W, m)
				}
				mx = max(mx, tot)
				for range rapid.IntRange(1, 4).Draw(t, l+"nr") {
					d.Reads = append(d.Reads, max(tot/200, pick(t, l+"r", 1, 1, 2, 3, 10, 100, 2047, 2048, 2049, 5000, 20000)))
				}
				d.WGap = pick(t, l+"wgap", 0, 0, 300)
				d.RGap = pick(t, l+"rgap", 0, 0, 300)
				d.RWait = pick(t, l+"rwait", 0, 0, 10000)
				switch rapid.IntRange(0, 5).Draw(t, l+"e") {
				case 0, 1:
					d.End = genErrText(t, l+"end")
				case 2:
					d.Fail = rapid.IntRange(1, 1+tot).Draw(t, l+"fail")
				}
				return d
			}
			c.A, c.B = dir("a"), dir("b")
			plan := func(l string) wire.Plan {
				p := genPlan(t, mx, l)
				p.EOFWithData = rapid.Bool().Draw(t, l+"eofd")
				if rapid.Bool().Draw(t, l+"short") {
					p.Short = max(mx/64, pick(t, l+"sh", 1, 5, 50, 1000))
				}
				return p
			}
			c.Out, c.In = plan("out"), plan("in")
			return c
		},
		Run: func(t *testing.T, c c16Bytes, in *vt.Info) error {
			return bubble(t, c.Sched, false, func() error { return runC16Bytes(c, in) })
		},
	})
}

func runC16Bytes(c c16Bytes, in *vt.Info) error {
	a, b := wire.Pipe(c.Out, c.In)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if c.A.Fail > 0 {
		a.FailAfterSoft(int64(c.A.Fail), errCut)
	}
	if c.B.Fail > 0 {
		b.FailAfterSoft(int64(c.B.Fail), errCut)
	}
	ca := srpc.NewRwcConn(ctx, &idler{Conn: a, every: c.Idle}, nil, nil, c.BufN)
	cb := srpc.NewRwcConn(ctx, &idler{Conn: b, every: c.Idle}, nil, nil, c.BufN)
	var es errs
	var nontriv atomic.Bool
	var wg sync.WaitGroup
	run := func(name string, d c16Dir, plan wire.Plan, w, r net.Conn, raw *wire.Conn) {
		var accepted []byte
		failed := false
		wd := make(chan struct{})
		wg.Add(2)
		go func() {
			defer wg.Done()
			defer close(wd)
			for i, m := range d.W {
				sleepUs(d.WGap)
				buf := m.Bytes()
				n, err := w.Write(buf)
				if n < 0 || n > len(buf) || (err == nil && n != len(buf)) {
					es.add(fmt.Errorf("%s: write %d of %d bytes returned %d, %v", name, i, len(buf), n, err))
					return
				}
				if !bytes.Equal(buf, m.Bytes()) {
					es.add(fmt.Errorf("%s: write %d changed its buffer", name, i))
				}
				accepted = append(accepted, buf[:n]...)
				for j := range buf {
					buf[j] ^= 0x5a
				}
				if err != nil {
					if d.Fail == 0 {
						es.add(fmt.Errorf("%s: write %d failed: %w", name, i, err))
					} else if err != wire.ErrReset {
						es.add(fmt.Errorf("%s: write %d reported %v, the stream failed with %v", name, i, err, wire.ErrReset))
					}
					failed = true
					break
				}
			}
			if failed {
				return // the pipe ends by itself
			}
			if d.End != "" {
				raw.EndWith(errors.New(d.End))
			} else {
				raw.EndWith(io.EOF)
			}
		}()
		go func() {
			defer wg.Done()
			var got []byte
			var end error
			sleepUs(d.RWait)
			for i := 0; end == nil; i++ {
				sleepUs(d.RGap)
				n := d.Reads[i%len(d.Reads)]
				buf := bytes.Repeat([]byte{0xcc}, n+2)
				k, err := r.Read(buf[:n:n])
				if k < 0 || k > n || buf[n] != 0xcc || buf[n+1] != 0xcc {
					es.add(fmt.Errorf("%s: Read of %d bytes returned %d", name, n, k))
					return
				}
				got = append(got, buf[:k]...)
				end = err
				if i > 100000 {
					es.add(fmt.Errorf("%s: no end of reads", name))
					return
				}
			}
			_, again := r.Read(make([]byte, 8))
			<-wd
			if !bytes.Equal(got, accepted) {
				es.add(fmt.Errorf("%s: wrote %s, read %s, then %v", name, show(accepted), show(got), end))
				return
			}
			want := io.EOF
			if d.End != "" {
				want = errors.New(d.End)
			}
			if failed {
				want = errCut
			}
			if errText(end) != errText(want) || (want == io.EOF && end != io.EOF) {
				es.add(fmt.Errorf("%s: reading ended with %q, want %q", name, errText(end), errText(want)))
			} else if errText(again) != errText(want) {
				es.add(fmt.Errorf("%s: reading ended with %q, and then with %q", name, errText(end), errText(again)))
			}
			if len(d.Reads) > 0 && len(got)/d.Reads[0] >= 3 && (plan.Chunk > 0 || plan.Short > 0 || len(got) > 2048) {
				nontriv.Store(true)
			}
		}()
	}
	run("first to second", c.A, c.Out, ca, cb, a)
	run("second to first", c.B, c.In, cb, ca, b)
	if err := vt.AwaitFor("the end of all reads and writes", done(wg.Wait), 10*time.Hour); err != nil {
		return errors.Join(es.get(), err)
	}
	in.NonTrivial = nontriv.Load()
	in.LabelIf(c.Out.Short > 0 || c.In.Short > 0, "short writes")
	in.LabelIf(c.A.Fail > 0 || c.B.Fail > 0, "write failure")
	in.LabelIf(c.Idle > 0, "reads of nothing")
	in.LabelIf(c.A.End != "" || c.B.End != "", "ends with an error")
	if err := es.get(); err != nil {
		return err
	}
	_, _ = ca.Close(), cb.Close()
	if a.Closes() == 0 || b.Closes() == 0 {
		return errors.New("closing the connection did not close the underlying stream")
	}
	return nil
}

type c16Set struct {
	At   int    `json:"at"`
	What string `json:"what"` // read, both, write, clear, clearboth
	D    int    `json:"d"`    // relative to the time of the call
}

type c16Dl struct {
	Sched  sched.Config `json:"sched"`
	Arr    []int        `json:"arr"`  // times of arrival of chunks
	Size   int          `json:"size"` // and their size
	End    int          `json:"end,omitempty"`
	Stop   string       `json:"stop,omitempty"` // close, cancel: at StopAt
	StopAt int          `json:"stopat,omitempty"`
	Sets   []c16Set     `json:"sets"`
	Reads  []int        `json:"reads"`
	Gaps   []int        `json:"gaps"`
	BufN   int          `json:"bufn"`
}

func TestC16_Deadlines(t *testing.T) {
	vt.Check(t, vt.Prop[c16Dl]{
		Rule:  "a connection adapter over a pipe on which 0-10 chunks arrive at drawn times, read by one reader with drawn sizes and pauses, while read, write and both deadlines are set to past and future times and cleared, and the stream ends or the connection is closed or its context cancelled at a drawn time; the time and result of each read is checked (virtual time: exactly, unless the schedule is perturbed); non-trivial: a read failed on its deadline while it was waiting, or was unblocked by closing",
		Quick: 30000, Thorough: 900000,
		Gen: func(t *rapid.T) c16Dl {
			c := c16Dl{Size: pick(t, "size", 1, 5, 100, 1000), BufN: pick(t, "bufn", 0, 1, 10)}
			if rapid.IntRange(0, 2).Draw(t, "perturb") == 0 {
				c.Sched = genSched(t)
			}
			at := 0
			for range rapid.IntRange(0, 10).Draw(t, "narr") {
				at += rapid.IntRange(0, 300).Draw(t, "gap") * 10
				c.Arr = append(c.Arr, at+1)
			}
			last := at
			at = 0
			for range rapid.IntRange(0, 8).Draw(t, "nset") {
				at += rapid.IntRange(0, 300).Draw(t, "sgap") * 10
				c.Sets = append(c.Sets, c16Set{At: at + 3, What: pick(t, "what", "read", "read", "read", "both", "both", "write", "clear", "clearboth"), D: rapid.IntRange(-50, 400).Draw(t, "d")*10 + 2})
			}
			last = max(last, at)
			switch rapid.IntRange(0, 3).Draw(t, "stop") {
			case 0:
				c.Stop, c.StopAt = pick(t, "how", "close", "cancel"), rapid.IntRange(0, 400).Draw(t, "stopat")*10+7
			default:
				c.End = last + rapid.IntRange(0, 200).Draw(t, "end")*10 + 9
			}
			if c.Stop == "" || rapid.Bool().Draw(t, "lastclear") {
				c.Sets = append(c.Sets, c16Set{At: last + 5000 + 3, What: "clearboth"})
			}
			for range rapid.IntRange(1, 3).Draw(t, "nr") {
				c.Reads = append(c.Reads, pick(t, "r", 1, 3, 50, 1000, 5000, 5000))
			}
			for range rapid.IntRange(1, 4).Draw(t, "ng") {
				c.Gaps = append(c.Gaps, pick(t, "g", 0, 0, 100, 1000, 3000))
			}
			for i := range c.Reads {
				c.Reads[i] = max(c.Reads[i], c.Size/20)
			}
			return c
		},
		Run: func(t *testing.T, c c16Dl, in *vt.Info) error {
			return bubble(t, c.Sched, false, func() error { return runC16Dl(c, in) })
		},
	})
}

func runC16Dl(c c16Dl, in *vt.Info) error {
	a, b := wire.Pipe(wire.Plan{}, wire.Plan{})
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	conn := srpc.NewRwcConn(ctx, b, nil, nil, c.BufN)
	begin := time.Now()
	now := func() int64 { return int64(time.Since(begin) / time.Microsecond) }
	at := func(us int) { time.Sleep(time.Duration(us)*time.Microsecond - time.Since(begin)) }
	const never = int64(1) << 60

	type setEv struct{ s, e, d int64 }
	type readEv struct {
		s, t   int64
		n, off int
		err    error
	}
	var mu sync.Mutex
	var arr []int64 // time of arrival of each chunk (after the write)
	sets := []setEv{{-1, -1, never}}
	var reads []readEv
	endAt, stopAt := never, never
	var wg sync.WaitGroup
	wg.Add(3)
	var data []byte
	for i := range c.Arr {
		data = append(data, Msg{N: c.Size, S: uint64(i + 1)}.Bytes()...)
	}
	go func() {
		defer wg.Done()
		for i, x := range c.Arr {
			at(x)
			mu.Lock()
			arr = append(arr, now())
			mu.Unlock()
			_, _ = a.Write(data[i*c.Size : (i+1)*c.Size])
		}
		if c.End > 0 {
			at(c.End)
			mu.Lock()
			endAt = now()
			mu.Unlock()
			a.EndWith(errCut)
		}
	}()
	go func() {
		defer wg.Done()
		for _, s := range c.Sets {
			at(s.At)
			ev := setEv{s: now(), d: never}
			when := time.Time{}
			if s.What == "read" || s.What == "both" {
				ev.d = ev.s + int64(s.D)
				when = begin.Add(time.Duration(ev.d) * time.Microsecond)
			}
			// known from before the call on.
			ev.e = never
			if s.What != "write" {
				mu.Lock()
				sets = append(sets, ev)
				mu.Unlock()
			}
			var err error
			switch s.What {
			case "read", "clear":
				err = conn.SetReadDeadline(when)
			case "both", "clearboth":
				err = conn.SetDeadline(when)
			case "write":
				err = conn.SetWriteDeadline(begin.Add(time.Duration(ev.s+int64(s.D)) * time.Microsecond))
			}
			if err != nil {
				mu.Lock()
				reads = append(reads, readEv{err: fmt.Errorf("setting a deadline: %w", err), s: -1})
				mu.Unlock()
			}
			if s.What != "write" {
				mu.Lock()
				sets[len(sets)-1].e = now()
				mu.Unlock()
			}
		}
	}()
	stopped := make(chan struct{})
	go func() {
		defer wg.Done()
		if c.Stop == "" {
			return
		}
		at(c.StopAt)
		mu.Lock()
		stopAt = now()
		mu.Unlock()
		if c.Stop == "close" {
			_ = conn.Close()
		} else {
			cancel()
		}
		close(stopped)
	}()
	rd := done(func() {
		off := 0
		for i := 0; ; i++ {
			sleepUs(c.Gaps[i%len(c.Gaps)])
			buf := make([]byte, c.Reads[i%len(c.Reads)])
			s := now()
			n, err := conn.Read(buf)
			ev := readEv{s: s, t: now(), n: n, off: off, err: err}
			if n < 0 || n > len(buf) || off+n > len(data) || !bytes.Equal(buf[:n], data[off:off+n]) {
				ev.err = fmt.Errorf("read %d bytes %s at offset %d: not what was written", n, show(buf[:max(0, n)]), off)
				ev.s = -1
				err = ev.err
			}
			off += n
			mu.Lock()
			reads = append(reads, ev)
			mu.Unlock()
			if err != nil && !errors.Is(err, os.ErrDeadlineExceeded) {
				return
			}
			if err != nil {
				select {
				case <-stopped:
					return
				default:
				}
				sleepUs(500)
			}
		}
	})
	if err := vt.Await("the end of the reads", rd); err != nil {
		return err
	}
	if err := vt.Await("the end of the other goroutines", done(wg.Wait)); err != nil {
		return err
	}
	exact := c.Sched.Prob == 0
	// no packet is ever partly read if all reads take all.
	whole := true
	for _, r := range c.Reads {
		whole = whole && r >= c.Size*max(1, len(c.Arr))
	}
	for i, r := range reads {
		if r.s < 0 {
			return r.err
		}
		where := fmt.Sprintf("read %d (at offset %d, from %d to %d us) returned %d, %v", i, r.off, r.s, r.t, r.n, r.err)
		if r.n == 0 && r.err == nil {
			return errors.New(where)
		}
		// what the read may report
		switch {
		case r.err == nil:
		case errors.Is(r.err, os.ErrDeadlineExceeded):
			ok := false
			for k, s := range sets {
				until := never
				if k+1 < len(sets) {
					until = sets[k+1].e
				}
				ok = ok || (s.s <= r.t && until >= r.s && s.d <= r.t)
			}
			if !ok {
				return fmt.Errorf("%s, but no deadline had passed (deadlines %v)", where, sets)
			}
			if te, ok := r.err.(net.Error); ok && !te.Timeout() {
				return fmt.Errorf("%s: Timeout() is false", where)
			}
			if r.t > r.s {
				in.Label("deadline passed while waiting")
				in.NonTrivial = true
			} else {
				in.Label("deadline had passed")
			}
		default:
			ended := errText(r.err) == errCut.Error() && endAt <= r.t && r.off == len(data)
			if !ended && stopAt > r.t {
				return fmt.Errorf("%s, before the end (%d of %d bytes)", where, r.off, len(data))
			}
			if stopAt <= r.t && r.t > r.s {
				in.Label("unblocked by " + c.Stop)
				in.NonTrivial = true
			}
		}
		// a deadline in force must have failed it
		for k, s := range sets {
			until := never
			if k+1 < len(sets) {
				until = sets[k+1].s
			}
			e := max(s.e, s.d)
			if e >= until {
				continue // replaced before
			}
			if x := max(e, r.s); exact && x < until && x < r.t {
				return fmt.Errorf("%s: it waited although the deadline %d (set at %d) had passed", where, s.d, s.s)
			}
			if whole && e < r.s && until > r.t && r.n > 0 {
				return fmt.Errorf("%s although its deadline %d (set at %d) had passed before", where, s.d, s.s)
			}
		}
		if !exact {
			continue
		}
		// it must not wait if there are data, the end, or a stop.
		ready := min(stopAt, endAt)
		if k := r.off / c.Size; k < len(c.Arr) && k < len(arr) {
			ready = min(ready, arr[k])
		}
		if max(ready, r.s) < r.t {
			return fmt.Errorf("%s although it could have at %d", where, max(ready, r.s))
		}
	}
	if l := reads[len(reads)-1]; c.Stop == "" && l.off != len(data) {
		return fmt.Errorf("only %d of %d bytes were read before the end", l.off, len(data))
	}
	in.LabelIf(!exact, "schedule perturbed")
	// a closed connection
	_ = conn.Close()
	if b.Closes() == 0 {
		return errors.New("closing the connection did not close the underlying stream")
	}
	if _, err := conn.Write([]byte{1}); err == nil {
		return errors.New("a write after closing succeeded")
	}
	return nil
}

func TestC16_Calls(t *testing.T) {
	vt.Check(t, vt.Prop[streamCase]{
		Rule:  "1-4 streaming calls multiplexed over connection adapters (NewMuxedConnWithRwc) over a byte pipe with drawn chunking, short writes, delays and schedule, one in six cut at a drawn time; non-trivial: messages both ways and chunking, short writes or messages over 2048 bytes",
		Quick: 5000, Thorough: 120000,
		Gen: func(t *rapid.T) streamCase {
			var c streamCase
			big := maybeBig(t)
			m := 0
			for range pick(t, "ncalls", 1, 1, 2, 4) {
				s := genSCall(t, big)
				m = max(m, s.maxMsg())
				c.Calls = append(c.Calls, s)
			}
			c.T = genTCfg(t, m, "rwc")
			if rapid.IntRange(0, 5).Draw(t, "doCut") == 0 {
				c.Cut = pick(t, "cut", 1, 50, 400, 3000, 20000)
			}
			return c
		},
		Run: func(t *testing.T, c streamCase, in *vt.Info) error {
			err := bubble(t, c.T.Sched, false, func() error {
				if c.Cut > 0 {
					return runStreams(c.T, c.Calls, func(w *World, recs []*sRec) error {
						sleepUs(c.Cut)
						w.Cut(errCut)
						return nil
					}, func(i int, r *sRec, s *sCall) error { return r.checkPrefix(s) })
				}
				return runStreams(c.T, c.Calls, nil, func(i int, r *sRec, s *sCall) error {
					if err := r.checkMsgs(s); err != nil {
						return err
					}
					return r.checkEnds(s)
				})
			})
			streamLabels(in, c.T, c.Calls)
			in.LabelIf(c.Cut > 0, "cut short")
			for _, s := range c.Calls {
				if len(s.csent()) > 0 && len(s.SSends) > 0 && (c.T.Out.Short > 0 || c.T.Out.Chunk > 0 || s.maxMsg() > 2048) {
					in.NonTrivial = true
				}
			}
			return err
		},
	})
}
