package props

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"sync"
	"testing"

	"github.com/aperturerobotics/starpc/srpc"
	"pgregory.net/rapid"
	"verif/harness/sched"
	"verif/harness/vt"
	"verif/harness/wire"
)

// maxFrame is the largest frame of the protocol.
const maxFrame = 10_000_000

// refFrames splits a byte stream into frames. bad says that it has a frame
// header with a length that is not allowed.
func refFrames(b []byte) (frames [][]byte, bad bool) {
	for len(b) >= 4 {
		n := int(binary.LittleEndian.Uint32(b))
		if n == 0 || n > maxFrame {
			return frames, true
		}
		if len(b) < 4+n {
			return frames, false
		}
		frames = append(frames, b[4:4+n])
		b = b[4+n:]
	}
	return frames, false
}

type c08Read struct {
	Pkts  []Msg  `json:"pkts"`            // contents of the frames (empty: a frame of length zero)
	Tail  []byte `json:"tail,omitempty"`  // bytes after the frames
	Over  uint32 `json:"over,omitempty"`  // then a header with this length
	Cut   int    `json:"cut,omitempty"`   // bytes missing at the end
	Reads []int  `json:"reads,omitempty"` // sizes of the reads, repeated (0: an empty read)
	End   string `json:"end"`             // eof, error, canceled, unexpected
	With  bool   `json:"with,omitempty"`  // the end comes together with the last bytes
	HErr  int    `json:"herr,omitempty"`  // the handler fails at this frame (1..)
	Pump  bool   `json:"pump,omitempty"`
}

// chunkReader reads in the chunks of the plan.
type chunkReader struct {
	b     []byte
	reads []int
	i     int
	end   error
	with  bool
	nread int
}

func (r *chunkReader) Read(p []byte) (int, error) {
	r.nread++
	if len(r.b) == 0 {
		return 0, r.end
	}
	n := len(p)
	if len(r.reads) > 0 {
		n = min(n, r.reads[r.i%len(r.reads)])
		r.i++
	}
	n = copy(p[:n], r.b)
	r.b = r.b[n:]
	if len(r.b) == 0 && r.with {
		return n, r.end
	}
	return n, nil
}
func (r *chunkReader) Write(p []byte) (int, error) { return len(p), nil }
func (r *chunkReader) Close() error                { return nil }

var endErrs = map[string]error{"eof": io.EOF, "error": errors.New("transport broke"), "canceled": context.Canceled, "unexpected": io.ErrUnexpectedEOF}

func TestC08_Read(t *testing.T) {
	vt.Check(t, vt.Prop[c08Read]{
		Rule:  "0-8 frames (now and then one of exactly 10,000,000 bytes), possibly a zero length, an oversized length, trailing bytes or a truncation, read in drawn chunks (also empty reads and an end that comes with data); compared with a reference framing; non-trivial: a frame is split over reads, or frames share a read, or the stream is cut or malformed",
		Quick: 80000, Thorough: 1500000,
		Gen: func(t *rapid.T) c08Read {
			var c c08Read
			for range pick(t, "n", 0, 1, 1, 2, 3, 5, 8) {
				m := genMsg(t, false, "pkt")
				if m.Len() == 0 && rapid.IntRange(0, 3).Draw(t, "zero") != 0 {
					m = Msg{L: []byte{1}}
				}
				c.Pkts = append(c.Pkts, m)
			}
			if rare(t, "huge", 512) {
				c.Pkts = append(c.Pkts, Msg{N: maxFrame, S: 1}, Msg{L: []byte{9}})
			}
			switch rapid.IntRange(0, 5).Draw(t, "tail") {
			case 0:
				c.Tail = rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "tailb")
			case 1:
				c.Over = pick[uint32](t, "over", maxFrame+1, 1<<24, 1<<31, 1<<32-1, 1<<31-1, 1<<32-4, 1<<32-5)
				c.Tail = rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "tailb")
			case 2:
				c.Cut = rapid.IntRange(0, 40).Draw(t, "cut")
			}
			c.Reads = rapid.SliceOfN(pickGen(1, 1, 2, 3, 4, 5, 7, 100, 2047, 2048, 5000, 0), 0, 6).Draw(t, "reads")
			c.End = pick(t, "end", "eof", "eof", "error", "canceled", "unexpected")
			c.With = rapid.Bool().Draw(t, "with")
			c.Pump = rapid.Bool().Draw(t, "pump")
			if rapid.IntRange(0, 5).Draw(t, "hasherr") == 0 {
				c.HErr = rapid.IntRange(1, 8).Draw(t, "herr")
			}
			return c
		},
		Run: runC08Read,
	})
}

func pickGen[T any](vs ...T) *rapid.Generator[T] { return rapid.SampledFrom(vs) }

func runC08Read(t *testing.T, c c08Read, in *vt.Info) error {
	var b []byte
	for _, p := range c.Pkts {
		d := p.Bytes()
		b = binary.LittleEndian.AppendUint32(b, uint32(len(d)))
		b = append(b, d...)
	}
	if c.Over > 0 {
		b = binary.LittleEndian.AppendUint32(b, c.Over)
	}
	b = append(b, c.Tail...)
	b = b[:max(0, len(b)-c.Cut)]
	want, bad := refFrames(b)
	allZero := len(c.Reads) > 0
	for _, r := range c.Reads {
		allZero = allZero && r == 0
	}
	if allZero {
		c.Reads = nil
	}
	in.NonTrivial = bad || c.Cut > 0 || len(c.Tail) > 0 || len(want) > 1 || len(c.Reads) > 0 && len(want) > 0
	in.LabelIf(bad, "malformed length")
	in.LabelIf(c.Cut > 0, "cut")
	in.LabelIf(c.With, "end with data")
	in.LabelIf(len(b) > maxFrame, "largest frame")
	r := &chunkReader{b: b, reads: c.Reads, end: endErrs[c.End], with: c.With}
	herr := errors.New("handler error")
	var got [][]byte
	prw := srpc.NewPacketReadWriter(r)
	cb := func(d []byte) error {
		got = append(got, bytes.Clone(d))
		if len(got) == c.HErr {
			return herr
		}
		return nil
	}
	var err error
	if c.Pump {
		n := 0
		prw.ReadPump(cb, func(e error) { n++; err = e })
		if n != 1 {
			return fmt.Errorf("the close handler was called %d times", n)
		}
	} else {
		err = prw.ReadToHandler(cb)
	}
	if c.HErr > 0 && c.HErr <= len(want) {
		want = want[:c.HErr]
		bad = false
		if !errors.Is(err, herr) {
			return fmt.Errorf("the handler failed, reading ended with %q", errText(err))
		}
		in.Label("handler error")
	} else if bad {
		if err == nil {
			return errors.New("reading a frame with a forbidden length ended without an error")
		}
	} else if e := endErrs[c.End]; e == io.EOF || e == context.Canceled {
		if err != nil {
			return fmt.Errorf("the stream ended with %q, reading ended with %q", e.Error(), err.Error())
		}
	} else if !errors.Is(err, e) {
		return fmt.Errorf("the stream ended with %q, reading ended with %q", e.Error(), errText(err))
	}
	if !sameMsgs(got, want) {
		return fmt.Errorf("delivered %s, want %s", showAll(got), showAll(want))
	}
	return nil
}

type c08Write struct {
	Writers [][]Msg      `json:"writers"` // data packets of each writer
	Plan    wire.Plan    `json:"plan"`
	Sched   sched.Config `json:"sched"`
	Fail    int          `json:"fail,omitempty"` // the stream breaks after this many bytes
	Raw     bool         `json:"raw,omitempty"`  // the first writer writes encoded frames
}

// c08Packet makes the j-th packet of writer i.
func c08Packet(i, j int, m Msg) *srpc.Packet {
	d := append([]byte{byte(i), byte(j)}, m.Bytes()...)
	switch j % 4 {
	case 0:
		return srpc.NewCallStartPacket(string(rune('a'+i)), fmt.Sprint(j), d, false)
	case 1:
		return srpc.NewCallDataPacket(d, false, true, errors.New("e"))
	default:
		return srpc.NewCallDataPacket(d, false, false, nil)
	}
}

func TestC08_Write(t *testing.T) {
	vt.Check(t, vt.Prop[c08Write]{
		Rule:  "1-4 goroutines write packets at once to a byte stream with short writes, delays, bounded buffering and possibly a break; the bytes are compared with a reference framing (every packet once, in each writer's order, whole frames only) and read back through the reader in chunks; non-trivial: at least two packets",
		Quick: 40000, Thorough: 800000,
		Gen: func(t *rapid.T) c08Write {
			var c c08Write
			m := 0
			for range pick(t, "nw", 1, 1, 2, 3, 4) {
				var w []Msg
				for range pick(t, "np", 0, 1, 2, 3, 6) {
					g := genMsg(t, rare(t, "big", 16), "pkt")
					m = max(m, g.Len())
					w = append(w, g)
				}
				c.Writers = append(c.Writers, w)
			}
			c.Plan = genPlan(t, m, "plan")
			c.Plan.Short = pick(t, "short", 0, 0, 1, 3, 4, 5, 10, 1000)
			if c.Plan.Short > 0 {
				c.Plan.Short = max(c.Plan.Short, m/256)
			}
			c.Plan.Cap = pick(t, "cap", 0, 0, 1, 10, 5000)
			if c.Plan.Cap > 0 {
				c.Plan.Cap = max(c.Plan.Cap, m/64)
			}
			c.Sched = genSched(t)
			if rapid.IntRange(0, 3).Draw(t, "hasFail") == 0 {
				c.Fail = rapid.IntRange(1, 500).Draw(t, "fail")
			}
			c.Raw = c.Plan.Short == 0 && rapid.IntRange(0, 4).Draw(t, "raw") == 0
			return c
		},
		Run: func(t *testing.T, c c08Write, in *vt.Info) error {
			n := 0
			for _, w := range c.Writers {
				n += len(w)
			}
			in.NonTrivial = n > 1
			in.LabelIf(c.Plan.Short > 0, "short writes")
			in.LabelIf(c.Plan.Cap > 0, "blocking writes")
			in.LabelIf(c.Fail > 0, "stream breaks")
			in.LabelIf(len(c.Writers) > 1, "concurrent writers")
			return bubble(t, c.Sched, true, func() error { return runC08Write(c) })
		},
	})
}

func runC08Write(c c08Write) error {
	a, b := wire.Pipe(c.Plan, wire.Plan{})
	prw := srpc.NewPacketReadWriter(a)
	if c.Fail > 0 {
		a.FailAfterSoft(int64(c.Fail), errCut)
	}
	// read everything through a reader, keeping the bytes.
	var all bytes.Buffer
	var got [][]byte
	rd := srpc.NewPacketReadWriter(&teeRW{b, &all})
	var rerr error
	rdone := done(func() {
		rerr = rd.ReadToHandler(func(d []byte) error { got = append(got, bytes.Clone(d)); return nil })
	})
	ok := make([]int, len(c.Writers)) // packets written without an error
	var wg sync.WaitGroup
	for i, w := range c.Writers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j, m := range w {
				p := c08Packet(i, j, m)
				var err error
				if c.Raw && i == 0 {
					_, err = prw.Write(frame(p))
				} else {
					err = prw.WritePacket(p)
				}
				if err != nil {
					return
				}
				ok[i]++
			}
		}()
	}
	if err := vt.Await("the end of the writers", done(wg.Wait)); err != nil {
		return err
	}
	_ = prw.Close()
	if err := vt.Await("the end of the reader", rdone); err != nil {
		return err
	}
	frames, bad := refFrames(all.Bytes())
	if bad {
		return fmt.Errorf("the bytes written have a frame with a forbidden length: %s", show(all.Bytes()))
	}
	if !sameMsgs(got, frames) {
		return fmt.Errorf("the bytes have frames %s, the reader delivered %s (%v)", showAll(frames), showAll(got), rerr)
	}
	total := 0
	next := make([]int, len(c.Writers))
	for k, f := range frames {
		total += 4 + len(f)
		p := &srpc.Packet{}
		if err := p.UnmarshalVT(f); err != nil {
			return fmt.Errorf("frame %d does not decode: %w", k, err)
		}
		d := p.GetCallData().GetData()
		if s := p.GetCallStart(); s != nil {
			d = s.GetData()
		}
		if len(d) < 2 || int(d[0]) >= len(c.Writers) {
			return fmt.Errorf("frame %d is none of those written", k)
		}
		i := int(d[0])
		if next[i] >= len(c.Writers[i]) || int(d[1]) != next[i] {
			return fmt.Errorf("frame %d is packet %d of writer %d, want packet %d", k, d[1], i, next[i])
		}
		if want := c08Packet(i, next[i], c.Writers[i][next[i]]); !p.EqualVT(want) {
			return fmt.Errorf("frame %d differs from packet %d of writer %d", k, next[i], i)
		}
		next[i]++
	}
	for i := range c.Writers {
		if next[i] < ok[i] {
			return fmt.Errorf("writer %d wrote %d packets without error, %d arrived", i, ok[i], next[i])
		}
		if c.Fail == 0 && ok[i] != len(c.Writers[i]) {
			return fmt.Errorf("writer %d failed at packet %d although the stream did not", i, ok[i])
		}
	}
	if c.Fail == 0 && total != all.Len() {
		return fmt.Errorf("%d bytes were written beyond the %d of the frames", all.Len()-total, total)
	}
	return nil
}

type teeRW struct {
	io.ReadWriteCloser
	w io.Writer
}

func (t *teeRW) Read(p []byte) (int, error) {
	n, err := t.ReadWriteCloser.Read(p)
	_, _ = t.w.Write(p[:n])
	return n, err
}
