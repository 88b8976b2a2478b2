package ts

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"slices"
	"strings"
	"testing"

	"github.com/aperturerobotics/starpc/echo"
	"github.com/aperturerobotics/starpc/srpc"
	"pgregory.net/rapid"
	"verif/harness/vt"
)

func frame(b []byte) []byte {
	return append(binary.LittleEndian.AppendUint32(nil, uint32(len(b))), b...)
}

type framingCase struct {
	Frames [][]byte   `json:"frames"`
	Lists  []int      `json:"lists"`
	Async  bool       `json:"async,omitempty"`
	Delays []int      `json:"delays,omitempty"`
	Nums   []uint32   `json:"nums"`
	Stream []byte     `json:"stream"`
	Tail   int        `json:"tail"` // bytes missing at the end of the stream
	Sizes  []int      `json:"sizes"`
	Groups [][]string `json:"groups"`
	Re     bool       `json:"regroup,omitempty"`
}

type framingRec struct {
	Enc  [][]byte `json:"enc"`
	Pre  [][]byte `json:"pre"`
	Nums [][]byte `json:"nums"`
	Back []uint32 `json:"back"`
	Dec  [][]byte `json:"dec"`
	End  string   `json:"end"`
	NEnc int      `json:"nenc"`
	Msgs []string `json:"msgs"`
	MErr string   `json:"merr"`
}

func TestC29_Framing(t *testing.T) {
	vt.Check(t, vt.Prop[framingCase]{
		Rule:  "lists of 0-8 frames (0 to 70000 bytes) encoded and decoded by the length prefix transforms, in chunks of drawn sizes, as arrays or lists of arrays, synchronous or with pauses, whole or cut short; numbers as prefixes; groups of messages through the message transforms; non-trivial: several frames or a cut",
		Quick: 40000, Thorough: 500000,
		Gen: func(t *rapid.T) framingCase {
			c := framingCase{
				Lists: rapid.SliceOfN(rapid.IntRange(0, 2), 0, 4).Draw(t, "lists"),
				Async: rapid.Bool().Draw(t, "async"),
				Nums:  rapid.SliceOfN(rapid.OneOf(rapid.Uint32(), rapid.SampledFrom([]uint32{0, 1, 255, 256, 65535, 65536, 1<<24 - 1, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1})), 1, 4).Draw(t, "nums"),
				Sizes: rapid.SliceOfN(rapid.SampledFrom([]int{1, 1, 2, 3, 4, 5, 7, 12, 40, 1000}), 0, 5).Draw(t, "sizes"),
				Re:    rapid.Bool().Draw(t, "regroup"),
			}
			if rapid.Bool().Draw(t, "slow") {
				c.Delays = []int{0, 1, 0, 0}
			}
			c.Frames = [][]byte{}
			for range rapid.IntRange(0, 8).Draw(t, "nframes") {
				b := []byte{}
				switch rapid.IntRange(0, 9).Draw(t, "fk") {
				case 0:
				case 1:
					b = bytes.Repeat([]byte{pick(t, "fill", byte(0), byte(1), byte(255))}, pick(t, "fn", 127, 128, 255, 256, 5000, 70000))
				default:
					b = rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(t, "f")
				}
				c.Frames = append(c.Frames, b)
				c.Stream = append(c.Stream, frame(b)...)
			}
			if len(c.Stream) > 3000 {
				for i := range c.Sizes {
					c.Sizes[i] = max(c.Sizes[i], 100)
				}
			}
			if rapid.IntRange(0, 3).Draw(t, "short") == 0 {
				c.Tail = rapid.IntRange(0, min(30, len(c.Stream))).Draw(t, "tail")
				c.Stream = c.Stream[:len(c.Stream)-c.Tail]
			}
			if c.Stream == nil {
				c.Stream = []byte{}
			}
			c.Groups = rapid.SliceOfN(rapid.SliceOfN(rapid.StringMatching(`[a-z]{0,3}`), 1, 3), 0, 4).Draw(t, "groups")
			return c
		},
		Run: func(t *testing.T, c framingCase, in *vt.Info) error {
			in.NonTrivial = len(c.Frames) > 1 || c.Tail > 0
			in.LabelIf(c.Tail > 0, "cut short")
			var rec framingRec
			if err := runEnd("framing", c, &rec); err != nil {
				return err
			}
			var want [][]byte
			n := 0
			for i, f := range c.Frames {
				if i >= len(rec.Enc) || !bytes.Equal(rec.Enc[i], frame(f)) {
					return fmt.Errorf("frame %d (%d bytes) is encoded as %.40x", i, len(f), rec.Enc)
				}
				if !bytes.Equal(rec.Pre[i], frame(f)) {
					return fmt.Errorf("prependPacketLen gave %.40x for %d bytes", rec.Pre[i], len(f))
				}
				if n += 4 + len(f); n <= len(c.Stream) {
					want = append(want, f)
				}
			}
			if len(rec.Enc) != len(c.Frames) {
				return fmt.Errorf("%d frames were encoded as %d", len(c.Frames), len(rec.Enc))
			}
			for i, v := range c.Nums {
				if !bytes.Equal(rec.Nums[i], binary.LittleEndian.AppendUint32(nil, v)) || rec.Back[i] != v {
					return fmt.Errorf("the number %d is encoded as %x, which is decoded as %d", v, rec.Nums[i], rec.Back[i])
				}
			}
			if !slices.EqualFunc(rec.Dec, want, bytes.Equal) {
				return fmt.Errorf("%d frames (%d bytes missing at the end) were decoded as %d: %.40x, then %s", len(c.Frames), c.Tail, len(rec.Dec), rec.Dec, rec.End)
			}
			if rec.End != "EOF" && c.Tail == 0 {
				return fmt.Errorf("decoding whole frames failed: %s", rec.End)
			}
			msgs := slices.Concat(c.Groups...)
			if rec.MErr != "" || rec.NEnc != len(msgs) || !slices.Equal(rec.Msgs, msgs) {
				return fmt.Errorf("the messages %q became %d encoded ones, then %q %s", msgs, rec.NEnc, rec.Msgs, rec.MErr)
			}
			return nil
		},
	})
}

// runEnd is run for cases which must end.
func runEnd(kind string, c, rec any) error {
	r, err := run(kind, c, rec)
	if r == nil {
		return err
	}
	errs := []error{err}
	if r.Hang {
		errs = append(errs, errors.New("the case never ends"))
	}
	if r.Error != "" {
		errs = append(errs, errors.New(r.Error))
	}
	return errors.Join(errs...)
}

// rawOp is a packet, or the end of the stream.
type rawOp struct {
	D    int    `json:"d"`
	P    []byte `json:"p,omitempty"`
	End  string `json:"end,omitempty"`
	Err  string `json:"err,omitempty"`
	What string `json:"what"`
	// of a packet
	Service  string `json:"service,omitempty"`
	Method   string `json:"method,omitempty"`
	Has      bool   `json:"has,omitempty"` // has a message
	Body     string `json:"body,omitempty"`
	Bad      bool   `json:"bad,omitempty"` // the message does not decode
	Complete bool   `json:"complete,omitempty"`
	Error    string `json:"error,omitempty"`
}

func must(b []byte, err error) []byte {
	if err != nil {
		panic(err)
	}
	return b
}

func (o *rawOp) data() (b []byte, zero bool) {
	if o.Bad {
		return []byte{0x0a, 0x05, 'x'}, false
	}
	if !o.Has {
		return nil, false
	}
	b = must((&echo.EchoMsg{Body: o.Body}).MarshalVT())
	return b, len(b) == 0
}

// encode makes the packet of the operation.
func (o *rawOp) encode(t *rapid.T) {
	b, zero := o.data()
	var p srpc.Packet
	switch o.What {
	case "start":
		p.Body = &srpc.Packet_CallStart{CallStart: &srpc.CallStart{RpcService: o.Service, RpcMethod: o.Method, Data: b, DataIsZero: zero}}
	case "data":
		p.Body = &srpc.Packet_CallData{CallData: &srpc.CallData{Data: b, DataIsZero: zero, Complete: o.Complete, Error: o.Error}}
	case "cancel":
		p.Body = &srpc.Packet_CallCancel{CallCancel: true}
	case "nocancel":
		o.P = []byte{0x18, 0x00}
		return
	case "unknown field":
		o.P = pick(t, "unknown", []byte{0x28, 0x01}, []byte{0x7a, 0x01, 0x41}, []byte{0xf8, 0x07, 0x96, 0x01})
		return
	case "garbage":
		o.P = pick(t, "garbage", []byte{0xff}, []byte{0x0a, 0x05, 'a'}, []byte{0x12, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01}, []byte{0x00, 0x00}, []byte{0x08, 0x01})
		return
	}
	o.P = must(p.MarshalVT())
	if o.P == nil {
		o.P = []byte{}
	}
}

func genRawOps(t *rapid.T, toServer bool) []rawOp {
	var ops []rawOp
	n := rapid.IntRange(1, 7).Draw(t, "nops")
	for i := range n {
		o := rawOp{D: pick(t, "d", 0, 1, 1, 1, 20)}
		if toServer && i == 0 {
			o.What = pick(t, "first", "start", "start", "start", "start", "start", "start", "start", "data", "cancel", "nocancel", "garbage", "unknown field", "end")
		} else {
			o.What = pick(t, "what", "data", "data", "data", "data", "data", "data", "start", "cancel", "nocancel", "unknown field", "garbage", "end", "cut")
		}
		switch o.What {
		case "start":
			o.Service = pick(t, "service", "svc", "svc", "svc", "svc", "svc", "svc", "svc", "", "other", "constructor", "__proto__", "toString")
			o.Method = pick(t, "method", "EchoBidiStream", "EchoBidiStream", "EchoBidiStream", "EchoBidiStream", "Echo", "Echo", "", "nope", "toString", "constructor", "__proto__", "EchoServerStream")
			if !toServer {
				o.Service, o.Method = pick(t, "cservice", "svc", ""), pick(t, "cmethod", "Echo", "")
			}
			o.Has = pick(t, "has", false, false, true)
		case "data":
			o.Has = pick(t, "dhas", true, true, true, false)
			if rapid.IntRange(0, 5).Draw(t, "final") == 0 {
				o.Complete = true
			}
			if rapid.IntRange(0, 9).Draw(t, "fails") == 0 {
				o.Error = pick(t, "error", "boom", "ERR_RPC_ABORT", "\u00e9")
				o.Complete = pick(t, "ecomplete", true, false)
			}
		case "end", "cut":
			o.End = o.What
			o.D = max(o.D, 1) // a cut overtakes
			o.Err = pick(t, "enderr", "", "", "link lost")
		}
		if o.Has {
			o.Body = pick(t, "body", "", "a", "b", "hello", string(make([]byte, 300)))
			if rapid.IntRange(0, 14).Draw(t, "bad") == 0 {
				o.Bad = true
			}
		}
		if o.End == "" {
			o.encode(t)
		}
		ops = append(ops, o)
		if o.End != "" {
			break
		}
	}
	return ops
}

type rawCase struct {
	Kind     string  `json:"kind,omitempty"`
	SendOpen bool    `json:"sendOpen,omitempty"`
	Lookup   int     `json:"lookup,omitempty"` // time the lookup of a method takes
	RGap     int     `json:"rgap,omitempty"`
	Finish   bool    `json:"finish"`
	Ops      []rawOp `json:"ops"`
}

type rawRec struct {
	Back   [][]byte `json:"back"`
	Over   string   `json:"over"`
	Closed string   `json:"closed"`
	Sunk   bool     `json:"sunk"`
	Runs   []struct {
		Name string   `json:"name"`
		Got  []string `json:"got"`
		End  string   `json:"end"`
	} `json:"runs"`
	After string   `json:"after"`
	Got   []string `json:"got"`
	End   *string  `json:"end"`
}

const anyErr = "any error"

// model is what the server makes of the packets.
type model struct {
	run   string   // the handler which runs
	got   []string // what it receives
	done  bool
	err   string // the error sent back, or ""
	cut   bool   // the answer may be lost
	raced bool   // a packet which ends the call arrived before others were handled
}

func (m *model) close(err string) { m.done, m.err = true, err }

func serverModel(ops []rawOp, lookup int) model {
	var m model
	now, busy, raced, hard := 0, -1, false, false
	started, over := false, false
	feed := func(o *rawOp) {
		if over || m.done || !o.Has {
			return
		}
		if o.Bad {
			m.close(anyErr)
			return
		}
		m.got = append(m.got, o.Body)
		if m.run == "" {
			m.run = "unary"
			m.close("")
		}
	}
	bidi := false
	for i := range ops {
		o := &ops[i]
		if now += o.D; i > 0 && o.D == 0 || now <= busy {
			raced = true
		}
		if o.What == "start" && busy < 0 {
			busy = now + lookup
		}
		hard = hard || m.done || o.Bad || o.Error != "" || o.What != "data" && o.What != "nocancel" && o.What != "unknown field" && (o.What != "start" || started)
		if o.End == "cut" {
			m.cut = true
		}
		if m.done {
			continue
		}
		switch o.What {
		case "start":
			switch known := o.Service == "svc" && (o.Method == "EchoBidiStream" || o.Method == "Echo"); {
			case started:
				m.close(anyErr)
			case known:
				started = true
				if bidi = o.Method == "EchoBidiStream"; bidi {
					m.run = "bidi"
				}
				feed(o)
			case o.Service == "" || o.Method == "":
				m.close(anyErr)
			default:
				m.close("not found: " + o.Service + "/" + o.Method)
			}
		case "data":
			if !started {
				m.close(anyErr)
				break
			}
			feed(o)
			if m.done || over {
				break
			}
			if o.Error != "" {
				over = true
				m.close(o.Error)
			} else if o.Complete {
				over = true
				if bidi {
					m.close("")
				} else {
					m.close(anyErr) // no request
				}
			}
		case "cancel":
			m.close("ERR_RPC_ABORT")
		case "garbage", "end", "cut":
			m.close(anyErr)
		}
	}
	m.raced = raced && (hard || m.err != "")
	return m
}

// answer decodes what the server sent back.
func answer(back [][]byte, raced bool) (got []string, end string, ended bool, err error) {
	for i, b := range back {
		var p srpc.Packet
		if err := p.UnmarshalVT(b); err != nil {
			return got, end, ended, fmt.Errorf("packet %d sent back does not decode: %w", i, err)
		}
		switch x := p.Body.(type) {
		case *srpc.Packet_CallData:
			if ended && end == "" && (!raced || len(x.CallData.Data) > 0) {
				return got, end, ended, fmt.Errorf("packet %d (%v) was sent after the last", i, x)
			}
			if ended {
				continue // the call is over for the remote
			}
			d := x.CallData
			if len(d.Data) > 0 || d.DataIsZero {
				var m echo.EchoMsg
				if err := m.UnmarshalVT(d.Data); err != nil {
					return got, end, ended, fmt.Errorf("message %d sent back does not decode: %w", i, err)
				}
				got = append(got, m.Body)
			}
			if d.Complete || d.Error != "" {
				ended, end = true, d.Error
			}
		case *srpc.Packet_CallCancel:
			if !ended {
				ended, end = true, "canceled"
			}
		default:
			return got, end, ended, fmt.Errorf("packet %d sent back is %T", i, x)
		}
	}
	return got, end, ended, nil
}

func TestC29_ServerPackets(t *testing.T) {
	vt.Check(t, vt.Prop[rawCase]{
		Rule:  "1-7 packets in drawn order to a TypeScript server with an echoing handler, which finds the method at once or later: known, unknown or empty services and methods, data before the start, a second start, final packets, errors, cancels, garbage, unknown fields, the stream's end or loss; non-trivial: a handler ran or more than one packet arrived",
		Quick: 40000, Thorough: 500000,
		Gen: func(t *rapid.T) rawCase {
			return rawCase{Ops: genRawOps(t, true), Lookup: pick(t, "lookup", 0, 0, 5, 30)}
		},
		Run: func(t *testing.T, c rawCase, in *vt.Info) error {
			for _, o := range c.Ops {
				in.Label(o.What)
			}
			var rec rawRec
			if err := runEnd("server", c, &rec); err != nil {
				return err
			}
			m := serverModel(c.Ops, c.Lookup)
			in.NonTrivial = m.run != "" || len(c.Ops) > 1
			if rec.After != "still there" {
				return fmt.Errorf("the next call to the server gave %q", rec.After)
			}
			if len(rec.Runs) > 1 {
				return fmt.Errorf("the handlers ran %d times", len(rec.Runs))
			}
			run, sgot, send := "", []string(nil), ""
			if len(rec.Runs) == 1 {
				run, sgot, send = rec.Runs[0].Name, rec.Runs[0].Got, rec.Runs[0].End
			}
			if run != m.run && !(m.raced && run == "") {
				return fmt.Errorf("the handler %q ran, want %q", run, m.run)
			}
			same := slices.Equal(sgot, m.got)
			if m.raced {
				same = isPrefix(sgot, m.got)
			}
			if !same {
				return fmt.Errorf("the handler received %s, want %s", brief(sgot), brief(m.got))
			}
			if m.run == "bidi" && m.done && run != "" && (send == "" || send == "EOF" && m.err != "" || send != "EOF" && m.err == "" && !m.raced) {
				return fmt.Errorf("the handler's receive ended with %q, the call with %q", send, m.err)
			}
			got, end, ended, err := answer(rec.Back, m.raced)
			if err != nil {
				return err
			}
			if !isPrefix(got, m.got) || !m.raced && !m.cut && len(got) != len(m.got) {
				return fmt.Errorf("the server sent back %s, want %s", brief(got), brief(m.got))
			}
			if !m.done {
				if ended || rec.Sunk || rec.Closed != "open" {
					return fmt.Errorf("the server ended the call (%q, closed: %s) though nothing asked for it", end, rec.Closed)
				}
				return nil
			}
			if !rec.Sunk || rec.Closed == "open" {
				return fmt.Errorf("the call has ended, the server has not closed it (stream ended: %v, closed: %s)", rec.Sunk, rec.Closed)
			}
			if m.cut {
				return nil
			}
			if !ended {
				return errors.New("the server did not send back the end of the call")
			}
			switch {
			case m.raced && (end != "" || m.err == ""):
				// another packet may have ended the call before
			case m.err == anyErr:
				if end == "" {
					return errors.New("the server sent back a clean end, want an error")
				}
			case m.err != end:
				return fmt.Errorf("the server sent back the end %q, want %q", end, m.err)
			}
			return nil
		},
	})
}

func TestC29_ClientPackets(t *testing.T) {
	vt.Check(t, vt.Prop[rawCase]{
		Rule:  "a TypeScript call of each kind which is answered with 1-7 packets in drawn order (messages, final packets, errors, a call start, cancels, garbage, unknown fields, messages after the end, the stream's end or loss); non-trivial: more than one packet",
		Quick: 40000, Thorough: 500000,
		Gen: func(t *rapid.T) rawCase {
			return rawCase{
				Kind: pick(t, "kind", "unary", "client", "server", "server", "bidi", "bidi"), SendOpen: rapid.Bool().Draw(t, "sendopen"),
				RGap: genGap(t, "rgap"), Finish: true, Ops: genRawOps(t, false),
			}
		},
		Run: func(t *testing.T, c rawCase, in *vt.Info) error {
			for _, o := range c.Ops {
				in.Label(o.What)
			}
			in.NonTrivial = len(c.Ops) > 1
			var rec rawRec
			if err := runEnd("client", c, &rec); err != nil {
				return err
			}
			one := c.Kind == "unary" || c.Kind == "client"
			var want []string
			end := anyErr
		ops:
			for i := range c.Ops {
				o := &c.Ops[i]
				switch o.What {
				case "data":
					if o.Has {
						if o.Bad {
							break ops
						}
						want = append(want, o.Body)
						if one {
							end = "EOF"
							break ops
						}
					}
					if o.Error != "" {
						end = o.Error
						break ops
					}
					if o.Complete {
						if end = "EOF"; one {
							end = "empty response"
						}
						break ops
					}
				case "cancel":
					end = "ERR_RPC_ABORT"
					break ops
				case "start", "garbage", "end", "cut":
					break ops
				}
			}
			if rec.End == nil {
				return errors.New("the call never ends")
			}
			if !slices.Equal(rec.Got, want) {
				return fmt.Errorf("the caller received %s, want %s (then %q)", brief(rec.Got), brief(want), *rec.End)
			}
			if end == anyErr && *rec.End == "EOF" || end != anyErr && *rec.End != end {
				return fmt.Errorf("the call's end is %q, want %q", *rec.End, end)
			}
			if !rec.Sunk {
				return errors.New("the call has ended, its stream has not")
			}
			if c.Ops[len(c.Ops)-1].End == "cut" && len(rec.Back) == 0 {
				return nil // lost with the link
			}
			return c.checkSent(rec.Back)
		},
	})
}

// checkSent checks what the client sent.
func (c *rawCase) checkSent(back [][]byte) error {
	var p srpc.Packet
	if len(back) == 0 {
		return errors.New("the client sent nothing")
	}
	if err := p.UnmarshalVT(back[0]); err != nil {
		return err
	}
	s := p.GetCallStart()
	method := map[string]string{"unary": "Echo", "client": "EchoClientStream", "server": "EchoServerStream", "bidi": "EchoBidiStream"}[c.Kind]
	if s == nil || s.RpcService != "svc" || s.RpcMethod != method {
		return fmt.Errorf("the first packet is %s, want the start of svc/%s", strings.TrimSpace(p.String()), method)
	}
	x := must((&echo.EchoMsg{Body: "x"}).MarshalVT())
	if c.Kind == "unary" || c.Kind == "server" {
		if !bytes.Equal(s.Data, x) {
			return fmt.Errorf("the first packet carries %q", s.Data)
		}
		return nil
	}
	if len(s.Data) > 0 || s.DataIsZero {
		return fmt.Errorf("the first packet of a streaming call carries %q", s.Data)
	}
	for i, b := range back[1:] {
		p.Reset()
		if err := p.UnmarshalVT(b); err != nil {
			return err
		}
		if d := p.GetCallData(); d != nil && d.Error != "" || p.GetCallCancel() {
			break // the call is over for the remote
		} else if p.GetCallStart() != nil || d != nil && i > 0 && len(d.Data) > 0 || d != nil && len(d.Data) > 0 && !bytes.Equal(d.Data, x) {
			return fmt.Errorf("packet %d is %s", i+1, strings.TrimSpace(p.String()))
		}
	}
	return nil
}
