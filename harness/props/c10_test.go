package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"testing"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
	"verif/harness/vt"
)

func sameVal(a, b val) bool { return reflect.DeepEqual(a, b) }

func showVal(v val) string { return fmt.Sprintf("%.400q", fmt.Sprint(v)) }

type c10Value struct {
	P pv  `json:"p"`
	Q pv  `json:"q"` // another value, sometimes nearly the same
	X int `json:"x"` // extra room in buffers
}

func cloneAny(m vtMsg) vtMsg {
	switch m := m.(type) {
	case *srpc.Packet:
		return m.CloneVT()
	case *srpc.CallStart:
		return m.CloneVT()
	case *srpc.CallData:
		return m.CloneVT()
	case *rpcstream.RpcStreamPacket:
		return m.CloneVT()
	case *rpcstream.RpcStreamInit:
		return m.CloneVT()
	case *rpcstream.RpcAck:
		return m.CloneVT()
	}
	panic("kind")
}

func equalAny(a, b vtMsg) bool {
	switch a := a.(type) {
	case *srpc.Packet:
		return a.EqualVT(b.(*srpc.Packet)) && a.EqualMessageVT(b)
	case *srpc.CallStart:
		return a.EqualVT(b.(*srpc.CallStart)) && a.EqualMessageVT(b)
	case *srpc.CallData:
		return a.EqualVT(b.(*srpc.CallData)) && a.EqualMessageVT(b)
	case *rpcstream.RpcStreamPacket:
		return a.EqualVT(b.(*rpcstream.RpcStreamPacket)) && a.EqualMessageVT(b)
	case *rpcstream.RpcStreamInit:
		return a.EqualVT(b.(*rpcstream.RpcStreamInit)) && a.EqualMessageVT(b)
	case *rpcstream.RpcAck:
		return a.EqualVT(b.(*rpcstream.RpcAck)) && a.EqualMessageVT(b)
	}
	panic("kind")
}

// spoil changes all that the message refers to.
func spoil(m vtMsg) {
	inc := func(b []byte) {
		for i := range b {
			b[i]++
		}
	}
	switch m := m.(type) {
	case *srpc.Packet:
		if s := m.GetCallStart(); s != nil {
			spoil(s)
		}
		if s := m.GetCallData(); s != nil {
			spoil(s)
		}
		if s, ok := m.Body.(*srpc.Packet_CallCancel); ok {
			s.CallCancel = !s.CallCancel
		}
	case *srpc.CallStart:
		inc(m.Data)
		m.RpcService += "x"
		m.RpcMethod += "x"
		m.DataIsZero = !m.DataIsZero
	case *srpc.CallData:
		inc(m.Data)
		m.Error += "x"
		m.Complete = !m.Complete
		m.DataIsZero = !m.DataIsZero
	case *rpcstream.RpcStreamPacket:
		if s := m.GetInit(); s != nil {
			spoil(s)
		}
		if s := m.GetAck(); s != nil {
			spoil(s)
		}
		if s, ok := m.Body.(*rpcstream.RpcStreamPacket_Data); ok {
			inc(s.Data)
			s.Data = append(s.Data, 1)
		}
	case *rpcstream.RpcStreamInit:
		m.ComponentId += "x"
	case *rpcstream.RpcAck:
		m.Error += "x"
	}
}

func runC10Value(_ *testing.T, c c10Value, in *vt.Info) error {
	m := c.P.real()
	want := c.P.val()
	in.NonTrivial = len(want) > 0
	in.Label("message: " + c.P.Kind + " " + c.P.Body)
	in.LabelIf(c.P.D.Len() > 127, "length over 127")
	if got := realVal(m); !sameVal(got, want) {
		return vt.Infra(fmt.Errorf("real() %v, want %v", got, want))
	}
	b, err := m.MarshalVT()
	if err != nil {
		return fmt.Errorf("MarshalVT: %w", err)
	}
	if len(b) != m.SizeVT() {
		return fmt.Errorf("encoded to %d bytes, SizeVT says %d", len(b), m.SizeVT())
	}
	ref := refNew(c.P.Kind, !c.P.utf8())
	if err := proto.Unmarshal(b, ref); err != nil {
		return fmt.Errorf("standard protobuf does not decode the encoding of %s: %w", showVal(want), err)
	}
	if got := refVal(ref); !sameVal(got, want) {
		return fmt.Errorf("standard protobuf decodes %s as %s", showVal(want), showVal(got))
	}
	if u := ref.GetUnknown(); len(u) > 0 {
		return fmt.Errorf("the encoding of %s has unknown fields", showVal(want))
	}
	// into larger buffers.
	buf := bytes.Repeat([]byte{0xaa}, len(b)+c.X)
	n, err := m.MarshalToSizedBufferVT(buf)
	if err != nil || n != len(b) || !bytes.Equal(buf[len(buf)-n:], b) || bytes.Count(buf[:c.X], []byte{0xaa}) != c.X {
		return fmt.Errorf("MarshalToSizedBufferVT into %d bytes: %d, %v, %x (want %x at the end)", len(buf), n, err, buf, b)
	}
	buf = bytes.Repeat([]byte{0xaa}, len(b)+c.X)
	n, err = m.MarshalToVT(buf)
	if err != nil || n != len(b) || !bytes.Equal(buf[:n], b) || bytes.Count(buf[n:], []byte{0xaa}) != c.X {
		return fmt.Errorf("MarshalToVT into %d bytes: %d, %v, %x (want %x at the start)", len(buf), n, err, buf, b)
	}
	if got := realVal(m); !sameVal(got, want) {
		return fmt.Errorf("encoding changed %s to %s", showVal(want), showVal(got))
	}
	// round trip, and from the standard encoding.
	rb, err := proto.MarshalOptions{Deterministic: true}.Marshal(c.P.ref(!c.P.utf8()))
	if err != nil {
		return vt.Infra(err)
	}
	for i, x := range [][]byte{b, rb} {
		d := newReal(c.P.Kind)
		x = bytes.Clone(x)
		if err := d.UnmarshalVT(x); err != nil {
			return fmt.Errorf("encoding %d of %s does not decode: %w", i, showVal(want), err)
		}
		for j := range x {
			x[j] ^= 0xff // the message must not refer to the input
		}
		if got := realVal(d); !sameVal(got, want) {
			return fmt.Errorf("encoding %d of %s decodes as %s", i, showVal(want), showVal(got))
		}
		if !equalAny(d, m) || !equalAny(m, d) {
			return fmt.Errorf("%s decoded is not EqualVT to the original", showVal(want))
		}
	}
	// clones.
	cl := cloneAny(m)
	if got := realVal(cl); !sameVal(got, want) || !equalAny(cl, m) {
		return fmt.Errorf("the clone of %s is %s", showVal(want), showVal(got))
	}
	spoil(cl)
	if got := realVal(m); !sameVal(got, want) {
		return fmt.Errorf("changing the clone changed the original: %s became %s", showVal(want), showVal(got))
	}
	cl = cloneAny(m)
	m2 := c.P.real()
	spoil(m)
	if got := realVal(cl); !sameVal(got, want) {
		return fmt.Errorf("changing the original changed the clone: %s became %s", showVal(want), showVal(got))
	}
	m = m2
	// equality.
	if c.Q.Kind == c.P.Kind {
		q := c.Q.real()
		eq := sameVal(c.P.val(), c.Q.val())
		in.LabelIf(!eq, "compared with a different value")
		if equalAny(m, q) != eq || equalAny(q, m) != eq {
			return fmt.Errorf("EqualVT of %s and %s is not %v", showVal(want), showVal(c.Q.val()), eq)
		}
	}
	_ = m.String()
	// JSON (of text).
	if c.P.utf8() {
		js, err := m.MarshalJSON()
		if err != nil {
			return fmt.Errorf("MarshalJSON of %s: %w", showVal(want), err)
		}
		if !json.Valid(js) {
			if c.P.goQuoteOnly() {
				return fmt.Errorf("the JSON form of a string with a non-printable character is quoted as in Go and not valid JSON: %.300q", js)
			}
			return fmt.Errorf("the JSON form of %s is not valid: %.300q", showVal(want), js)
		}
		d := newReal(c.P.Kind)
		if err := d.UnmarshalJSON(js); err != nil {
			return fmt.Errorf("the JSON form %.300q does not decode: %w", js, err)
		}
		if got := realVal(d); !sameVal(got, want) {
			return fmt.Errorf("%s becomes %s through JSON %.300q", showVal(want), showVal(got), js)
		}
		in.Label("JSON")
		if c.P.Kind == "RpcStreamPacket" && c.P.Body == "data" && c.P.D.Len() == 0 {
			// the lite JSON form is null, which is only understood by the lite decoder.
			return nil
		}
		ref := refNew(c.P.Kind, false)
		if err := protojson.Unmarshal(js, ref); err != nil {
			return fmt.Errorf("standard protobuf does not decode the JSON form %.300q: %w", js, err)
		}
		if got := refVal(ref); !sameVal(got, want) {
			return fmt.Errorf("standard protobuf decodes the JSON form %.300q as %s, want %s", js, showVal(got), showVal(want))
		}
		rjs, err := protojson.Marshal(c.P.ref(false))
		if err != nil {
			return vt.Infra(err)
		}
		d = newReal(c.P.Kind)
		if err := d.UnmarshalJSON(rjs); err != nil {
			return fmt.Errorf("the standard JSON form %.300q does not decode: %w", rjs, err)
		}
		if got := realVal(d); !sameVal(got, want) {
			return fmt.Errorf("the standard JSON form %.300q decodes as %s", rjs, showVal(got))
		}
	}
	m.Reset()
	if got := realVal(m); len(got) != 0 || m.SizeVT() != 0 {
		return fmt.Errorf("%s after Reset is %s", showVal(want), showVal(got))
	}
	return nil
}

func TestC10_Values(t *testing.T) {
	vt.Check(t, vt.Prop[c10Value]{
		Rule:  "a drawn value of one of the six protocol messages: encoded (three ways) and compared with the standard protobuf implementation both ways, decoded, cloned and changed, compared with a second value, and through JSON both ways against protojson; non-trivial: some field is set",
		Quick: 60000, Thorough: 1500000,
		Gen: func(t *rapid.T) c10Value {
			c := c10Value{P: genPV(t), X: pick(t, "x", 0, 1, 7)}
			c.Q = c.P
			switch rapid.IntRange(0, 8).Draw(t, "q") {
			case 0:
				c.Q = genPV(t)
			case 1:
				c.Q.A = genStr(t, "qa")
			case 2:
				c.Q.B = genStr(t, "qb")
			case 3:
				c.Q.D = genMsg(t, false, "qd")
			case 4:
				c.Q.Z = !c.Q.Z
			case 5:
				c.Q.C = !c.Q.C
			case 6:
				if c.P.Kind == "Packet" {
					c.Q.Body = pick(t, "qbody", "start", "data", "cancel", "")
				} else if c.P.Kind == "RpcStreamPacket" {
					c.Q.Body = pick(t, "qbody", "init", "ack", "data", "")
				}
			}
			return c
		},
		Run: runC10Value,
	})
}

type c10Bytes struct {
	Kind  string `json:"kind"`
	Bytes []byte `json:"bytes"`
	Valid bool   `json:"valid"` // made as a valid encoding
	JSON  bool   `json:"json,omitempty"`
}

func TestC10_Decode(t *testing.T) {
	vt.Check(t, vt.Prop[c10Bytes]{
		Rule:  "valid encodings with repeated, reordered, unknown (all wire types, groups) fields and padded varints, the same with mutations, and random bytes, decoded by the code and by standard protobuf (strings not checked for UTF-8): valid ones must decode alike, others must fail or decode alike wherever standard protobuf accepts them; decoding never panics, and what was decoded encodes to the same value again; the JSON decoders get mutated JSON; non-trivial: at least 2 bytes",
		Quick: 150000, Thorough: 4000000,
		Gen: func(t *rapid.T) c10Bytes {
			c := c10Bytes{Kind: pick(t, "kind", refKinds...), Valid: true}
			if rapid.IntRange(0, 9).Draw(t, "json") == 5 {
				c.JSON, c.Valid = true, false
				p := genPV(t)
				c.Kind = p.Kind
				if js, err := protojson.Marshal(p.ref(true)); err == nil {
					c.Bytes = mutate(t, js)
				}
				return c
			}
			c.Bytes = genEncoding(t, c.Kind, 0)
			switch rapid.IntRange(0, 5).Draw(t, "how") {
			case 0, 1:
				c.Valid = false
				c.Bytes = mutate(t, c.Bytes)
			case 2:
				c.Valid = false
				c.Bytes = rapid.SliceOfN(rapid.Byte(), 0, 24).Draw(t, "random")
			}
			return c
		},
		Run: func(_ *testing.T, c c10Bytes, in *vt.Info) error {
			in.NonTrivial = len(c.Bytes) > 1
			m := newReal(c.Kind)
			if c.JSON {
				in.Label("JSON")
				_ = m.UnmarshalJSON(bytes.Clone(c.Bytes))
				return nil
			}
			ref := refNew(c.Kind, true)
			rerr := proto.Unmarshal(c.Bytes, ref)
			in.LabelIf(c.Valid, "valid encoding")
			if c.Valid && rerr != nil {
				return vt.Infra(fmt.Errorf("the generator made an invalid encoding %x: %w", c.Bytes, rerr))
			}
			data := bytes.Clone(c.Bytes)
			err := m.UnmarshalVT(data)
			if !bytes.Equal(data, c.Bytes) {
				return errors.New("decoding changed its input")
			}
			if err != nil {
				if c.Valid {
					return fmt.Errorf("%x does not decode (%w), standard protobuf says %s", c.Bytes, err, showVal(refVal(ref)))
				}
				in.LabelIf(rerr != nil, "both fail")
				in.LabelIf(rerr == nil, "only the code fails")
				return nil
			}
			if rerr != nil {
				in.Label("only standard protobuf fails")
			} else {
				in.Label("both decode")
				if got, want := realVal(m), refVal(ref); !sameVal(got, want) {
					return fmt.Errorf("%x decodes as %s, standard protobuf says %s", c.Bytes, showVal(got), showVal(want))
				}
			}
			b, err := m.MarshalVT()
			if err != nil {
				return fmt.Errorf("a decoded message does not encode: %w", err)
			}
			m2 := newReal(c.Kind)
			if err := m2.UnmarshalVT(b); err != nil || !sameVal(realVal(m), realVal(m2)) {
				return fmt.Errorf("%s decoded from %x becomes %s through encoding (%v)", showVal(realVal(m)), c.Bytes, showVal(realVal(m2)), err)
			}
			return nil
		},
	})
}

type c10Packet struct {
	P    pv     `json:"p"`
	Ctor string `json:"ctor"` // constructor, or none
	Err  string `json:"err,omitempty"`
	EErr bool   `json:"eerr,omitempty"` // with an error (maybe without text)
}

func TestC10_Packets(t *testing.T) {
	vt.Check(t, vt.Prop[c10Packet]{
		Rule:  "packets from the constructors with drawn arguments must have exactly the drawn content (an error implies completion and a non-empty text), Validate must accept exactly the packets of the protocol, and a packet data handler gets the packet or reports that it does not decode; non-trivial: a packet with a body",
		Quick: 30000, Thorough: 500000,
		Gen: func(t *rapid.T) c10Packet {
			c := c10Packet{P: genPV(t), Ctor: pick(t, "ctor", "none", "none", "start", "data", "cancel")}
			c.P.Kind = "Packet"
			c.P.Body = pick(t, "body2", "start", "data", "data", "cancel", "")
			if rapid.IntRange(0, 2).Draw(t, "plain") == 0 {
				c.P.A, c.P.D = nil, Msg{}
			}
			c.EErr = rapid.IntRange(0, 2).Draw(t, "eerr") == 0
			if c.EErr {
				c.Err = string(rapid.StringN(0, 5, -1).Draw(t, "errtext"))
			}
			return c
		},
		Run: func(_ *testing.T, c c10Packet, in *vt.Info) error {
			p := c.P.real().(*srpc.Packet)
			want := c.P.val()
			d := c.P.D.Bytes()
			switch c.Ctor {
			case "start":
				p = srpc.NewCallStartPacket(string(c.P.A), string(c.P.B), d, c.P.Z)
				c.P.Body = "start"
				want = c.P.val()
			case "data":
				c.P.Body, c.P.A = "data", nil
				var err error
				if c.EErr {
					err = errors.New(c.Err)
					c.P.C, c.P.A = true, []byte(c.Err)
				}
				cc := c.P.C && !(c.EErr && len(d)%2 == 0)
				p = srpc.NewCallDataPacket(d, c.P.Z, cc, err)
				want = c.P.val()
				if c.EErr && c.Err == "" {
					got := realVal(p)
					if got["call_data"].(val)["error"] == nil {
						return errors.New("an error without a text makes a packet without an error")
					}
					delete(got["call_data"].(val), "error")
					if !sameVal(got, want) {
						return fmt.Errorf("the packet is %s, want %s with an error", showVal(got), showVal(want))
					}
					want = realVal(p)
				}
			case "cancel":
				p = srpc.NewCallCancelPacket()
				c.P.Body, c.P.C = "cancel", true
				want = c.P.val()
			}
			if got := realVal(p); !sameVal(got, want) {
				return fmt.Errorf("the packet is %s, want %s", showVal(got), showVal(want))
			}
			ok := false
			switch c.P.Body {
			case "start":
				ok = len(c.P.A) > 0 && len(c.P.B) > 0
			case "data":
				ok = len(d) > 0 || c.P.Z || c.P.C || len(c.P.A) > 0
			case "cancel":
				ok = true
			}
			in.NonTrivial = c.P.Body != ""
			in.LabelIf(ok, "valid")
			in.LabelIf(!ok, "invalid")
			in.Label("constructor: " + c.Ctor)
			if c.Ctor == "data" && c.EErr {
				ok = true
			}
			if err := p.Validate(); (err == nil) != ok {
				return fmt.Errorf("Validate of %s says %v", showVal(want), err)
			}
			// the decoding handler.
			b, err := p.MarshalVT()
			if err != nil {
				return err
			}
			n := 0
			herr := errors.New("handler")
			var got val
			h := srpc.NewPacketDataHandler(func(p *srpc.Packet) error { n++; got = realVal(p); return herr })
			if err := h(b); err != herr || n != 1 || !sameVal(got, want) {
				return fmt.Errorf("the handler got %s (%d times, result %v), want %s", showVal(got), n, err, showVal(want))
			}
			if err := h([]byte{0xff}); err == nil || n != 1 {
				return fmt.Errorf("undecodable data: handler called %d times, result %v", n-1, err)
			}
			return nil
		},
	})
}
