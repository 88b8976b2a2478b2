package props

import (
	"encoding/json"
	"fmt"
	"strconv"
	"unicode/utf8"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
	"pgregory.net/rapid"
)

// The protocol messages as defined by rpcproto.proto and rpcstream.proto, for
// the standard protobuf implementation. The loose variants have bytes instead
// of strings: they have the same encoding without the check for UTF-8.

type fdef struct {
	name  string
	num   int32
	typ   string // string, bytes, bool, or a message
	oneof bool
}

var refDefs = map[string][]fdef{
	"Packet":          {{"call_start", 1, "CallStart", true}, {"call_data", 2, "CallData", true}, {"call_cancel", 3, "bool", true}},
	"CallStart":       {{"rpc_service", 1, "string", false}, {"rpc_method", 2, "string", false}, {"data", 3, "bytes", false}, {"data_is_zero", 4, "bool", false}},
	"CallData":        {{"data", 1, "bytes", false}, {"data_is_zero", 2, "bool", false}, {"complete", 3, "bool", false}, {"error", 4, "string", false}},
	"RpcStreamPacket": {{"init", 1, "RpcStreamInit", true}, {"ack", 2, "RpcAck", true}, {"data", 3, "bytes", true}},
	"RpcStreamInit":   {{"component_id", 1, "string", false}},
	"RpcAck":          {{"error", 1, "string", false}},
}

var refKinds = []string{"Packet", "Packet", "Packet", "CallStart", "CallData", "RpcStreamPacket", "RpcStreamPacket", "RpcStreamInit", "RpcAck"}

var refDescs = map[bool]protoreflect.FileDescriptor{false: refFile(false), true: refFile(true)}

func refFile(loose bool) protoreflect.FileDescriptor {
	pkg := "strict"
	if loose {
		pkg = "loose"
	}
	fd := &descriptorpb.FileDescriptorProto{Name: proto.String(pkg + ".proto"), Package: proto.String(pkg), Syntax: proto.String("proto3")}
	for name, fs := range refDefs {
		m := &descriptorpb.DescriptorProto{Name: proto.String(name)}
		for _, f := range fs {
			fp := &descriptorpb.FieldDescriptorProto{Name: proto.String(f.name), Number: proto.Int32(f.num), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()}
			switch f.typ {
			case "string":
				fp.Type = descriptorpb.FieldDescriptorProto_TYPE_STRING.Enum()
				if loose {
					fp.Type = descriptorpb.FieldDescriptorProto_TYPE_BYTES.Enum()
				}
			case "bytes":
				fp.Type = descriptorpb.FieldDescriptorProto_TYPE_BYTES.Enum()
			case "bool":
				fp.Type = descriptorpb.FieldDescriptorProto_TYPE_BOOL.Enum()
			default:
				fp.Type = descriptorpb.FieldDescriptorProto_TYPE_MESSAGE.Enum()
				fp.TypeName = proto.String("." + pkg + "." + f.typ)
			}
			if f.oneof {
				fp.OneofIndex = proto.Int32(0)
				if len(m.OneofDecl) == 0 {
					m.OneofDecl = []*descriptorpb.OneofDescriptorProto{{Name: proto.String("body")}}
				}
			}
			m.Field = append(m.Field, fp)
		}
		fd.MessageType = append(fd.MessageType, m)
	}
	out, err := protodesc.NewFile(fd, nil)
	if err != nil {
		panic(err)
	}
	return out
}

func refNew(kind string, loose bool) *dynamicpb.Message {
	return dynamicpb.NewMessage(refDescs[loose].Messages().ByName(protoreflect.Name(kind)))
}

// val is a message value in a common form: the populated fields.
type val map[string]any

// refVal converts a message of the standard implementation.
func refVal(m protoreflect.Message) val {
	v := val{}
	m.Range(func(f protoreflect.FieldDescriptor, x protoreflect.Value) bool {
		switch f.Kind() {
		case protoreflect.MessageKind:
			v[string(f.Name())] = refVal(x.Message())
		case protoreflect.BytesKind:
			v[string(f.Name())] = string(x.Bytes())
		case protoreflect.StringKind:
			v[string(f.Name())] = x.String()
		default:
			v[string(f.Name())] = x.Bool()
		}
		return true
	})
	return v
}

func (v val) str(k, s string) val {
	if s != "" {
		v[k] = s
	}
	return v
}

func (v val) flag(k string, b bool) val {
	if b {
		v[k] = b
	}
	return v
}

// realVal converts a message of the code under test.
func realVal(m any) val {
	switch m := m.(type) {
	case *srpc.Packet:
		switch b := m.Body.(type) {
		case nil:
			return val{}
		case *srpc.Packet_CallStart:
			return val{"call_start": realVal(b.CallStart)}
		case *srpc.Packet_CallData:
			return val{"call_data": realVal(b.CallData)}
		case *srpc.Packet_CallCancel:
			return val{"call_cancel": b.CallCancel}
		}
	case *srpc.CallStart:
		return val{}.str("rpc_service", m.RpcService).str("rpc_method", m.RpcMethod).str("data", string(m.Data)).flag("data_is_zero", m.DataIsZero)
	case *srpc.CallData:
		return val{}.str("data", string(m.Data)).flag("data_is_zero", m.DataIsZero).flag("complete", m.Complete).str("error", m.Error)
	case *rpcstream.RpcStreamPacket:
		switch b := m.Body.(type) {
		case nil:
			return val{}
		case *rpcstream.RpcStreamPacket_Init:
			return val{"init": realVal(b.Init)}
		case *rpcstream.RpcStreamPacket_Ack:
			return val{"ack": realVal(b.Ack)}
		case *rpcstream.RpcStreamPacket_Data:
			return val{"data": string(b.Data)}
		}
	case *rpcstream.RpcStreamInit:
		return val{}.str("component_id", m.ComponentId)
	case *rpcstream.RpcAck:
		return val{}.str("error", m.Error)
	}
	panic(fmt.Sprintf("unknown message %T", m))
}

// pv describes a protocol message.
type pv struct {
	Kind string `json:"kind"`
	Body string `json:"body,omitempty"`
	A    []byte `json:"a,omitempty"`
	B    []byte `json:"b,omitempty"`
	D    Msg    `json:"d"`
	Z    bool   `json:"z,omitempty"`
	C    bool   `json:"c,omitempty"`
}

// inner returns the value of the message inside.
func (p pv) inner(kind string) pv { p.Kind = kind; return p }

// val returns the value in the common form.
func (p pv) val() val {
	switch p.Kind {
	case "Packet":
		switch p.Body {
		case "start":
			return val{"call_start": p.inner("CallStart").val()}
		case "data":
			return val{"call_data": p.inner("CallData").val()}
		case "cancel":
			return val{"call_cancel": p.C}
		}
		return val{}
	case "CallStart":
		return val{}.str("rpc_service", string(p.A)).str("rpc_method", string(p.B)).str("data", string(p.D.Bytes())).flag("data_is_zero", p.Z)
	case "CallData":
		return val{}.str("data", string(p.D.Bytes())).flag("data_is_zero", p.Z).flag("complete", p.C).str("error", string(p.A))
	case "RpcStreamPacket":
		switch p.Body {
		case "init":
			return val{"init": p.inner("RpcStreamInit").val()}
		case "ack":
			return val{"ack": p.inner("RpcAck").val()}
		case "data":
			return val{"data": string(p.D.Bytes())}
		}
		return val{}
	case "RpcStreamInit":
		return val{}.str("component_id", string(p.A))
	case "RpcAck":
		return val{}.str("error", string(p.A))
	}
	panic("unknown kind " + p.Kind)
}

// real makes the message of the code under test.
func (p pv) real() vtMsg {
	switch p.Kind {
	case "Packet":
		switch p.Body {
		case "start":
			return &srpc.Packet{Body: &srpc.Packet_CallStart{CallStart: p.inner("CallStart").real().(*srpc.CallStart)}}
		case "data":
			return &srpc.Packet{Body: &srpc.Packet_CallData{CallData: p.inner("CallData").real().(*srpc.CallData)}}
		case "cancel":
			return &srpc.Packet{Body: &srpc.Packet_CallCancel{CallCancel: p.C}}
		}
		return &srpc.Packet{}
	case "CallStart":
		return &srpc.CallStart{RpcService: string(p.A), RpcMethod: string(p.B), Data: p.D.Bytes(), DataIsZero: p.Z}
	case "CallData":
		return &srpc.CallData{Data: p.D.Bytes(), DataIsZero: p.Z, Complete: p.C, Error: string(p.A)}
	case "RpcStreamPacket":
		switch p.Body {
		case "init":
			return &rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Init{Init: p.inner("RpcStreamInit").real().(*rpcstream.RpcStreamInit)}}
		case "ack":
			return &rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Ack{Ack: p.inner("RpcAck").real().(*rpcstream.RpcAck)}}
		case "data":
			return &rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Data{Data: p.D.Bytes()}}
		}
		return &rpcstream.RpcStreamPacket{}
	case "RpcStreamInit":
		return &rpcstream.RpcStreamInit{ComponentId: string(p.A)}
	case "RpcAck":
		return &rpcstream.RpcAck{Error: string(p.A)}
	}
	panic("unknown kind " + p.Kind)
}

// ref makes the message of the standard implementation.
func (p pv) ref(loose bool) *dynamicpb.Message {
	m := refNew(p.Kind, loose)
	var fill func(m protoreflect.Message, v val)
	fill = func(m protoreflect.Message, v val) {
		for k, x := range v {
			f := m.Descriptor().Fields().ByName(protoreflect.Name(k))
			switch x := x.(type) {
			case val:
				fill(m.Mutable(f).Message(), x)
			case string:
				if f.Kind() == protoreflect.BytesKind {
					m.Set(f, protoreflect.ValueOfBytes([]byte(x)))
				} else {
					m.Set(f, protoreflect.ValueOfString(x))
				}
			case bool:
				m.Set(f, protoreflect.ValueOfBool(x))
			}
		}
	}
	fill(m, p.val())
	return m
}

func (p pv) utf8() bool { return utf8.Valid(p.A) && utf8.Valid(p.B) }

// goQuoteOnly says if a string is quoted in a different way in Go and in JSON.
func (p pv) goQuoteOnly() bool {
	return !json.Valid([]byte(strconv.Quote(string(p.A)))) || !json.Valid([]byte(strconv.Quote(string(p.B))))
}

type vtMsg interface {
	MarshalVT() ([]byte, error)
	UnmarshalVT([]byte) error
	SizeVT() int
	MarshalToVT([]byte) (int, error)
	MarshalToSizedBufferVT([]byte) (int, error)
	MarshalJSON() ([]byte, error)
	UnmarshalJSON([]byte) error
	Reset()
	String() string
}

func newReal(kind string) vtMsg { return pv{Kind: kind}.real() }

// genStr draws a string: mostly short and valid UTF-8.
func genStr(t *rapid.T, label string) []byte {
	switch rapid.IntRange(0, 9).Draw(t, label+"Class") {
	case 0, 1, 2:
		return nil
	case 3, 4, 5:
		return []byte(rapid.StringMatching(`[a-z./]{1,6}`).Draw(t, label))
	case 6, 7, 8:
		return []byte(rapid.StringN(1, 10, -1).Draw(t, label))
	default:
		return []byte(rapid.StringOfN(rapid.RuneFrom([]rune{'a', 0, '"', '\\', 0x2028, '<', 0xfffd, 0x1f600, '\n'}), 1, 200, -1).Draw(t, label))
	}
}

func genPV(t *rapid.T) pv {
	p := pv{Kind: pick(t, "kind", refKinds...)}
	switch p.Kind {
	case "Packet":
		p.Body = pick(t, "body", "start", "data", "data", "cancel", "")
	case "RpcStreamPacket":
		p.Body = pick(t, "body", "init", "ack", "data", "data", "")
	}
	p.A, p.B = genStr(t, "a"), genStr(t, "b")
	p.D = genMsg(t, rare(t, "big", 50), "d")
	p.Z, p.C = rapid.Bool().Draw(t, "z"), rapid.Bool().Draw(t, "c")
	return p
}

// encoding of messages with the liberties a standard encoder has.

func putVarint(b []byte, x uint64, pad int) []byte {
	n := 1
	for y := x >> 7; y > 0; y >>= 7 {
		n++
	}
	n = min(10, n+pad)
	for i := range n {
		c := byte(x) & 0x7f
		x >>= 7
		if i < n-1 {
			c |= 0x80
		}
		b = append(b, c)
	}
	return b
}

func genPad(t *rapid.T, label string) int {
	if rapid.IntRange(0, 11).Draw(t, label) == 7 {
		return rapid.IntRange(1, 3).Draw(t, label+"N")
	}
	return 0
}

func putTag(t *rapid.T, b []byte, num uint64, wt uint64) []byte {
	pad := 0
	if num < 1<<20 {
		pad = genPad(t, "tagpad")
		if pad > 1 {
			pad = 1 // tags have at most 5 bytes
		}
	}
	return putVarint(b, num<<3|wt, pad)
}

func putBytes(t *rapid.T, b []byte, x []byte) []byte {
	return append(putVarint(b, uint64(len(x)), genPad(t, "lenpad")), x...)
}

func genUnknown(t *rapid.T, b []byte, depth int) []byte {
	num := pick[uint64](t, "unum", 5, 6, 15, 16, 100, 2047, 2048, 1<<29-1, 18999)
	switch pick(t, "utype", 0, 1, 2, 2, 3, 5) {
	case 0:
		return putVarint(putTag(t, b, num, 0), rapid.Uint64().Draw(t, "uv"), 0)
	case 1:
		return append(putTag(t, b, num, 1), rapid.SliceOfN(rapid.Byte(), 8, 8).Draw(t, "u8")...)
	case 2:
		return putBytes(t, putTag(t, b, num, 2), rapid.SliceOfN(rapid.Byte(), 0, 9).Draw(t, "ub"))
	case 3:
		b = putTag(t, b, num, 3)
		for range rapid.IntRange(0, 2).Draw(t, "ugn") {
			if depth < 3 {
				b = genUnknown(t, b, depth+1)
			}
		}
		return putTag(t, b, num, 4)
	default:
		return append(putTag(t, b, num, 5), rapid.SliceOfN(rapid.Byte(), 4, 4).Draw(t, "u4")...)
	}
}

// genEncoding draws a valid encoding of a message of this kind: fields in any
// order, some several times, with unknown fields.
func genEncoding(t *rapid.T, kind string, depth int) []byte {
	var b []byte
	fs := refDefs[kind]
	for range pick(t, kind+"Fields", 0, 1, 1, 2, 3, 4, 6) {
		i := rapid.IntRange(0, len(fs)).Draw(t, kind+"Field")
		if i == len(fs) {
			b = genUnknown(t, b, 0)
			continue
		}
		f := fs[i]
		switch f.typ {
		case "bool":
			b = putTag(t, b, uint64(f.num), 0)
			b = putVarint(b, pick[uint64](t, "bool", 0, 1, 1, 2, 1<<40, 1<<63), genPad(t, "boolpad"))
		case "string":
			b = putBytes(t, putTag(t, b, uint64(f.num), 2), genStr(t, "s"))
		case "bytes":
			b = putBytes(t, putTag(t, b, uint64(f.num), 2), genMsg(t, false, "d").Bytes())
		default:
			b = putBytes(t, putTag(t, b, uint64(f.num), 2), genEncoding(t, f.typ, depth+1))
		}
	}
	return b
}

// mutate changes bytes.
func mutate(t *rapid.T, b []byte) []byte {
	b = append([]byte{}, b...)
	for range rapid.IntRange(1, 3).Draw(t, "muts") {
		i := 0
		if len(b) > 0 {
			i = rapid.IntRange(0, len(b)-1).Draw(t, "at")
			if rapid.Bool().Draw(t, "early") {
				i = min(i, 6)
			}
		}
		switch rapid.IntRange(0, 4).Draw(t, "mut") {
		case 0:
			if len(b) > 0 {
				b[i] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
			}
		case 1:
			if len(b) > 0 {
				b[i] = rapid.Byte().Draw(t, "byte")
			}
		case 2:
			b = b[:i]
		case 3:
			b = append(b[:i:i], append(rapid.SliceOfN(rapid.Byte(), 1, 4).Draw(t, "ins"), b[i:]...)...)
		case 4:
			if len(b) > 0 {
				b = append(b[:i:i], b[min(len(b), i+rapid.IntRange(1, 4).Draw(t, "del")):]...)
			}
		}
	}
	return b
}
