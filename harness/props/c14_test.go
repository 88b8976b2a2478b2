package props

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/aperturerobotics/starpc/srpc"
	"pgregory.net/rapid"
	"verif/harness/vt"
)

type c14Op struct {
	Op string `json:"op"`
	M  Msg    `json:"m"`
	I  int    `json:"i,omitempty"`
	X  int    `json:"x,omitempty"`
}

type c14Case struct {
	Copy bool    `json:"copy"`
	Init *Msg    `json:"init,omitempty"`
	Cap  int     `json:"cap,omitempty"`  // extra capacity of the first slice
	Zero bool    `json:"zero,omitempty"` // the zero value instead of the constructor
	Ops  []c14Op `json:"ops"`
}

// withCap returns the bytes in a slice of larger capacity.
func withCap(b []byte, x int) []byte {
	return append(make([]byte, 0, len(b)+x), b...)
}

func TestC14_Model(t *testing.T) {
	vt.Check(t, vt.Prop[c14Case]{
		Rule:  "a raw message (copying or not, constructed over a slice with spare capacity, or the zero value) under 1-25 operations: set, decode, clear, reset, marshal (all ways), changing any slice given to it or handed out by marshalling; compared with a model after each operation; non-trivial: at least one set and one marshal",
		Quick: 80000, Thorough: 2000000,
		Gen: func(t *rapid.T) c14Case {
			c := c14Case{Copy: rapid.Bool().Draw(t, "copy"), Cap: pick(t, "cap", 0, 1, 10, 100)}
			switch rapid.IntRange(0, 3).Draw(t, "init") {
			case 0:
				c.Zero, c.Copy = true, false
			case 1:
			default:
				m := genMsg(t, false, "m")
				c.Init = &m
			}
			for range rapid.IntRange(1, 25).Draw(t, "n") {
				o := c14Op{Op: pick(t, "op", "set", "set", "decode", "decode", "clear", "reset", "marshal", "marshal", "sized", "sizedbad", "spoilsrc", "spoilsrc", "spoilout", "spoilmsg"), I: rapid.IntRange(0, 30).Draw(t, "i"), X: pick(t, "x", 0, 1, 5)}
				if o.Op == "set" || o.Op == "decode" {
					o.M = genMsg(t, false, "m")
				}
				c.Ops = append(c.Ops, o)
			}
			return c
		},
		Run: runC14,
	})
}

func runC14(_ *testing.T, c c14Case, in *vt.Info) error {
	var m *srpc.RawMessage
	var model []byte   // content
	var own []byte     // not copying: the slice which the message must use
	var srcs [][]byte  // slices given to the message by set or decode
	var outs [][]byte  // slices from marshalling
	var wants [][]byte // and what they must contain
	var init []byte    // slice given to the constructor
	if c.Zero {
		m = &srpc.RawMessage{}
	} else {
		if c.Init != nil {
			init = withCap(c.Init.Bytes(), c.Cap)
		}
		m = srpc.NewRawMessage(init, c.Copy)
		model, own = bytes.Clone(init), init
	}
	in.LabelIf(c.Copy, "copying")
	sets, marshals := 0, 0
	for i, o := range c.Ops {
		switch o.Op {
		case "set", "decode":
			sets++
			src := withCap(o.M.Bytes(), o.X)
			if o.Op == "set" {
				m.SetData(src)
			} else if err := m.UnmarshalVT(src); err != nil {
				return fmt.Errorf("UnmarshalVT: %w", err)
			}
			if !bytes.Equal(src, o.M.Bytes()) {
				return fmt.Errorf("operation %d (%s) changed its source", i, o.Op)
			}
			srcs = append(srcs, src)
			model = bytes.Clone(src)
			if !c.Copy {
				own = src
			}
		case "clear":
			m.Clear()
			model, own = nil, nil
		case "reset":
			m.Reset()
			model, own = nil, nil
		case "marshal":
			marshals++
			b, err := m.MarshalVT()
			if err != nil {
				return fmt.Errorf("MarshalVT: %w", err)
			}
			if !bytes.Equal(b, model) {
				return fmt.Errorf("operation %d: marshalled %s, set %s", i, show(b), show(model))
			}
			if c.Copy {
				outs, wants = append(outs, b), append(wants, bytes.Clone(b))
			} else if len(b) > 0 && len(own) > 0 && &b[0] != &own[0] {
				return fmt.Errorf("operation %d: marshalling without copying returned another slice", i)
			}
		case "sized":
			marshals++
			b := bytes.Repeat([]byte{0xee}, len(model))
			n, err := m.MarshalToSizedBufferVT(b)
			if err != nil || n != len(model) || !bytes.Equal(b, model) {
				return fmt.Errorf("operation %d: MarshalToSizedBufferVT: %d, %v, %s, set %s", i, n, err, show(b), show(model))
			}
			outs, wants = append(outs, b), append(wants, bytes.Clone(b))
		case "sizedbad":
			b := make([]byte, len(model)+1+o.X)
			if n, err := m.MarshalToSizedBufferVT(b[:max(0, len(model)-1)]); err == nil && len(model) > 0 {
				return fmt.Errorf("operation %d: marshalled %d bytes into a buffer of %d (%d)", i, len(model), len(model)-1, n)
			}
		case "spoilsrc":
			// change a slice that was given to the message.
			if c.Copy && len(srcs) > 0 {
				s := srcs[o.I%len(srcs)]
				s = s[:cap(s)]
				for j := range s {
					s[j] ^= 0x5a
				}
				in.Label("source changed")
			}
		case "spoilout":
			if len(outs) > 0 {
				k := o.I % len(outs)
				s := outs[k][:cap(outs[k])]
				for j := range s {
					s[j] ^= 0xa5
				}
				wants[k] = bytes.Clone(outs[k])
				in.Label("output changed")
			}
		case "spoilmsg":
			// change the content of the message in place.
			if d := m.GetData(); len(d) > 0 {
				d[o.I%len(d)] ^= 0x77
				model[o.I%len(d)] ^= 0x77
				in.Label("content changed in place")
			}
		}
		if d := m.GetData(); !bytes.Equal(d, model) {
			return fmt.Errorf("after operation %d (%s) the message has %s, want %s", i, o.Op, show(d), show(model))
		} else if !c.Copy && len(d) > 0 && len(own) > 0 && &d[0] != &own[0] {
			return fmt.Errorf("after operation %d (%s) the message does not use the given slice", i, o.Op)
		}
		if n := m.SizeVT(); n != len(model) {
			return fmt.Errorf("after operation %d (%s) the size is %d, want %d", i, o.Op, n, len(model))
		}
		for k := range outs {
			if !bytes.Equal(outs[k], wants[k]) {
				return fmt.Errorf("operation %d (%s) changed a slice handed out by marshalling", i, o.Op)
			}
		}
	}
	in.NonTrivial = sets > 0 && marshals > 0
	return nil
}
