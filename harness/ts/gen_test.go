package ts

import (
	"errors"
	"fmt"
	"os"
	"slices"
	"strings"
	"testing"

	"google.golang.org/protobuf/encoding/protowire"
	"pgregory.net/rapid"
	"verif/harness/vt"
)

type tgFile struct {
	Name    string `json:"name"`
	Package string `json:"package"`
}

type tgMsg struct {
	File int    `json:"file"`
	Name string `json:"name"`
}

type tgMethod struct {
	Name    string   `json:"name"`
	In      int      `json:"in"` // index of the message, -1: Empty
	Out     int      `json:"out"`
	Kind    int      `json:"kind"`
	Idem    int      `json:"idem,omitempty"`
	Comment string   `json:"comment,omitempty"`
	Reqs    []string `json:"reqs,omitempty"`
	Signal  bool     `json:"signal,omitempty"`
	Missing bool     `json:"missing,omitempty"` // not implemented
}

type tgService struct {
	File     int        `json:"file"`
	Name     string     `json:"name"`
	Comment  string     `json:"comment,omitempty"`
	Methods  []tgMethod `json:"methods,omitempty"`
	Override string     `json:"override,omitempty"`
	Opts     bool       `json:"opts,omitempty"`
	Detached bool       `json:"detached,omitempty"`
}

type tgCase struct {
	Repo     string      `json:"repo"`
	Files    []tgFile    `json:"files"`
	Msgs     []tgMsg     `json:"msgs"`
	Services []tgService `json:"services"`
	Types    bool        `json:"types,omitempty"` // check the types too
}

type tgRec struct {
	Files    []string `json:"files"`
	Diags    []string `json:"diags"`
	Services []struct {
		Type    string `json:"type"`
		Name    string `json:"name"`
		Client  bool   `json:"client"`
		Methods []struct {
			Key  string `json:"key"`
			Name string `json:"name"`
			In   int    `json:"in"`
			Out  int    `json:"out"`
			Kind int    `json:"kind"`
			Idem int    `json:"idem"`
		} `json:"methods"`
		Calls []struct {
			Method string `json:"method"`
			Asked  *struct {
				Kind    int     `json:"kind"`
				Service string  `json:"service"`
				Method  string  `json:"method"`
				Data    [][]int `json:"data"`
				Signal  string  `json:"signal"`
			} `json:"asked"`
			Fake    any      `json:"fake"`
			Got     []string `json:"got"`
			Err     string   `json:"err"`
			Handled []string `json:"handled"`
			Bound   bool     `json:"bound"`
		} `json:"calls"`
	} `json:"services"`
}

var (
	tgFileNames = []string{"a", "b", "dir/a", "dir/b", "dir/sub/c", "other/c"}
	tgPackages  = []string{"", "p", "p", "p.q", "echo.v1"}
	tgMsgNames  = []string{"Msg", "Req", "Resp", "Outer.Inner", "Outer.Inner.Deep", "EchoMsg", "Empty", "Delete"}
	tgSvcNames  = []string{"Echoer", "Svc", "Store", "lower", "With_Underscore", "Ping2"}
	tgMetNames  = []string{"Echo", "EchoServerStream", "Get", "get_it", "List", "listAll", "Watch", "Do", "delete", "Delete", "toString", "name", "X", "request", "start"}
	tgComments  = []string{"", "", "", "Does it.", "Two\nlines", "ends a comment */ export const x = 1", "`${quotes}` \"'\\", "// @ts-nocheck"}
)

func genTG(t *rapid.T) tgCase {
	var c tgCase
	c.Types = rapid.IntRange(0, 3).Draw(t, "types") == 0
	names := rapid.Permutation(tgFileNames).Draw(t, "files")
	for i := range rapid.IntRange(1, 3).Draw(t, "nfiles") {
		c.Files = append(c.Files, tgFile{Name: names[i], Package: pick(t, "package", tgPackages...)})
	}
	taken := map[string]bool{}
	free := func(file int, name string) bool {
		// a name of a message or service in a package, and of the generated code in a file.
		n := c.Files[file].Package + "|" + name
		if taken[n] {
			return false
		}
		taken[n] = true
		return true
	}
	for range rapid.IntRange(1, 5).Draw(t, "nmsgs") {
		m := tgMsg{File: rapid.IntRange(0, len(c.Files)-1).Draw(t, "file"), Name: pick(t, "msg", tgMsgNames...)}
		if free(m.File, m.Name) {
			c.Msgs = append(c.Msgs, m)
		}
	}
	msg := func(l string) int { return rapid.IntRange(-1, len(c.Msgs)-1).Draw(t, l) }
	for range rapid.IntRange(1, 3).Draw(t, "nservices") {
		s := tgService{File: rapid.IntRange(0, len(c.Files)-1).Draw(t, "file"), Name: pick(t, "service", tgSvcNames...), Comment: pick(t, "comment", tgComments...)}
		if !free(s.File, s.Name) {
			continue
		}
		s.Detached = rapid.Bool().Draw(t, "detached")
		s.Opts = rapid.Bool().Draw(t, "opts")
		if rapid.IntRange(0, 2).Draw(t, "over") == 0 {
			s.Override = pick(t, "override", "x", "prefix/p.Svc", "p.Echoer")
		}
		mnames := rapid.Permutation(tgMetNames).Draw(t, "methods")
		for i := range rapid.IntRange(0, 6).Draw(t, "nmethods") {
			m := tgMethod{Name: mnames[i], In: msg("in"), Out: msg("out"), Kind: rapid.IntRange(0, 3).Draw(t, "kind"), Comment: pick(t, "comment", tgComments...), Signal: rapid.Bool().Draw(t, "signal")}
			m.Idem = pick(t, "idem", 0, 0, 1, 2)
			m.Missing = rapid.IntRange(0, 7).Draw(t, "missing") == 0
			n := 1
			if m.Kind >= 2 {
				n = rapid.IntRange(0, 3).Draw(t, "nreqs")
			}
			for range n {
				m.Reqs = append(m.Reqs, pick(t, "req", "", "a", "bc", "\u00fc", strings.Repeat("z", 300)))
			}
			s.Methods = append(s.Methods, m)
		}
		c.Services = append(c.Services, s)
	}
	return c
}

func (c *tgCase) full(file int, name string) string {
	if p := c.Files[file].Package; p != "" {
		return p + "." + name
	}
	return name
}

// enc encodes the message with its text.
func enc(msg int, v string) []byte {
	if msg < 0 || v == "" {
		return nil
	}
	b := protowire.AppendTag(nil, protowire.Number(msg+1), protowire.BytesType)
	return protowire.AppendString(b, v)
}

func checkTG(c *tgCase) error {
	var rec tgRec
	c.Repo = os.Getenv("VT_REPO")
	if c.Repo == "" {
		c.Repo = "/repo"
	}
	r, err := run("gen", c, &rec)
	if err != nil {
		return err
	}
	if r.Error != "" {
		return errors.New(r.Error)
	}
	if r.Hang {
		return errors.New("a call never ends")
	}
	if len(rec.Diags) > 0 {
		return fmt.Errorf("the generated code is not what its definition says:\n%s", strings.Join(rec.Diags, "\n"))
	}
	var files []string
	for _, f := range c.Files {
		files = append(files, f.Name+"_srpc.pb.ts")
	}
	for _, s := range c.Services {
		if !slices.Contains(rec.Files, files[s.File]) {
			return fmt.Errorf("files %q: %s is missing", rec.Files, files[s.File])
		}
	}
	for si, s := range c.Services {
		g := rec.Services[si]
		if want := c.full(s.File, s.Name); g.Type != want || g.Name != want {
			return fmt.Errorf("service %s: type name %q, service name %q", want, g.Type, g.Name)
		}
		if g.Client != (len(s.Methods) > 0) {
			return fmt.Errorf("service %s with %d methods: client: %v", s.Name, len(s.Methods), g.Client)
		}
		if len(g.Methods) != len(s.Methods) {
			return fmt.Errorf("service %s: %d methods, want %d", s.Name, len(g.Methods), len(s.Methods))
		}
		service := s.Override
		if service == "" {
			service = c.full(s.File, s.Name)
		}
		for mi, m := range s.Methods {
			d := g.Methods[mi]
			if d.Key != m.Name || d.Name != m.Name || d.In != m.In || d.Out != m.Out || d.Kind != m.Kind || d.Idem != m.Idem {
				return fmt.Errorf("%s.%s: definition %+v, want %+v", s.Name, m.Name, d, m)
			}
			call := g.Calls[mi]
			var data [][]byte
			for _, v := range m.Reqs {
				data = append(data, enc(m.In, v))
			}
			a := call.Asked
			if a == nil {
				return fmt.Errorf("%s.%s: the client asked for nothing: %v", s.Name, m.Name, call.Fake)
			}
			signal := "none"
			if m.Signal {
				signal = "same"
			}
			if a.Kind != m.Kind || a.Service != service || a.Method != m.Name || a.Signal != signal {
				return fmt.Errorf("%s.%s: the client asked for %+v, want kind %d, service %q, signal %s", s.Name, m.Name, *a, m.Kind, service, signal)
			}
			if len(a.Data) != len(data) {
				return fmt.Errorf("%s.%s: %d messages sent, want %d", s.Name, m.Name, len(a.Data), len(data))
			}
			for i, b := range a.Data {
				got := make([]byte, len(b))
				for j, x := range b {
					got[j] = byte(x)
				}
				if string(got) != string(data[i]) {
					return fmt.Errorf("%s.%s: message %d is %q, want %q", s.Name, m.Name, i, got, data[i])
				}
			}
			if f, ok := call.Fake.([]any); !ok || len(f) != 1 || f[0] != "" {
				return fmt.Errorf("%s.%s: the answer with an empty message gave %v", s.Name, m.Name, call.Fake)
			}

			// the call on a server with the implementation.
			if m.Missing {
				if call.Err == "" || len(call.Handled) > 0 {
					return fmt.Errorf("%s.%s is not implemented: got %q, error %q, handled by %q", s.Name, m.Name, call.Got, call.Err, call.Handled)
				}
				continue
			}
			var want []string
			re := func(v string) {
				if m.Out < 0 {
					want = append(want, "")
				} else {
					want = append(want, m.Name+"("+v+")")
				}
			}
			var reqs []string
			for _, v := range m.Reqs {
				if m.In < 0 {
					v = ""
				}
				reqs = append(reqs, v)
			}
			switch m.Kind {
			case 0:
				re(reqs[0])
			case 1:
				re(reqs[0])
				re(reqs[0])
			case 2:
				var all string
				for _, v := range reqs {
					all += v + ","
				}
				re(all)
			case 3:
				for _, v := range reqs {
					re(v)
				}
			}
			if call.Err != "" || !slices.Equal(call.Got, want) {
				return fmt.Errorf("%s.%s(%q): got %q, error %q, want %q", s.Name, m.Name, reqs, call.Got, call.Err, want)
			}
			if !slices.Equal(call.Handled, []string{m.Name}) || !call.Bound {
				return fmt.Errorf("%s.%s: handled by %q, bound: %v", s.Name, m.Name, call.Handled, call.Bound)
			}
		}
	}
	return nil
}

func TestC34_Generated(t *testing.T) {
	vt.Check(t, vt.Prop[tgCase]{
		Rule:  "1-3 proto files (packages, directories) with messages (nested, of the same name in other packages, Empty) and services of 0-6 methods of all kinds with comments and idempotency; the plugin's code is type checked against a use of it (one case in four), then run: definitions, what clients ask of their rpc (service or its override, method, bytes, signal), and calls on a server with the implementation, some methods missing, methods used detached; non-trivial: a method is called",
		Quick: 2500, Thorough: 60000,
		Gen: genTG,
		Run: func(t *testing.T, c tgCase, info *vt.Info) error {
			for _, s := range c.Services {
				for _, m := range s.Methods {
					info.NonTrivial = true
					info.LabelIf(m.Missing, "not implemented")
					info.LabelIf(m.In < 0 || m.Out < 0, "Empty")
					info.Label(fmt.Sprintf("kind %d", m.Kind))
				}
				info.LabelIf(len(s.Methods) == 0, "no methods")
				info.LabelIf(s.Override != "", "override")
				info.LabelIf(s.Detached, "detached")
			}
			info.LabelIf(c.Types, "type checked")
			return checkTG(&c)
		},
	})
}

// tgReserved are the names which the generated classes and interfaces cannot have as methods.
var tgReserved = []string{"new", "constructor", "rpc", "service"}

// TestC34_Names draws only services with a method of one of these names.
func TestC34_Names(t *testing.T) {
	vt.Check(t, vt.Prop[tgCase]{
		Rule:  "as TestC34_Generated with types, the first method is named new, constructor, rpc or service; non-trivial: always",
		Quick: 40, Thorough: 400,
		Gen: func(t *rapid.T) tgCase {
			m := func(n string) tgMethod {
				return tgMethod{Name: n, Kind: rapid.IntRange(0, 3).Draw(t, "kind"), Reqs: []string{"a"}}
			}
			return tgCase{Types: true, Files: []tgFile{{Name: "a", Package: "p"}}, Msgs: []tgMsg{{Name: "Msg"}},
				Services: []tgService{{Name: "Svc", Methods: []tgMethod{m(pick(t, "name", tgReserved...)), m("Echo")}}}}
		},
		Run: func(t *testing.T, c tgCase, info *vt.Info) error {
			info.NonTrivial = true
			n := c.Services[0].Methods[0].Name
			info.Label(n)
			if err := checkTG(&c); err != nil {
				return fmt.Errorf("a service with a method named %q: %w", n, err)
			}
			return nil
		},
	})
}
