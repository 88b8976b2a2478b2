package real

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"
	"pgregory.net/rapid"
	"verif/harness/vt"
)

type gMethod struct {
	Name    string `json:"name"`
	In      int    `json:"in"` // index into the messages of the case
	Out     int    `json:"out"`
	CS      bool   `json:"cs,omitempty"`
	SS      bool   `json:"ss,omitempty"`
	Comment string `json:"comment,omitempty"`
	Trail   string `json:"trail,omitempty"`
}

type gService struct {
	Name    string    `json:"name"`
	Comment string    `json:"comment,omitempty"`
	Methods []gMethod `json:"methods"`
}

// gMsg is a message. Its index is its position in the case.
type gMsg struct {
	Name  string `json:"name"`            // "Outer.Inner" is nested
	Empty bool   `json:"empty,omitempty"` // has no body
}

type gFile struct {
	Dir      int        `json:"dir"`
	Name     string     `json:"name"`
	Syntax   string     `json:"syntax"`
	Msgs     []gMsg     `json:"msgs,omitempty"`
	Services []gService `json:"services,omitempty"`
}

type gDir struct {
	Path    string `json:"path"`             // directory, under the module
	Package string `json:"package"`          // protobuf package
	GoName  string `json:"goname,omitempty"` // explicit Go package name
}

func (d gDir) goName() string {
	if d.GoName != "" {
		return d.GoName
	}
	n := d.Path[strings.LastIndexByte(d.Path, '/')+1:]
	if n == "go" {
		n = "gopkg"
	}
	return n
}

type gCase struct {
	Dirs  []gDir  `json:"dirs"`
	Files []gFile `json:"files"`
	Param string  `json:"param,omitempty"`
	Each  bool    `json:"each,omitempty"` // one run of the plugin for each file
	Seed  int     `json:"seed,omitempty"`
}

const genModule = "verif.example/gen"

// goCamel is the documented name mapping of protobuf for Go.
func goCamel(s string) string {
	lower := func(c byte) bool { return 'a' <= c && c <= 'z' }
	digit := func(c byte) bool { return '0' <= c && c <= '9' }
	var b []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '.' && i+1 < len(s) && lower(s[i+1]):
		case c == '.':
			b = append(b, '_')
		case c == '_' && (i == 0 || s[i-1] == '.'):
			b = append(b, 'X')
		case c == '_' && i+1 < len(s) && lower(s[i+1]):
		case digit(c):
			b = append(b, c)
		default:
			if lower(c) {
				c -= 'a' - 'A'
			}
			b = append(b, c)
			for ; i+1 < len(s) && lower(s[i+1]); i++ {
				b = append(b, s[i+1])
			}
		}
	}
	return string(b)
}

// localNames are Go package names which generated code also uses for
// parameters and variables of functions that mention message types.
var localNames = []string{"c", "d", "x", "in", "impl", "strm"}

var svcStyles = []string{"Echo%d", "echo%d", "echo_svc%d", "ECHO%d", "Echo_Svc%d", "eCHO%d", "_e%d", "A_b_C%d", "Svc%d_", "s%dx"}
var metStyles = []string{"Get%d", "get%d", "get_thing%d", "getThing%d", "GET%d", "_m%d", "do_%d", "M_%d_x", "A%dB", "Call%dClient", "x__%d", "Get_%d", "get%d_Stream"}
var metLits = []string{"Close", "Send", "Recv", "Context", "MsgSend", "MsgRecv", "String", "InvokeMethod", "GetServiceID", "GetMethodIDs", "type", "func", "error", "nil", "init", "Stream", "Client", "close_send", "Error"}
var comments = []string{"", "", " simple\n", " two\n lines\n", "no space\n", " ends a comment */ here\n", " /* opens\n", " // slashes\n", "\n blank line first\n", " blank line last\n\n", " quotes \" ` ' \\ \\n\n", " percent %s %d %!v(MISSING)\n", "/ three slashes\n", " tab\tand ünïcödé ☃\n", "*\n * javadoc\n * style\n", " no newline", "// starts with slashes\n", " func (c *X) Y() {}\n", " one\n\n\n two }\n"}

func genProto(t *rapid.T) gCase {
	return genProtoNames(t, "", "", "", "fmt", "context", "srpc", "other", "errors")
}

func genProtoNames(t *rapid.T, names ...string) gCase {
	c := gCase{Param: pick(t, "param", "", "paths=source_relative", "module="+genModule, "paths=import"), Each: rapid.Bool().Draw(t, "each"), Seed: rapid.IntRange(0, 1000).Draw(t, "seed")}
	dirs := []string{"a", "b/msg", "c/msg", "x-y.z/v1", "srpc", "context", "go", "d/e/f"}
	pkgs := []string{"", "p", "my.pkg", "My.Pkg.v1", "snake_pkg.x", "google", "srpc"}
	nd := pick(t, "ndirs", 1, 1, 2, 3)
	perm := rapid.Permutation(dirs).Draw(t, "dirs")
	pperm := rapid.Permutation(pkgs).Draw(t, "pkgs")
	for i := range nd {
		c.Dirs = append(c.Dirs, gDir{Path: perm[i], Package: pperm[i], GoName: pick(t, "goname", names...)})
	}
	k, last := 0, 0
	total := 1 // message 0 is google.protobuf.Empty
	for i := range pick(t, "nfiles", 1, 2, 2, 3, 4) {
		// (files use only messages of earlier ones: directories do not import each other in a cycle.)
		f := gFile{Dir: rapid.IntRange(last, nd-1).Draw(t, "dir"), Name: fmt.Sprintf(pick(t, "fname", "f%d", "file_%d", "my-file%d", "File.v%d"), i), Syntax: "proto3"}
		if i == 0 {
			f.Dir = 0
		}
		last = f.Dir
		for range pick(t, "nmsgs", 0, 1, 2, 4) {
			n := fmt.Sprintf(pick(t, "msg", "Msg%d", "msg%d", "my_msg%d", "Outer%d.Inner", "outer%d.in_ner", "MSG_%d", "_msg%d", "Stream%d"), total)
			f.Msgs = append(f.Msgs, gMsg{Name: n, Empty: rapid.IntRange(0, 4).Draw(t, "empty") == 0})
			total++
		}
		for range pick(t, "nsvcs", 0, 1, 1, 2, 3) {
			k++
			s := gService{Name: fmt.Sprintf(pick(t, "svc", svcStyles...), k), Comment: pick(t, "scomment", comments...)}
			used := map[string]bool{}
			lits := rapid.Permutation(metLits).Draw(t, "lits")
			for j := range pick(t, "nmets", 0, 1, 2, 3, 5) {
				m := gMethod{
					In: rapid.IntRange(0, total-1).Draw(t, "in"), Out: rapid.IntRange(0, total-1).Draw(t, "out"),
					CS: rapid.Bool().Draw(t, "cs"), SS: rapid.Bool().Draw(t, "ss"),
					Comment: pick(t, "comment", comments...), Trail: pick(t, "trail", comments...),
				}
				if rapid.IntRange(0, 3).Draw(t, "lit") == 0 {
					m.Name = lits[j]
				} else {
					m.Name = fmt.Sprintf(pick(t, "met", metStyles...), j)
				}
				if used[goCamel(m.Name)] {
					continue // the same name in Go
				}
				used[goCamel(m.Name)] = true
				s.Methods = append(s.Methods, m)
			}
			f.Services = append(f.Services, s)
		}
		if len(f.Msgs) == 0 && rapid.Bool().Draw(t, "proto2") {
			f.Syntax = "proto2"
		}
		c.Files = append(c.Files, f)
	}
	return c
}

// gType is a message type of the case.
type gType struct {
	Full  string // protobuf name
	File  string // file which declares it
	Go    string // Go name with the alias of the runner
	Empty bool
	Mk    string // Go expression of a message with body s
	Get   string // Go expression of the body of m
}

type gRunSvc struct {
	Alias, Go, Full string
	Methods         []gMethod
}

func dirPath(d gDir) string   { return genModule + "/" + d.Path }
func protoPath(d gDir) string { return dirPath(d) }

func runGen(c gCase) error {
	tools, err := genTools()
	if err != nil {
		return vt.Infra(err)
	}
	work, err := os.MkdirTemp(os.Getenv("VT_WORK"), "gen-")
	if err != nil {
		return vt.Infra(err)
	}
	defer os.RemoveAll(work)

	// the descriptors
	types := []gType{{Full: ".google.protobuf.Empty", File: "google/protobuf/empty.proto", Go: "emptypb.Empty", Empty: true}}
	const known = "github.com/aperturerobotics/protobuf-go-lite/types/known/emptypb"
	all := []*descriptorpb.FileDescriptorProto{{
		Name: proto.String("google/protobuf/empty.proto"), Package: proto.String("google.protobuf"), Syntax: proto.String("proto3"),
		Options:     &descriptorpb.FileOptions{GoPackage: proto.String(known)},
		MessageType: []*descriptorpb.DescriptorProto{{Name: proto.String("Empty")}},
	}}
	imports := map[string]string{known: "emptypb"}
	var svcs []gRunSvc
	var toGen []string
	local := ""
	for i, f := range c.Files {
		d := c.Dirs[f.Dir]
		fd := &descriptorpb.FileDescriptorProto{Name: proto.String(protoPath(d) + "/" + f.Name + ".proto"), Syntax: proto.String(f.Syntax), SourceCodeInfo: &descriptorpb.SourceCodeInfo{}}
		if d.Package != "" {
			fd.Package = proto.String(d.Package)
		}
		// (the message generator does not derive the name as the standard one does.)
		gp := dirPath(d) + ";" + d.goName()
		fd.Options = &descriptorpb.FileOptions{GoPackage: proto.String(gp)}
		prefix := "."
		if d.Package != "" {
			prefix += d.Package + "."
		}
		alias := fmt.Sprintf("pkg%d", f.Dir)
		body := func() []*descriptorpb.FieldDescriptorProto {
			return []*descriptorpb.FieldDescriptorProto{{Name: proto.String("body"), JsonName: proto.String("body"), Number: proto.Int32(1), Type: descriptorpb.FieldDescriptorProto_TYPE_STRING.Enum(), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()}}
		}
		for _, m := range f.Msgs {
			outer, inner, nested := strings.Cut(m.Name, ".")
			md := &descriptorpb.DescriptorProto{Name: proto.String(outer)}
			in := md
			if nested {
				in = &descriptorpb.DescriptorProto{Name: proto.String(inner)}
				md.NestedType = append(md.NestedType, in)
			}
			if !m.Empty {
				in.Field = body()
			}
			fd.MessageType = append(fd.MessageType, md)
			types = append(types, gType{Full: prefix + m.Name, File: fd.GetName(), Go: alias + "." + goCamel(m.Name), Empty: m.Empty})
			imports[dirPath(d)] = alias
		}
		deps := map[string]bool{}
		for si, s := range f.Services {
			sd := &descriptorpb.ServiceDescriptorProto{Name: proto.String(s.Name)}
			loc := func(path []int32, lead, trail string) {
				l := &descriptorpb.SourceCodeInfo_Location{Path: path, Span: []int32{1, 1, 2}}
				if lead != "" {
					l.LeadingComments = proto.String(lead)
				}
				if trail != "" {
					l.TrailingComments = proto.String(trail)
				}
				fd.SourceCodeInfo.Location = append(fd.SourceCodeInfo.Location, l)
			}
			loc([]int32{6, int32(si)}, s.Comment, "")
			for mi, m := range s.Methods {
				md := &descriptorpb.MethodDescriptorProto{Name: proto.String(m.Name), InputType: proto.String(types[m.In].Full), OutputType: proto.String(types[m.Out].Full)}
				if m.CS {
					md.ClientStreaming = proto.Bool(true)
				}
				if m.SS {
					md.ServerStreaming = proto.Bool(true)
				}
				sd.Method = append(sd.Method, md)
				loc([]int32{6, int32(si), 2, int32(mi)}, m.Comment, m.Trail)
				for _, t := range []gType{types[m.In], types[m.Out]} {
					if t.File != fd.GetName() && !deps[t.File] {
						deps[t.File] = true
						fd.Dependency = append(fd.Dependency, t.File)
					}
					for _, x := range c.Dirs {
						if strings.HasPrefix(t.File, protoPath(x)+"/") && x != d {
							for _, n := range localNames {
								if x.GoName == n {
									local = n
								}
							}
						}
					}
				}
			}
			fd.Service = append(fd.Service, sd)
			svcs = append(svcs, gRunSvc{Alias: alias, Go: goCamel(s.Name), Full: strings.TrimPrefix(prefix, ".") + s.Name, Methods: s.Methods})
			imports[dirPath(d)] = alias
		}
		all = append(all, fd)
		toGen = append(toGen, fd.GetName())
		_ = i
	}
	// run the plugins
	var reqs [][]string
	if c.Each {
		for _, f := range toGen {
			reqs = append(reqs, []string{f})
		}
	} else {
		reqs = append(reqs, toGen)
	}
	outDir := filepath.Join(work, "out")
	want := map[string]bool{}
	prefixOf := func(f string) string {
		p := strings.TrimSuffix(f, ".proto")
		if strings.HasPrefix(c.Param, "module=") {
			p = strings.TrimPrefix(p, genModule+"/")
		}
		return p
	}
	got := map[string]bool{}
	for _, files := range reqs {
		req := &pluginpb.CodeGeneratorRequest{FileToGenerate: files, ProtoFile: all}
		req.Parameter = proto.String(strings.Join(nonEmpty("features=marshal+unmarshal+size+equal+json+clone+text", c.Param), ","))
		resp, err := runPlugin(tools.lite, req)
		if err != nil || resp.Error != nil {
			return vt.Infra(fmt.Errorf("the message generator failed: %v %s", err, resp.GetError()))
		}
		for _, f := range resp.File {
			if err := writeGen(outDir, c.Param, f); err != nil {
				return vt.Infra(err)
			}
		}
		req.Parameter = proto.String(c.Param)
		resp, err = runPlugin(tools.srpc, req)
		if err != nil {
			return err
		}
		if resp.Error != nil {
			return fmt.Errorf("the generator reports: %s", resp.GetError())
		}
		if resp.GetSupportedFeatures()&uint64(pluginpb.CodeGeneratorResponse_FEATURE_PROTO3_OPTIONAL) == 0 {
			return fmt.Errorf("the generator does not support proto3 optional fields")
		}
		for _, f := range resp.File {
			if got[f.GetName()] {
				return fmt.Errorf("file %s is generated twice", f.GetName())
			}
			got[f.GetName()] = true
			if err := writeGen(outDir, c.Param, f); err != nil {
				return err
			}
		}
		for _, n := range files {
			for i, f := range c.Files {
				if toGen[i] == n && len(f.Services) > 0 {
					want[prefixOf(n)+"_srpc.pb.go"] = true
				}
			}
		}
	}
	if fmt.Sprint(keys(got)) != fmt.Sprint(keys(want)) {
		return fmt.Errorf("the generator wrote %v, want %v", keys(got), keys(want))
	}
	// the program which calls every method
	for i := range types {
		t := &types[i]
		if t.Empty {
			t.Mk, t.Get = "&"+t.Go+"{}", `""`
		} else {
			t.Mk, t.Get = "&"+t.Go+"{Body: s}", "m.GetBody()"
		}
	}
	// the committed bindings of the sample services
	base := len(types)
	types = append(types,
		gType{Go: "echo.EchoMsg", Mk: "&echo.EchoMsg{Body: s}", Get: "m.GetBody()"},
		gType{Go: "mock.MockMsg", Mk: "&mock.MockMsg{Body: s}", Get: "m.GetBody()"},
		gType{Go: "rpcstream.RpcStreamPacket", Mk: "&rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Data{Data: []byte(s)}}", Get: "string(m.GetData())"},
	)
	imports["github.com/aperturerobotics/starpc/echo"] = "echo"
	imports["github.com/aperturerobotics/starpc/mock"] = "mock"
	imports["github.com/aperturerobotics/starpc/rpcstream"] = "rpcstream"
	e, k, r := base, base+1, base+2
	svcs = append(svcs, gRunSvc{Alias: "echo", Go: "Echoer", Full: "echo.Echoer", Methods: []gMethod{
		{Name: "Echo", In: e, Out: e}, {Name: "EchoServerStream", In: e, Out: e, SS: true}, {Name: "EchoClientStream", In: e, Out: e, CS: true},
		{Name: "EchoBidiStream", In: e, Out: e, CS: true, SS: true}, {Name: "RpcStream", In: r, Out: r, CS: true, SS: true}, {Name: "DoNothing"}}},
		gRunSvc{Alias: "mock", Go: "Mock", Full: "e2e.mock.Mock", Methods: []gMethod{{Name: "MockRequest", In: k, Out: k}}})
	if err := writeRunner(work, c, types, svcs, imports); err != nil {
		return vt.Infra(err)
	}
	if err := os.WriteFile(filepath.Join(work, "go.mod"), tools.mod, 0o644); err != nil {
		return vt.Infra(err)
	}
	if err := os.WriteFile(filepath.Join(work, "go.sum"), tools.sum, 0o644); err != nil {
		return vt.Infra(err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", "build", "-gcflags=-e", "-o", filepath.Join(work, "runner.bin"), "./runner")
	cmd.Dir = work
	if b, err := cmd.CombinedOutput(); err != nil {
		if ctx.Err() != nil {
			return vt.Infra(ctx.Err())
		}
		if regexp.MustCompile(`(?m)^\S*\.pb\.go:`).Match(b) && !bytes.Contains(b, []byte("_srpc.pb.go:")) {
			return vt.Infra(fmt.Errorf("the message code does not compile: %s", tail(b)))
		}
		if local != "" {
			return fmt.Errorf("generated code using messages of a Go package named %q does not compile (the name is also one of its variables): %s", local, tail(b))
		}
		return fmt.Errorf("the generated code does not compile, or lacks a declaration that its services need: %s", tail(b))
	}
	cmd = exec.CommandContext(ctx, filepath.Join(work, "runner.bin"))
	cmd.Dir = work
	b, err := cmd.CombinedOutput()
	if err != nil {
		if ctx.Err() != nil {
			return fmt.Errorf("calling the generated code blocks")
		}
		return fmt.Errorf("calling the generated code: %w: %s", err, tail(b))
	}
	if !bytes.Contains(b, []byte("ALL OK")) {
		return vt.Infra(fmt.Errorf("the runner printed %s", tail(b)))
	}
	return nil
}

func nonEmpty(s ...string) (out []string) {
	for _, x := range s {
		if x != "" {
			out = append(out, x)
		}
	}
	return
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func tail(b []byte) string {
	if len(b) > 3000 {
		b = b[:3000]
	}
	return string(b)
}

// writeGen writes a generated file to its directory in the module.
func writeGen(dir, param string, f *pluginpb.CodeGeneratorResponse_File) error {
	n := f.GetName()
	if !strings.HasPrefix(param, "module=") {
		r, ok := strings.CutPrefix(n, genModule+"/")
		if !ok {
			return fmt.Errorf("generated file %q is not in its package", n)
		}
		n = r
	}
	if !filepath.IsLocal(n) {
		return fmt.Errorf("bad name of a generated file: %q", n)
	}
	to := filepath.Join(filepath.Dir(dir), n)
	if err := os.MkdirAll(filepath.Dir(to), 0o755); err != nil {
		return err
	}
	return os.WriteFile(to, []byte(f.GetContent()), 0o644)
}

func runPlugin(bin string, req *pluginpb.CodeGeneratorRequest) (*pluginpb.CodeGeneratorResponse, error) {
	in, err := proto.Marshal(req)
	if err != nil {
		return nil, vt.Infra(err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), patience)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin)
	cmd.Stdin = bytes.NewReader(in)
	var out, errOut bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errOut
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("the generator failed: %w: %s", err, tail(errOut.Bytes()))
	}
	var resp pluginpb.CodeGeneratorResponse
	if err := proto.Unmarshal(out.Bytes(), &resp); err != nil {
		return nil, fmt.Errorf("the generator wrote no response: %w", err)
	}
	return &resp, nil
}

type genToolset struct {
	lite, srpc string
	mod, sum   []byte
}

var genTools = sync.OnceValues(func() (*genToolset, error) {
	work, err := os.MkdirTemp(os.Getenv("VT_WORK"), "gentools-")
	if err != nil {
		return nil, err
	}
	verif, repo := os.Getenv("VT_VERIF"), os.Getenv("VT_REPO")
	if verif == "" {
		verif, repo = "/verif", "/repo"
	}
	mod, err := os.ReadFile(filepath.Join(verif, "harness", "go.mod"))
	if err != nil {
		return nil, err
	}
	sum, err := os.ReadFile(filepath.Join(verif, "harness", "go.sum"))
	if err != nil {
		return nil, err
	}
	m := regexp.MustCompile(`=> /repo\b`).ReplaceAll(mod, []byte("=> "+repo))
	m = bytes.Replace(m, []byte("module verif/harness"), []byte("module "+genModule), 1)
	t := &genToolset{lite: filepath.Join(work, "lite"), srpc: filepath.Join(work, "srpc"), mod: m, sum: sum}
	if err := os.WriteFile(filepath.Join(work, "go.mod"), m, 0o644); err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(work, "go.sum"), sum, 0o644); err != nil {
		return nil, err
	}
	for bin, pkg := range map[string]string{
		t.lite: "github.com/aperturerobotics/protobuf-go-lite/cmd/protoc-gen-go-lite",
		t.srpc: "github.com/aperturerobotics/starpc/cmd/protoc-gen-go-starpc",
	} {
		cmd := exec.Command("go", "build", "-o", bin, pkg)
		cmd.Dir = work
		if b, err := cmd.CombinedOutput(); err != nil {
			return nil, fmt.Errorf("building %s: %w: %s", pkg, err, tail(b))
		}
	}
	return t, nil
})

func TestC23_Generated(t *testing.T) {
	vt.Check(t, vt.Prop[gCase]{
		Rule:  "1-4 .proto files (as descriptors, with comments) in 1-3 Go packages with 0-3 services each of 0-5 methods of all streaming shapes in drawn naming styles, whose messages come from the same file, other files, other packages, the well-known types or are nested; the plugin built from the tree runs with drawn parameters, its output is compiled with the messages, and a program calls every method through the generated client and a server with the generated registration (default and custom service ID), and every method of the committed sample bindings; non-trivial: at least one method",
		Quick: 96, Thorough: 1200, Real: true, Hang: 12 * time.Minute,
		Gen: genProto,
		Run: func(t *testing.T, c gCase, in *vt.Info) error {
			for _, f := range c.Files {
				for _, s := range f.Services {
					for _, m := range s.Methods {
						in.NonTrivial = true
						in.Label(fmt.Sprintf("method: client streams %v, server streams %v", m.CS, m.SS))
					}
					in.Label("service")
				}
			}
			in.Label("param: " + c.Param)
			in.LabelIf(len(c.Dirs) > 1, "several Go packages")
			return runGen(c)
		},
	})
}

// TestC23_LocalNames draws only cases whose messages come from a Go package
// named like a variable of the generated code.
func TestC23_LocalNames(t *testing.T) {
	vt.Check(t, vt.Prop[gCase]{
		Rule:  "as TestC23_Generated, with Go packages named as the parameters and variables of generated functions; non-trivial: a method",
		Quick: 8, Thorough: 64, Real: true, Hang: 12 * time.Minute,
		Gen: func(t *rapid.T) gCase {
			c := genProtoNames(t, localNames...)
			// a package of messages, and one with a service which uses them.
			c.Dirs = []gDir{{Path: "m/x", Package: "m", GoName: pick(t, "name", localNames...)}, {Path: "s/y", Package: "s"}}
			c.Files = []gFile{
				{Dir: 0, Name: "m", Syntax: "proto3", Msgs: []gMsg{{Name: "M"}}},
				{Dir: 1, Name: "s", Syntax: "proto3", Services: []gService{{Name: "S", Methods: []gMethod{
					{Name: "Call", In: 1, Out: 1}, {Name: "Up", In: 1, Out: 1, CS: true}, {Name: "Down", In: 1, Out: 1, SS: true}, {Name: "Talk", In: 1, Out: 1, CS: true, SS: true}}}}},
			}
			return c
		},
		Run: func(t *testing.T, c gCase, in *vt.Info) error {
			in.NonTrivial = true
			in.Label("Go package " + c.Dirs[0].GoName)
			return runGen(c)
		},
	})
}

// writeRunner writes the program which calls every method.
func writeRunner(work string, c gCase, types []gType, svcs []gRunSvc, imports map[string]string) error {
	var b strings.Builder
	p := func(f string, a ...any) { fmt.Fprintf(&b, f+"\n", a...) }
	p("package main")
	p("import (")
	var ips []string
	for ip := range imports {
		ips = append(ips, ip)
	}
	sort.Strings(ips)
	for _, ip := range ips {
		p("%s %q", imports[ip], ip)
	}
	p(`"context"`)
	p(`"github.com/aperturerobotics/starpc/srpc"`)
	p(")")
	for _, ip := range ips {
		a := imports[ip]
		switch {
		case a == "emptypb":
			p("var _ emptypb.Empty")
		}
	}
	for i, t := range types {
		p("func mk%d(s string) *%s { _ = s; return %s }", i, t.Go, t.Mk)
		p("func get%d(m *%s) string { return %s }", i, t.Go, t.Get)
	}
	for i, s := range svcs {
		pre := s.Alias + "."
		p("type impl%d struct{}", i)
		p("var _ %sSRPC%sServer = impl%d{}", pre, s.Go, i)
		for j, m := range s.Methods {
			g := goCamel(m.Name)
			id := fmt.Sprintf("%d/%d", i, j)
			in, out := types[m.In].Go, types[m.Out].Go
			stream := pre + "SRPC" + strings.ReplaceAll(s.Go, "_", "__") + "_" + strings.ReplaceAll(g, "_", "__") + "Stream"
			switch {
			case !m.CS && !m.SS:
				p("func (impl%d) %s(ctx context.Context, in *%s) (*%s, error) {", i, g, in, out)
				p("s, err := unary(ctx, %q, get%d(in))", id, m.In)
				p("if err != nil { return nil, err }")
				p("return mk%d(s), nil }", m.Out)
			case m.CS && !m.SS:
				p("func (impl%d) %s(strm %s) (*%s, error) {", i, g, stream, out)
				p("s, err := collect(strm, %q, recvF(strm.Recv, strm.RecvTo, func() *%s { return new(%s) }, get%d))", id, in, in, m.In)
				p("if err != nil { return nil, err }")
				p("return mk%d(s), nil }", m.Out)
			case !m.CS && m.SS:
				p("func (impl%d) %s(in *%s, strm %s) error {", i, g, in, stream)
				p("return produce(strm, %q, get%d(in), func(s string) error { return strm.Send(mk%d(s)) }, func(s string) error { return strm.SendAndClose(mk%d(s)) }) }", id, m.In, m.Out, m.Out)
			default:
				p("func (impl%d) %s(strm %s) error {", i, g, stream)
				p("return converse(strm, %q, recvF(strm.Recv, strm.RecvTo, func() *%s { return new(%s) }, get%d), func(s string) error { return strm.Send(mk%d(s)) }, func(s string) error { return strm.SendAndClose(mk%d(s)) }) }", id, in, in, m.In, m.Out, m.Out)
			}
		}
		p("func clients%d(cc srpc.Client, id string, has bool) (out []method) {", i)
		p("cl := %sNewSRPC%sClient(cc)", pre, s.Go)
		p("if has { cl = %sNewSRPC%sClientWithServiceID(cc, id) }", pre, s.Go)
		p("check(cl.SRPCClient() == cc, \"SRPCClient of service %d\")", i)
		for j, m := range s.Methods {
			g := goCamel(m.Name)
			hi, ho := !types[m.In].Empty, !types[m.Out].Empty
			p("out = append(out, method{id: \"%d/%d\", name: %q, in: %v, out: %v,", i, j, m.Name, hi, ho)
			switch {
			case !m.CS && !m.SS:
				p("unary: func(ctx context.Context, s string) (string, error) { m, err := cl.%s(ctx, mk%d(s)); if err != nil { if m != nil { panic(\"message with error\") }; return \"\", err }; return get%d(m), nil },", g, m.In, m.Out)
				p("wire: func(ctx context.Context, svc, met, s string) (string, error) { m := mk%d(\"\"); err := cc.ExecCall(ctx, svc, met, mk%d(s), m); return get%d(m), err },", m.Out, m.In, m.Out)
			case m.CS && !m.SS:
				p("cstream: func(ctx context.Context) (clientStream, error) { st, err := cl.%s(ctx); if err != nil { return clientStream{}, err }", g)
				p("return clientStream{Stream: st, send: func(s string) error { return st.Send(mk%d(s)) }, closeRecv: func() (string, error) { m, err := st.CloseAndRecv(); if err != nil { return \"\", err }; return get%d(m), nil }}, nil },", m.In, m.Out)
			case !m.CS && m.SS:
				p("sstream: func(ctx context.Context, s string) (clientStream, error) { st, err := cl.%s(ctx, mk%d(s)); if err != nil { return clientStream{}, err }", g, m.In)
				p("return clientStream{Stream: st, recv: recvF(st.Recv, st.RecvTo, func() *%s { return new(%s) }, get%d)}, nil },", types[m.Out].Go, types[m.Out].Go, m.Out)
			default:
				p("bidi: func(ctx context.Context) (clientStream, error) { st, err := cl.%s(ctx); if err != nil { return clientStream{}, err }", g)
				p("return clientStream{Stream: st, send: func(s string) error { return st.Send(mk%d(s)) }, recv: recvF(st.Recv, st.RecvTo, func() *%s { return new(%s) }, get%d)}, nil },", m.In, types[m.Out].Go, types[m.Out].Go, m.Out)
			}
			p("})")
		}
		p("return out }")
	}
	p("var seed = %d", c.Seed)
	p("var services = []service{")
	for i, s := range svcs {
		p("{full: %q, id: %s.SRPC%sServiceID, register: func(m srpc.Mux) error { return %s.SRPCRegister%s(m, impl%d{}) }, handler: func(id string) srpc.Handler { return %s.NewSRPC%sHandler(impl%d{}, id) }, clients: clients%d},", s.Full, s.Alias, s.Go, s.Alias, s.Go, i, s.Alias, s.Go, i, i)
	}
	p("}")
	if err := os.MkdirAll(filepath.Join(work, "runner"), 0o755); err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(work, "runner", "main.go"), []byte(b.String()), 0o644); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(work, "runner", "common.go"), []byte(runnerCommon), 0o644)
}

var _ = path.Join
