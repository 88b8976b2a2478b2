package real

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
	"google.golang.org/protobuf/encoding/protowire"
	"pgregory.net/rapid"
	"verif/harness/vt"
)

type wOp struct {
	G    int    `json:"g"`
	Kind string `json:"k"`
	A    string `json:"a,omitempty"`
	B    string `json:"b,omitempty"`
	Data []byte `json:"d,omitempty"`
	Zero bool   `json:"z,omitempty"`
	Done bool   `json:"c,omitempty"`
	Err  string `json:"e,omitempty"`
	Wipe bool   `json:"w,omitempty"`
}

type wCall struct {
	Unary bool     `json:"u,omitempty"`
	Msgs  [][]byte `json:"m,omitempty"`
	Err   string   `json:"e,omitempty"`
	Async bool     `json:"a,omitempty"`
	Drop  bool     `json:"x,omitempty"`
}

type wCase struct {
	Ops   []wOp   `json:"ops,omitempty"`
	Calls []wCall `json:"calls,omitempty"`
}

type wOut struct {
	Errs   []string `json:"errs"`
	Order  []int    `json:"order"`
	Events []struct {
		Kind  string `json:"k"`
		Args  int    `json:"n"`
		Type  string `json:"t"`
		Data  []byte `json:"d"`
		After []byte `json:"da"`
	} `json:"events"`
	Fails []string `json:"fails"`
}

// wire is the encoding of the packet, by the protocol's definition.
func (o wOp) wire() []byte {
	var in, out []byte
	str := func(b []byte, n protowire.Number, s []byte) []byte {
		if len(s) == 0 {
			return b
		}
		return protowire.AppendBytes(protowire.AppendTag(b, n, protowire.BytesType), s)
	}
	flag := func(b []byte, n protowire.Number, v bool) []byte {
		if !v {
			return b
		}
		return protowire.AppendVarint(protowire.AppendTag(b, n, protowire.VarintType), 1)
	}
	n := protowire.Number(0)
	switch o.Kind {
	case "start":
		n = 1
		in = flag(str(str(str(nil, 1, []byte(o.A)), 2, []byte(o.B)), 3, o.Data), 4, o.Zero)
	case "data":
		n = 2
		in = str(flag(flag(str(nil, 1, o.Data), 2, o.Zero), 3, o.Done), 4, []byte(o.Err))
	case "none":
		return []byte{}
	case "false":
		return protowire.AppendVarint(protowire.AppendTag(nil, 3, protowire.VarintType), 0)
	default:
		return protowire.AppendVarint(protowire.AppendTag(nil, 3, protowire.VarintType), 1)
	}
	out = protowire.AppendTag(out, n, protowire.BytesType)
	return protowire.AppendBytes(out, in)
}

func genWasm(t *rapid.T) wCase {
	var c wCase
	data := func(label string) []byte {
		switch rapid.IntRange(0, 9).Draw(t, label) {
		case 0, 1:
			return nil
		case 2:
			return bytes.Repeat([]byte{byte(rapid.IntRange(0, 255).Draw(t, "b"))}, rapid.IntRange(1, 70000).Draw(t, "big"))
		}
		return rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(t, "data")
	}
	if rapid.IntRange(0, 3).Draw(t, "calls") == 0 {
		for range rapid.IntRange(1, 4).Draw(t, "ncalls") {
			x := wCall{Unary: rapid.Bool().Draw(t, "unary"), Async: rapid.Bool().Draw(t, "async"), Drop: rapid.IntRange(0, 5).Draw(t, "drop") == 0}
			for range rapid.IntRange(0, 5).Draw(t, "nmsgs") {
				x.Msgs = append(x.Msgs, data("msg"))
			}
			if !x.Unary && rapid.Bool().Draw(t, "haserr") {
				x.Err = pick(t, "err", "failed", "an error: x", "ünïcödé")
			}
			c.Calls = append(c.Calls, x)
		}
		return c
	}
	gs := pick(t, "gs", 1, 1, 2, 4)
	for range rapid.IntRange(1, 14).Draw(t, "nops") {
		o := wOp{G: rapid.IntRange(0, gs-1).Draw(t, "g"), Kind: pick(t, "kind", "data", "data", "data", "data", "start", "start", "cancel", "close", "close", "none", "false")}
		switch o.Kind {
		case "start":
			o.A, o.B = pick(t, "svc", "s", "svc.name", "ß"), pick(t, "met", "m", "Method")
			o.Data = data("first")
			o.Zero = len(o.Data) == 0 && rapid.Bool().Draw(t, "zero")
		case "data":
			o.Data = data("data")
			o.Done = rapid.IntRange(0, 3).Draw(t, "done") == 0
			if rapid.IntRange(0, 3).Draw(t, "haserr") == 0 {
				o.Err = pick(t, "err", "failed", "ü")
				o.Done = true
			}
			o.Zero = len(o.Data) == 0 && (!o.Done || rapid.Bool().Draw(t, "zero2"))
		}
		o.Wipe = len(o.Data) > 0 && rapid.Bool().Draw(t, "wipe")
		c.Ops = append(c.Ops, o)
	}
	return c
}

// wasm is the running program.
var wasm struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *bytes.Buffer
}

var buildWasm = sync.OnceValues(func() (string, error) {
	work, err := os.MkdirTemp(os.Getenv("VT_WORK"), "wasm-")
	if err != nil {
		return "", err
	}
	verif, repo := os.Getenv("VT_VERIF"), os.Getenv("VT_REPO")
	if verif == "" {
		verif, repo = "/verif", "/repo"
	}
	h := filepath.Join(verif, "harness")
	mod, err := os.ReadFile(filepath.Join(h, "go.mod"))
	if err != nil {
		return "", err
	}
	sum, err := os.ReadFile(filepath.Join(h, "go.sum"))
	if err != nil {
		return "", err
	}
	mod = bytes.ReplaceAll(mod, []byte("=> /repo\n"), []byte("=> "+repo+"\n"))
	if err := os.WriteFile(filepath.Join(work, "go.mod"), mod, 0o644); err != nil {
		return "", err
	}
	if err := os.WriteFile(filepath.Join(work, "go.sum"), sum, 0o644); err != nil {
		return "", err
	}
	to := filepath.Join(work, "run.wasm")
	cmd := exec.Command("go", "build", "-modfile", filepath.Join(work, "go.mod"), "-o", to, "./wasmrun")
	cmd.Dir = h
	cmd.Env = append(os.Environ(), "GOOS=js", "GOARCH=wasm")
	if b, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("building the program for JavaScript: %w: %s", err, tail(b))
	}
	return to, nil
})

func startWasm() error {
	bin, err := buildWasm()
	if err != nil {
		return vt.Infra(err)
	}
	root, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return vt.Infra(err)
	}
	cmd := exec.Command("node", "--stack-size=8192", filepath.Join(strings.TrimSpace(string(root)), "lib", "wasm", "wasm_exec_node.js"), bin)
	// (the environment must be small.)
	cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + os.Getenv("HOME")}
	wasm.err = &bytes.Buffer{}
	cmd.Stderr = wasm.err
	in, err := cmd.StdinPipe()
	if err != nil {
		return vt.Infra(err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return vt.Infra(err)
	}
	if err := cmd.Start(); err != nil {
		return vt.Infra(err)
	}
	wasm.cmd, wasm.in, wasm.out = cmd, in, bufio.NewReaderSize(out, 1<<20)
	return nil
}

func stopWasm() {
	if wasm.cmd != nil {
		_ = wasm.cmd.Process.Kill()
		_ = wasm.cmd.Wait()
		wasm.cmd = nil
	}
}

// askWasm runs the case in the program.
func askWasm(c wCase) (*wOut, error) {
	if wasm.cmd == nil {
		if err := startWasm(); err != nil {
			return nil, err
		}
	}
	b, err := json.Marshal(c)
	if err != nil {
		return nil, vt.Infra(err)
	}
	type res struct {
		b   []byte
		err error
	}
	ch := make(chan res, 1)
	out, in := wasm.out, wasm.in
	go func() {
		if _, err := in.Write(append(b, '\n')); err != nil {
			ch <- res{nil, err}
			return
		}
		b, err := out.ReadBytes('\n')
		ch <- res{b, err}
	}()
	select {
	case r := <-ch:
		var o wOut
		if r.err == nil {
			r.err = json.Unmarshal(r.b, &o)
		}
		if r.err != nil {
			stopWasm()
			txt := append(wasm.err.Bytes(), r.b...)
			if bytes.Contains(txt, []byte("panic:")) || bytes.Contains(txt, []byte("deadlock")) {
				return nil, fmt.Errorf("the program fails: %s", tail(txt))
			}
			return nil, vt.Infra(fmt.Errorf("the program for JavaScript: %w: %s", r.err, tail(txt)))
		}
		return &o, nil
	case <-time.After(2 * patience):
		stopWasm()
		return nil, errors.New("the case does not end")
	}
}

func checkOps(c wCase, o *wOut) error {
	if len(o.Errs) != len(c.Ops) || len(o.Order) != len(c.Ops) {
		return vt.Infra(fmt.Errorf("bad answer"))
	}
	closed := false
	k := 0
	next := func(kind string) (int, error) {
		if k >= len(o.Events) {
			return 0, fmt.Errorf("the sink was called %d times, more expected (%s)", len(o.Events), kind)
		}
		e := o.Events[k]
		k++
		if e.Kind != kind {
			return 0, fmt.Errorf("call %d of the sink is %s, want %s", k-1, e.Kind, kind)
		}
		if e.Type == "this is lost" {
			return 0, fmt.Errorf("%s is not called as a method of the sink", e.Kind)
		}
		return k - 1, nil
	}
	for _, i := range o.Order {
		op := c.Ops[i]
		err := o.Errs[i]
		if op.Kind == "close" {
			if err != "" {
				return fmt.Errorf("operation %d: closing fails: %s", i, err)
			}
			if !closed {
				if _, e := next("end"); e != nil {
					return fmt.Errorf("operation %d (first close): %w", i, e)
				}
			}
			closed = true
			continue
		}
		if closed {
			if err == "" {
				return fmt.Errorf("operation %d: writing after close succeeds", i)
			}
			continue
		}
		if err != "" {
			return fmt.Errorf("operation %d: writing fails: %s", i, err)
		}
		j, e := next("push")
		if e != nil {
			return fmt.Errorf("operation %d (%s): %w", i, op.Kind, e)
		}
		ev := o.Events[j]
		if ev.Type != "Uint8Array" || ev.Args != 1 {
			return fmt.Errorf("operation %d: push got %d arguments, of type %s", i, ev.Args, ev.Type)
		}
		want := op.wire()
		if !bytes.Equal(ev.Data, want) {
			// another order of the fields would do.
			var a, b srpc.Packet
			if a.UnmarshalVT(ev.Data) != nil || b.UnmarshalVT(want) != nil || !a.EqualVT(&b) {
				return fmt.Errorf("operation %d: pushed %x, want %x", i, ev.Data, want)
			}
		}
		if !bytes.Equal(ev.Data, ev.After) {
			return fmt.Errorf("operation %d: what was pushed changed later from %x to %x", i, ev.Data, ev.After)
		}
	}
	if k != len(o.Events) {
		return fmt.Errorf("the sink was called %d times, want %d: then %s", len(o.Events), k, o.Events[k].Kind)
	}
	return nil
}

func TestC25_Pushable(t *testing.T) {
	defer stopWasm()
	vt.Check(t, vt.Prop[wCase]{
		Rule:  "library built for js/wasm and run by node: 1-14 writes of drawn packets and closes by 1-4 goroutines (packets without a body among them) on a writer over a JavaScript sink that records its calls (a quarter of the cases: 1-4 concurrent unary and streaming calls of a client and a server joined by two such writers); non-trivial: a write and a close, or calls with messages",
		Quick: 16000, Thorough: 200000, Real: true, Hang: 4 * time.Minute,
		Gen: genWasm,
		Run: func(t *testing.T, c wCase, in *vt.Info) error {
			w, cl := 0, 0
			for _, o := range c.Ops {
				if o.Kind == "close" {
					cl++
				} else {
					w++
				}
				in.LabelIf(o.G > 0, "concurrent")
			}
			in.LabelIf(cl > 1, "closes again")
			in.LabelIf(len(c.Calls) > 0, "calls")
			in.NonTrivial = w > 0 && cl > 0
			for _, x := range c.Calls {
				in.NonTrivial = in.NonTrivial || len(x.Msgs) > 0
			}
			o, err := askWasm(c)
			if err != nil {
				return err
			}
			if len(c.Calls) > 0 {
				if len(o.Fails) > 0 {
					return errors.New(strings.Join(o.Fails, "; "))
				}
				return nil
			}
			return checkOps(c, o)
		},
	})
}
