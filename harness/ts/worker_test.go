// Package ts checks the TypeScript half: the cases run in a node process
// (tsrt/worker.js) in virtual time, what happened is judged here.
package ts

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/harness/vt"
)

func pick[T any](t *rapid.T, label string, vals ...T) T {
	return rapid.SampledFrom(vals).Draw(t, label)
}

// worker is a node process which runs cases.
type worker struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out chan []byte
	err *strings.Builder
}

var (
	bundle string
	live   *worker
)

// buildBundle bundles the TypeScript code of the tree with the worker.
func buildBundle() error {
	if bundle != "" {
		return nil
	}
	verif, repo := os.Getenv("VT_VERIF"), os.Getenv("VT_REPO")
	if verif == "" {
		verif = "/verif"
	}
	if repo == "" {
		repo = "/repo"
	}
	dir, err := os.MkdirTemp(os.Getenv("VT_WORK"), "ts-")
	if err != nil {
		return err
	}
	fn := filepath.Join(dir, "worker.mjs")
	out, err := exec.Command("node", filepath.Join(verif, "harness", "tsrt", "build.mjs"), repo, fn).CombinedOutput()
	if err != nil {
		return fmt.Errorf("bundling the TypeScript code: %w\n%s", err, out)
	}
	bundle = fn
	return nil
}

func start() (*worker, error) {
	if err := buildBundle(); err != nil {
		return nil, err
	}
	w := &worker{cmd: exec.Command("node", "--max-old-space-size=1200", bundle), out: make(chan []byte), err: &strings.Builder{}}
	w.cmd.Stderr = w.err
	var err error
	if w.in, err = w.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	out, err := w.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := w.cmd.Start(); err != nil {
		return nil, err
	}
	go func() {
		defer close(w.out)
		r := bufio.NewReaderSize(out, 1<<16)
		for {
			l, err := r.ReadBytes('\n')
			if err != nil {
				return
			}
			w.out <- l
		}
	}()
	return w, nil
}

// reply is what the worker reports.
type reply struct {
	Rec   json.RawMessage `json:"rec"`
	Hang  bool            `json:"hang"`
	Error string          `json:"error"`
	Stray []string        `json:"stray"`
}

// run runs the case and decodes its record.
func run(kind string, c, rec any) (*reply, error) {
	if live == nil {
		w, err := start()
		if err != nil {
			return nil, vt.Infra(err)
		}
		live = w
	}
	b, err := json.Marshal(map[string]any{"kind": kind, "c": c})
	if err != nil {
		return nil, vt.Infra(err)
	}
	w := live
	if _, err := w.in.Write(append(b, '\n')); err != nil {
		live = nil
		return nil, vt.Infra(fmt.Errorf("%w\n%s", err, w.err))
	}
	tm := time.NewTimer(30 * time.Second)
	defer tm.Stop()
	select {
	case l, ok := <-w.out:
		if !ok {
			live = nil
			_ = w.cmd.Wait()
			return nil, fmt.Errorf("the process died: %v\n%s", w.cmd.ProcessState, w.err)
		}
		r := &reply{}
		if err := json.Unmarshal(l, r); err != nil {
			return nil, vt.Infra(err)
		}
		if len(r.Rec) > 0 {
			if err := json.Unmarshal(r.Rec, rec); err != nil {
				return nil, vt.Infra(fmt.Errorf("%w: %s", err, r.Rec))
			}
		}
		if len(r.Stray) > 0 {
			return r, errors.New(strings.Join(r.Stray, "\n"))
		}
		return r, nil
	case <-tm.C:
		live = nil
		_ = w.cmd.Process.Kill()
		return nil, errors.New("the process does not answer: it runs in circles")
	}
}

func TestMain(m *testing.M) {
	code := m.Run()
	if live != nil {
		_ = live.in.Close()
		time.AfterFunc(5*time.Second, func() { _ = live.cmd.Process.Kill() })
		for range live.out {
		}
		_ = live.cmd.Wait()
	}
	os.Exit(code)
}
