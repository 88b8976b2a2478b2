// Package vt drives the checks: it generates cases with rapid, runs them,
// counts what was covered, saves a (shrunk) failing case as a replay file and
// replays such files without rapid.
package vt

import (
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
)

// Info is what a run reports about its case.
type Info struct {
	// NonTrivial says that the case is non-trivial by the rule of the check.
	NonTrivial bool
	// Labels classify the case.
	Labels []string
}

// Label adds labels.
func (i *Info) Label(l ...string) { i.Labels = append(i.Labels, l...) }

// LabelIf adds a label if ok is set.
func (i *Info) LabelIf(ok bool, l string) {
	if ok {
		i.Labels = append(i.Labels, l)
	}
}

// Prop is an executable property over cases of type C.
type Prop[C any] struct {
	// Rule says how cases are made and what makes one non-trivial.
	Rule string
	// Quick and Thorough are the numbers of cases (over all shards).
	Quick, Thorough int
	// Gen draws a case. The case is a plain value: it must survive JSON.
	Gen func(t *rapid.T) C
	// Run runs the case against the real code. An error is a violation.
	Run func(t *testing.T, c C, in *Info) error
	// Hang is the real time after which a case counts as hanging.
	Hang time.Duration
	// Real says the case runs in real time (no bubble): fewer retries.
	Real bool
}

type evidence struct {
	Test       string            `json:"test"`
	Rule       string            `json:"rule"`
	Evals      int               `json:"evaluations"`
	NonTrivial int               `json:"nontrivial"`
	Hashes     []uint64          `json:"hashes"`
	Labels     map[string]int    `json:"labels"`
	Samples    []json.RawMessage `json:"samples"`
	Stopped    bool              `json:"stopped_early"`
	WallS      float64           `json:"wall_s"`
}

// Replay is the content of a replay file.
type Replay struct {
	Property string          `json:"property"`
	Test     string          `json:"test"`
	Error    string          `json:"error"`
	Seed     string          `json:"seed"`
	Shard    string          `json:"shard"`
	Case     json.RawMessage `json:"case"`
}

// InfraError is a failure of the machinery and not of the code under test.
type InfraError struct{ Err error }

func (e *InfraError) Error() string { return "infrastructure: " + e.Err.Error() }

// Infra wraps an error of the machinery.
func Infra(err error) error { return &InfraError{err} }

// isKnown says whether an error is one of the known findings in VT_KNOWN, a
// list of tests and texts of the error.
func isKnown(test string, err error) bool {
	for _, l := range strings.Split(os.Getenv("VT_KNOWN"), "\n") {
		if t, text, ok := strings.Cut(l, "\t"); ok && t == test && text != "" && strings.Contains(err.Error(), text) {
			return true
		}
	}
	return false
}

func env(k, def string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return def
}

func envInt(k string, def int) int {
	if n, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return n
	}
	return def
}

// OutDir is the directory for the results of this process.
func OutDir() string { return env("VT_OUT", os.TempDir()) }

// Thorough says whether the thorough tier runs.
func Thorough() bool { return os.Getenv("VT_TIER") == "thorough" }

func exitWith(kind string, t string, code int, msg string) {
	fn := filepath.Join(OutDir(), kind+"-"+t+"-"+env("VT_NAME", env("VT_SHARD", "0"))+".txt")
	_ = os.WriteFile(fn, []byte(msg), 0o644)
	os.Exit(code)
}

// Check runs the property.
func Check[C any](t *testing.T, p Prop[C]) {
	name := t.Name()
	prop := strings.TrimPrefix(name, "Test")[:3]
	// in the race build all tests run for the races they may show: what they
	// decide about their own properties does not count there.
	raceOnly := os.Getenv("VT_PROP") != "" && os.Getenv("VT_PROP") != prop
	prop = env("VT_PROP", prop)
	if p.Hang == 0 {
		p.Hang = 60 * time.Second
	}
	p.Hang *= time.Duration(envInt("VT_HANGX", 1))
	var mu sync.Mutex
	var started time.Time
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			mu.Lock()
			hung := !started.IsZero() && time.Since(started) > p.Hang
			mu.Unlock()
			if hung {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				exitWith("hang", name, 4, fmt.Sprintf("case ran for more than %v\n%s", p.Hang, buf))
			}
		}
	}()
	var ie *InfraError
	run := func(c C, in *Info) (err error) {
		mu.Lock()
		started = time.Now()
		mu.Unlock()
		defer func() {
			mu.Lock()
			started = time.Time{}
			mu.Unlock()
			if r := recover(); r != nil {
				err = fmt.Errorf("panic: %v\n%s", r, debug.Stack())
			}
			if errors.As(err, &ie) {
				exitWith("infra", name, 3, err.Error())
			}
		}()
		err = p.Run(t, c, in)
		if raceOnly && !errors.As(err, &ie) {
			err = nil
		}
		return err
	}

	if fn := os.Getenv("VT_REPLAY"); fn != "" {
		data, err := os.ReadFile(fn)
		if err != nil {
			exitWith("infra", name, 3, err.Error())
		}
		var r Replay
		var c C
		if err := json.Unmarshal(data, &r); err != nil {
			exitWith("infra", name, 3, err.Error())
		}
		if r.Test != name {
			t.Skip("replay file of another test")
		}
		if err := json.Unmarshal(r.Case, &c); err != nil {
			exitWith("infra", name, 3, err.Error())
		}
		n := envInt("VT_REPLAYS", 200)
		if p.Real {
			n = min(n, 5)
		}
		for i := range n {
			var in Info
			if err := run(c, &in); err != nil && !isKnown(name, err) {
				exitWith("violation", name, 1, fmt.Sprintf("attempt %d: %v", i+1, err))
			}
		}
		return
	}

	total := p.Quick
	if Thorough() {
		total = p.Thorough
	}
	if pct := envInt("VT_SCALE", 100); pct != 100 {
		total = max(1, total*pct/100)
	}
	shards, shard := envInt("VT_SHARDS", 1), envInt("VT_SHARD", 0)
	n := total / shards
	if shard < total%shards {
		n++
	}
	ev := evidence{Test: name, Rule: p.Rule, Labels: map[string]int{}}
	begin := time.Now()
	soft := time.Duration(envInt("VT_SOFT", 300)) * time.Second
	seen := map[uint64]struct{}{}
	cur, err := os.Create(filepath.Join(OutDir(), "cur-"+name+"-"+env("VT_NAME", env("VT_SHARD", "0"))+".json"))
	if err != nil {
		t.Fatal(err)
	}
	defer os.Remove(cur.Name())
	defer cur.Close()
	finish := func() {
		for h := range seen {
			ev.Hashes = append(ev.Hashes, h)
		}
		ev.WallS = time.Since(begin).Seconds()
		js, _ := json.Marshal(ev)
		_ = os.WriteFile(filepath.Join(OutDir(), "ev-"+name+"-"+env("VT_NAME", env("VT_SHARD", "0"))+".json"), js, 0o644)
	}
	defer finish()
	if n == 0 {
		return
	}

	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%s/%d", env("VT_SEED", "1"), name, shard)
	seed := h.Sum64()
	if seed == 0 {
		seed = 1
	}
	_ = flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	_ = flag.Set("rapid.checks", strconv.Itoa(n))
	_ = flag.Set("rapid.nofailfile", "true")
	_ = flag.Set("rapid.shrinktime", env("VT_SHRINK", "20s"))

	failed := false
	rapid.Check(t, func(rt *rapid.T) {
		if time.Since(begin) > soft && !failed {
			// inconclusive from here on: the evidence has the smaller count.
			ev.Stopped = true
			return
		}
		c := p.Gen(rt)
		js, err := json.Marshal(c)
		if err != nil {
			exitWith("infra", name, 3, err.Error())
		}
		rep := Replay{Property: prop, Test: name, Seed: env("VT_SEED", "1"), Shard: strconv.Itoa(shard), Case: js}
		rjs, _ := json.Marshal(rep)
		_, _ = cur.WriteAt(rjs, 0)
		_ = cur.Truncate(int64(len(rjs)))
		// run what a replay would run.
		var c2 C
		if err := json.Unmarshal(js, &c2); err != nil {
			exitWith("infra", name, 3, err.Error())
		}
		attempts := 1
		if failed {
			attempts = 12
			if p.Real {
				attempts = 2
			}
		}
		var info Info
		for range attempts {
			info = Info{}
			if err = run(c2, &info); err != nil {
				break
			}
		}
		if err != nil && isKnown(name, err) {
			info.Labels = append(info.Labels, "known finding")
			rep.Error = err.Error()
			rjs, _ = json.MarshalIndent(rep, "", " ")
			_ = os.WriteFile(filepath.Join(OutDir(), "known-"+name+"-"+env("VT_NAME", env("VT_SHARD", "0"))+".json"), rjs, 0o644)
			err = nil
		}
		if err != nil {
			failed = true
			rep.Error = err.Error()
			rjs, _ = json.MarshalIndent(rep, "", " ")
			_ = os.WriteFile(filepath.Join(OutDir(), "fail-"+name+"-"+env("VT_NAME", env("VT_SHARD", "0"))+".json"), rjs, 0o644)
			rt.Fatalf("violation")
		}
		if failed {
			return
		}
		ev.Evals++
		for _, l := range info.Labels {
			ev.Labels[l]++
		}
		if info.NonTrivial {
			ev.NonTrivial++
			h := fnv.New64a()
			_, _ = h.Write(js)
			seen[h.Sum64()] = struct{}{}
			if len(ev.Samples) < 2 && len(js) < 3000 {
				ev.Samples = append(ev.Samples, js)
			}
		}
	})
}

// Bubble runs f in a synctest bubble. If all goroutines are blocked, that is
// returned as an error. If f returns and goroutines stay blocked forever, that
// is returned as an error unless leakOK is set.
func Bubble(t *testing.T, leakOK bool, f func() error) (err error) {
	var ferr error
	returned := false
	defer func() {
		if r := recover(); r != nil {
			msg := fmt.Sprint(r)
			switch {
			case strings.Contains(msg, "main bubble goroutine has exited"):
				err = ferr
				if err == nil && !leakOK {
					err = fmt.Errorf("goroutines stay blocked after everything was closed: %s%s", msg, Stacks())
				}
			case strings.Contains(msg, "deadlock"):
				err = ferr
				if err == nil {
					err = fmt.Errorf("blocked forever: %s%s", msg, Stacks())
				}
			default:
				panic(r)
			}
		}
	}()
	synctest.Test(t, func(*testing.T) {
		defer func() {
			if r := recover(); r != nil && ferr == nil {
				ferr = fmt.Errorf("panic: %v\n%s", r, debug.Stack())
			}
		}()
		ferr = f()
		returned = true
	})
	_ = returned
	return ferr
}

// Stacks returns the stacks of goroutines in bubbles.
func Stacks() string {
	buf := make([]byte, 1<<18)
	buf = buf[:runtime.Stack(buf, true)]
	var b strings.Builder
	n := 0
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "synctest bubble") && n < 12 {
			n++
			b.WriteString("\n\n" + g)
		}
	}
	return b.String()
}

// Ctx is a context which counts the contexts derived from it that were not
// cancelled yet. (Package context registers children of such a context with
// AfterFunc.)
type Ctx struct {
	context.Context
	done chan struct{}

	mu       sync.Mutex
	err      error
	next     int
	children map[int]func()
}

// NewCtx returns a new counting context.
func NewCtx() *Ctx {
	return &Ctx{Context: context.Background(), done: make(chan struct{}), children: map[int]func(){}}
}

// Done implements context.Context.
func (c *Ctx) Done() <-chan struct{} { return c.done }

// Err implements context.Context.
func (c *Ctx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

// AfterFunc is called by package context for each derived context.
func (c *Ctx) AfterFunc(f func()) func() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.err != nil {
		go f()
		return func() bool { return false }
	}
	id := c.next
	c.next++
	c.children[id] = f
	return func() bool {
		c.mu.Lock()
		defer c.mu.Unlock()
		_, ok := c.children[id]
		delete(c.children, id)
		return ok
	}
}

// Live returns the number of derived contexts that were not cancelled.
func (c *Ctx) Live() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.children)
}

// Made returns the number of contexts ever derived.
func (c *Ctx) Made() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.next
}

// Cancel cancels the context.
func (c *Ctx) Cancel() {
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return
	}
	c.err = context.Canceled
	close(c.done)
	fs := c.children
	c.children = map[int]func(){}
	c.mu.Unlock()
	for _, f := range fs {
		f()
	}
}

// Await waits for ch for a very long (virtual) time.
func Await(what string, ch <-chan struct{}) error {
	return AwaitFor(what, ch, time.Hour)
}

// AwaitFor waits for ch.
func AwaitFor(what string, ch <-chan struct{}, d time.Duration) error {
	tm := time.NewTimer(d)
	defer tm.Stop()
	select {
	case <-ch:
		return nil
	case <-tm.C:
		select {
		case <-ch:
			return nil
		default:
		}
		return fmt.Errorf("%s did not happen within %v of virtual time%s", what, d, Stacks())
	}
}
