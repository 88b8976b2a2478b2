package ts

import (
	"bufio"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/aperturerobotics/protobuf-go-lite/types/known/emptypb"
	"github.com/aperturerobotics/starpc/echo"
	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
	"pgregory.net/rapid"
	"verif/harness/vt"
)

const (
	frameOpen = iota
	frameData
	frameEnd
	frameCut
)

type interopCase struct {
	Dir    string   `json:"dir"`            // the end which calls: ts or go
	Mux    string   `json:"mux,omitempty"`  // the connection which carries the streams
	Flip   bool     `json:"flip,omitempty"` // the end which calls has accepted the connection
	Nested bool     `json:"nested,omitempty"`
	ID     string   `json:"id"`
	Ack    bool     `json:"ack,omitempty"`
	Out    dirPlan  `json:"out"` // as seen from the TypeScript end
	In     dirPlan  `json:"in"`
	Calls  []tsCall `json:"calls"`
	Cut    int      `json:"cut"` // when the link is lost, -1: never
}

// link is the node process at the other end.
type link struct {
	cmd  *exec.Cmd
	err  *strings.Builder
	wmu  sync.Mutex
	in   io.WriteCloser
	mu   sync.Mutex
	w    *goEnd
	dead chan struct{}
}

var peerLink *link

func (l *link) frame(id uint32, kind byte, payload []byte) error {
	l.wmu.Lock()
	defer l.wmu.Unlock()
	b := make([]byte, 9, 9+len(payload))
	binary.LittleEndian.PutUint32(b, uint32(len(payload)+5))
	binary.LittleEndian.PutUint32(b[4:], id)
	b[8] = kind
	_, err := l.in.Write(append(b, payload...))
	return err
}

func startLink() (*link, error) {
	verif, repo := os.Getenv("VT_VERIF"), os.Getenv("VT_REPO")
	if verif == "" {
		verif = "/verif"
	}
	if repo == "" {
		repo = "/repo"
	}
	dir, err := os.MkdirTemp(os.Getenv("VT_WORK"), "ts-")
	if err != nil {
		return nil, err
	}
	fn := filepath.Join(dir, "interop.mjs")
	out, err := exec.Command("node", filepath.Join(verif, "harness", "tsrt", "build.mjs"), repo, fn, "interop.js").CombinedOutput()
	if err != nil {
		return nil, fmt.Errorf("bundling the TypeScript code: %w\n%s", err, out)
	}
	l := &link{cmd: exec.Command("node", fn), err: &strings.Builder{}, dead: make(chan struct{})}
	l.cmd.Stderr = l.err
	if l.in, err = l.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	so, err := l.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := l.cmd.Start(); err != nil {
		return nil, err
	}
	go func() {
		defer close(l.dead)
		r := bufio.NewReaderSize(so, 1<<16)
		var h [9]byte
		for {
			if _, err := io.ReadFull(r, h[:]); err != nil {
				return
			}
			b := make([]byte, binary.LittleEndian.Uint32(h[:])-5)
			if _, err := io.ReadFull(r, b); err != nil {
				return
			}
			l.mu.Lock()
			w := l.w
			l.mu.Unlock()
			if w != nil {
				w.receive(binary.LittleEndian.Uint32(h[4:]), h[8], b)
			}
		}
	}()
	return l, nil
}

// goEnd is the Go end of a case.
type goEnd struct {
	l      *link
	c      *interopCase
	server *srpc.Server
	ctx    context.Context
	result chan []byte

	mu      sync.Mutex
	streams map[uint32]*goStream
	next    uint32
	rec     callsRec
	running int

	accepted chan error
}

var nextGoID uint32 = 2

// stream adds the stream, w.mu is held.
func (w *goEnd) stream(id uint32) *goStream {
	s := &goStream{w: w, id: id}
	s.cond = sync.NewCond(&s.mu)
	w.streams[id] = s
	return s
}

func (w *goEnd) receive(id uint32, kind byte, b []byte) {
	if id == 0 {
		w.result <- b
		return
	}
	if kind == frameOpen {
		w.mu.Lock()
		s := w.stream(id)
		w.mu.Unlock()
		if w.c.Mux == "" {
			go w.server.HandleStream(w.ctx, s)
			return
		}
		go func() {
			mc, err := srpc.NewMuxedConnWithRwc(w.ctx, s, w.c.Flip, nil)
			if err == nil {
				err = w.server.AcceptMuxedConn(w.ctx, mc)
				_ = mc.Close()
			}
			if err == nil {
				err = errors.New("accepting ended without an error")
			}
			w.accepted <- err
		}()
		return
	}
	w.mu.Lock()
	s := w.streams[id]
	w.mu.Unlock()
	if s == nil {
		return
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if kind == frameData {
		s.buf = append(s.buf, b)
	} else {
		s.ended = true
	}
	s.cond.Broadcast()
}

func (w *goEnd) openStream() (*goStream, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	id := nextGoID
	nextGoID += 2
	s := w.stream(id)
	return s, w.l.frame(id, frameOpen, nil)
}

func (w *goEnd) open(ctx context.Context, h srpc.PacketDataHandler, closed srpc.CloseHandler) (srpc.PacketWriter, error) {
	s, err := w.openStream()
	if err != nil {
		return nil, err
	}
	prw := srpc.NewPacketReadWriter(s)
	go prw.ReadPump(h, closed)
	return prw, nil
}

func (w *goEnd) cut() {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, s := range w.streams {
		s.mu.Lock()
		s.lost = true
		s.cond.Broadcast()
		s.mu.Unlock()
		_ = w.l.frame(s.id, frameCut, nil)
	}
}

// goStream is the Go end of a stream.
type goStream struct {
	w      *goEnd
	id     uint32
	mu     sync.Mutex
	cond   *sync.Cond
	buf    [][]byte
	ci     int
	ended  bool
	lost   bool
	closed bool
}

func (s *goStream) Read(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for {
		switch {
		case s.lost:
			return 0, errors.New("link lost")
		case s.closed:
			return 0, io.ErrClosedPipe
		case len(s.buf) > 0:
			b := s.buf[0]
			n := copy(p, b)
			if n == len(b) {
				s.buf = s.buf[1:]
			} else {
				s.buf[0] = b[n:]
			}
			if len(b) == 0 {
				continue
			}
			return n, nil
		case s.ended:
			return 0, io.EOF
		}
		s.cond.Wait()
	}
}

func (s *goStream) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.closed || s.lost {
		return 0, io.ErrClosedPipe
	}
	chunks := s.w.c.In.Chunks
	least := max(1, len(p)/300)
	for i := 0; i < len(p); {
		n := len(p)
		if len(chunks) > 0 {
			n = max(least, chunks[s.ci%len(chunks)])
			s.ci++
		}
		n = min(n, len(p)-i)
		if err := s.w.l.frame(s.id, frameData, p[i:i+n]); err != nil {
			return i, err
		}
		i += n
	}
	return len(p), nil
}

func (s *goStream) Close() error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.closed {
		return nil
	}
	s.closed = true
	s.cond.Broadcast()
	if s.lost {
		return nil
	}
	return s.w.l.frame(s.id, frameEnd, nil)
}

func nap(ms int) {
	if ms > 0 {
		time.Sleep(time.Duration(ms) * time.Millisecond)
	}
}

// goServer runs the script of a call.
type goServer struct {
	w *goEnd
	i int
}

type sender interface{ Send(m *echo.EchoMsg) error }
type receiver interface {
	Recv() (*echo.EchoMsg, error)
}

func (g *goServer) script(req *echo.EchoMsg, out sender, in receiver) (last *echo.EchoMsg, err error) {
	c, r := &g.w.c.Calls[g.i], &g.w.rec.Calls[g.i]
	mu := &g.w.mu
	mu.Lock()
	r.Runs++
	g.w.running++
	if req != nil {
		r.SGot = append(r.SGot, req.GetBody())
	}
	mu.Unlock()
	defer func() {
		mu.Lock()
		r.SRet = "done"
		g.w.running--
		mu.Unlock()
	}()
	for _, o := range c.Ops {
		nap(o.D)
		if o.Send != nil {
			last = &echo.EchoMsg{Body: *o.Send}
			if out != nil {
				if err := out.Send(last); err != nil {
					return nil, err
				}
			}
			continue
		}
		if in == nil {
			continue
		}
		for n := o.Read; n != 0 && r.SEnd == nil; n-- {
			m, err := in.Recv()
			if err != nil {
				text := err.Error()
				mu.Lock()
				r.SEnd = &text
				mu.Unlock()
				if err != io.EOF && c.Pass {
					return nil, err
				}
				break
			}
			mu.Lock()
			r.SGot = append(r.SGot, m.GetBody())
			mu.Unlock()
		}
	}
	nap(c.D)
	if c.Err != "" {
		return nil, errors.New(c.Err)
	}
	if last == nil {
		last = &echo.EchoMsg{}
	}
	return last, nil
}

func (g *goServer) Echo(ctx context.Context, m *echo.EchoMsg) (*echo.EchoMsg, error) {
	return g.script(m, nil, nil)
}

func (g *goServer) EchoServerStream(m *echo.EchoMsg, s echo.SRPCEchoer_EchoServerStreamStream) error {
	_, err := g.script(m, s, nil)
	return err
}

func (g *goServer) EchoClientStream(s echo.SRPCEchoer_EchoClientStreamStream) (*echo.EchoMsg, error) {
	return g.script(nil, nil, s)
}

func (g *goServer) EchoBidiStream(s echo.SRPCEchoer_EchoBidiStreamStream) error {
	_, err := g.script(nil, s, s)
	return err
}

func (g *goServer) RpcStream(echo.SRPCEchoer_RpcStreamStream) error { return errors.New("no") }

func (g *goServer) DoNothing(context.Context, *emptypb.Empty) (*emptypb.Empty, error) {
	return nil, errors.New("no")
}

// outerServer serves the streams within calls.
type outerServer struct {
	goServer
	mux srpc.Invoker
}

func (o *outerServer) RpcStream(s echo.SRPCEchoer_RpcStreamStream) error {
	return rpcstream.HandleRpcStream(s, func(_ context.Context, id string) (srpc.Invoker, func(), error) {
		o.w.mu.Lock()
		o.w.rec.IDs = append(o.w.rec.IDs, id)
		o.w.mu.Unlock()
		return o.mux, nil, nil
	})
}

// call makes a call from Go.
func (w *goEnd) call(cl echo.SRPCEchoerClient, c *tsCall, r *callRec) {
	nap(c.Start)
	ctx, cancel := context.WithCancel(w.ctx)
	defer cancel()
	if c.Abort == 0 {
		cancel()
	} else if c.Abort > 0 {
		defer time.AfterFunc(time.Duration(c.Abort)*time.Millisecond, cancel).Stop()
	}
	end := func(err error) {
		text := "EOF"
		if err != nil && err != io.EOF {
			text = err.Error()
			if errors.Is(err, context.Canceled) {
				text = "ERR_RPC_ABORT"
			}
		}
		r.CEnd = &text
	}
	defer func() { r.Done = true }()
	one := &echo.EchoMsg{}
	if len(c.Send) > 0 {
		one.Body = c.Send[0]
	}
	sendAll := func(s sender, closeSend func() error) {
		for _, m := range c.Send {
			nap(c.SGap)
			if s.Send(&echo.EchoMsg{Body: m}) != nil {
				return
			}
		}
		nap(c.SGap)
		if !c.SendOpen {
			_ = closeSend()
		}
	}
	recvAll := func(s receiver, left func() error) {
		for n := c.Reads; n != 0; n-- {
			nap(c.RGap)
			m, err := s.Recv()
			if err != nil {
				end(err)
				return
			}
			r.CGot = append(r.CGot, m.GetBody())
		}
		text := "left"
		r.CEnd = &text
		_ = left()
	}
	switch c.Kind {
	case "unary":
		m, err := cl.Echo(ctx, one)
		if err == nil {
			r.CGot = append(r.CGot, m.GetBody())
		}
		end(err)
	case "client":
		s, err := cl.EchoClientStream(ctx)
		if err != nil {
			end(err)
			return
		}
		failed := false
		for _, m := range c.Send {
			nap(c.SGap)
			if failed = s.Send(&echo.EchoMsg{Body: m}) != nil; failed {
				break
			}
		}
		nap(c.SGap)
		var m *echo.EchoMsg
		if c.SendOpen || failed {
			// the result may come before the end of the requests.
			m = &echo.EchoMsg{}
			err = s.MsgRecv(m)
		} else {
			m, err = s.CloseAndRecv()
		}
		if err == nil {
			r.CGot = append(r.CGot, m.GetBody())
		}
		end(err)
		_ = s.Close()
	case "server":
		s, err := cl.EchoServerStream(ctx, one)
		if err != nil {
			end(err)
			return
		}
		recvAll(s, s.Close)
	case "bidi":
		s, err := cl.EchoBidiStream(ctx)
		if err != nil {
			end(err)
			return
		}
		sent := make(chan struct{})
		go func() {
			defer close(sent)
			sendAll(s, s.CloseSend)
		}()
		recvAll(s, s.Close)
		cancel()
		<-sent
	}
}

func TestC33_Interop(t *testing.T) {
	vt.Check(t, vt.Prop[interopCase]{
		Rule:  "1-4 concurrent calls of every kind from the TypeScript client to the Go server, or from the Go client to the TypeScript server, each on a stream of framed bytes with drawn chunks, on a stream of one muxed connection (yamux, calls from the opening or the accepting end), or in an rpc stream within a call (with and without ack), with drawn bodies, pauses, handler scripts and results; some are aborted, left early, have a failing or endless request source, or lose the link; what either end received and how each call ended is compared with the script; non-trivial: an empty message, several messages, an error, several calls or an early end",
		Quick: 16000, Thorough: 200000, Real: true,
		Gen: func(t *rapid.T) interopCase {
			c := interopCase{
				Mux: pick(t, "mux", "", "", "", "conn", "websocket"),
				Dir: pick(t, "dir", "ts", "go"), Nested: rapid.IntRange(0, 2).Draw(t, "nested") == 0,
				ID: pick(t, "id", "x", "", "component/1"), Ack: rapid.Bool().Draw(t, "ack"),
				Out: genPlan(t, "out"), In: genPlan(t, "in"), Cut: -1,
			}
			c.Flip = c.Mux != "" && rapid.Bool().Draw(t, "flip")
			ends := rapid.IntRange(0, 2).Draw(t, "ends") == 0
			if ends && rapid.IntRange(0, 3).Draw(t, "cuts") == 0 {
				c.Cut = pick(t, "cut", 0, 1, 3)
			}
			one := func(n *int) { *n = min(*n, 1) }
			for range rapid.IntRange(1, 4).Draw(t, "ncalls") {
				x := genCall(t)
				for _, n := range []*int{&x.Start, &x.SGap, &x.RGap, &x.D} {
					one(n)
				}
				for i := range x.Ops {
					one(&x.Ops[i].D)
				}
				if ends {
					if rapid.Bool().Draw(t, "aborts") {
						x.Abort = pick(t, "abort", 0, 1, 2, 5)
					}
					if x.Kind == "client" || x.Kind == "bidi" {
						switch rapid.IntRange(0, 4).Draw(t, "source") {
						case 0:
							if c.Dir == "ts" {
								x.SendErr = "no more"
								x.Pass = rapid.Bool().Draw(t, "pass")
							}
						case 1:
							x.SendOpen = !x.overreads() || x.Abort >= 0
						}
					}
					if (x.Kind == "server" || x.Kind == "bidi") && rapid.IntRange(0, 4).Draw(t, "leaves") == 0 && !(x.SendOpen && x.overreads()) {
						x.Reads = rapid.IntRange(0, 2).Draw(t, "nreads")
					}
				}
				c.Calls = append(c.Calls, x)
			}
			return c
		},
		Run: runInterop,
	})
}

func runInterop(t *testing.T, c interopCase, in *vt.Info) error {
	in.Label("calls from: " + c.Dir)
	in.LabelIf(c.Nested, "nested")
	in.LabelIf(c.Flip, "calls from the accepting end")
	in.LabelIf(c.Mux != "", "connection: "+c.Mux)
	in.LabelIf(c.Cut >= 0, "cut")
	in.NonTrivial = len(c.Calls) > 1 || c.Cut >= 0
	early := c.Cut >= 0
	for _, x := range c.Calls {
		in.Label("kind: " + x.Kind)
		in.LabelIf(x.Abort >= 0, "abort")
		in.LabelIf(x.SendErr != "", "failing source")
		in.LabelIf(x.SendOpen, "endless source")
		in.LabelIf(x.Reads >= 0, "leaves early")
		e := x.Abort >= 0 || x.SendErr != "" || x.SendOpen || x.Reads >= 0
		early = early || e
		in.NonTrivial = in.NonTrivial || e || x.Err != "" || len(x.Send) > 1 || slices.Contains(x.Send, "")
	}
	if peerLink == nil {
		l, err := startLink()
		if err != nil {
			return vt.Infra(err)
		}
		peerLink = l
	}
	l := peerLink
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	w := &goEnd{l: l, c: &c, ctx: ctx, result: make(chan []byte, 1), accepted: make(chan error, 1), streams: map[uint32]*goStream{}}
	w.rec.Calls = make([]callRec, len(c.Calls))
	mux := srpc.NewMux()
	for i := range c.Calls {
		if err := mux.Register(echo.NewSRPCEchoerHandler(&goServer{w: w, i: i}, fmt.Sprintf("s%d", i))); err != nil {
			return err
		}
	}
	if err := mux.Register(echo.NewSRPCEchoerHandler(&outerServer{goServer: goServer{w: w}, mux: mux}, "outer")); err != nil {
		return err
	}
	w.server = srpc.NewServer(mux)
	l.mu.Lock()
	l.w = w
	l.mu.Unlock()
	stop := func() {
		peerLink = nil
		_ = l.cmd.Process.Kill()
		_ = l.cmd.Wait()
	}
	b, err := json.Marshal(map[string]any{"c": c})
	if err != nil {
		return vt.Infra(err)
	}
	if err := l.frame(0, frameData, b); err != nil {
		stop()
		return vt.Infra(fmt.Errorf("%w\n%s", err, l.err))
	}
	if c.Cut >= 0 {
		defer time.AfterFunc(time.Duration(c.Cut)*time.Millisecond, w.cut).Stop()
	}
	limit := time.After(30 * time.Second)
	if c.Dir == "go" {
		client := srpc.NewClient(w.open)
		if c.Mux != "" {
			s, err := w.openStream()
			if err != nil {
				stop()
				return vt.Infra(err)
			}
			mc, err := srpc.NewMuxedConnWithRwc(ctx, s, !c.Flip, nil)
			if err != nil {
				return err
			}
			defer mc.Close()
			client = srpc.NewClientWithMuxedConn(mc)
		}
		if c.Nested {
			outer := echo.NewSRPCEchoerClientWithServiceID(client, "outer")
			client = rpcstream.NewRpcStreamClient(outer.RpcStream, c.ID, c.Ack)
		}
		done := make(chan struct{})
		go func() {
			defer close(done)
			var wg sync.WaitGroup
			for i := range c.Calls {
				wg.Go(func() {
					w.call(echo.NewSRPCEchoerClientWithServiceID(client, fmt.Sprintf("s%d", i)), &c.Calls[i], &w.rec.Calls[i])
				})
			}
			wg.Wait()
		}()
		select {
		case <-done:
		case <-limit:
			stop()
			return errors.New("a call never ends")
		case <-l.dead:
			stop()
			return fmt.Errorf("the process died: %s", l.err)
		}
		if err := l.frame(0, frameData, []byte(`{"end":true}`)); err != nil {
			stop()
			return vt.Infra(fmt.Errorf("%w\n%s", err, l.err))
		}
	}
	var res struct {
		Rec   callsRec `json:"rec"`
		Stray []string `json:"stray"`
	}
	select {
	case b := <-w.result:
		if err := json.Unmarshal(b, &res); err != nil {
			return vt.Infra(err)
		}
	case <-limit:
		stop()
		return errors.New("a call never ends")
	case <-l.dead:
		stop()
		return fmt.Errorf("the process died: %s", l.err)
	}
	// what still runs in Go gets some time to end.
	over := func() bool {
		w.mu.Lock()
		defer w.mu.Unlock()
		for _, s := range w.streams {
			s.mu.Lock()
			open := !s.closed
			s.mu.Unlock()
			if open {
				return false
			}
		}
		return w.running == 0
	}
	for i := 0; i < 1000 && !over(); i++ {
		time.Sleep(time.Duration(min(i/20+1, 10)) * time.Millisecond)
	}
	var errs []error
	if len(res.Stray) > 0 {
		errs = append(errs, errors.New(strings.Join(res.Stray, "\n")))
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	for i := range c.Calls {
		r := res.Rec.Calls[i]
		g := w.rec.Calls[i]
		if c.Dir == "ts" {
			r.Runs, r.SGot, r.SEnd, r.SRet = g.Runs, g.SGot, g.SEnd, g.SRet
		} else {
			r.CGot, r.CEnd, r.Done = g.CGot, g.CEnd, g.Done
		}
		r.CAt = 0
		var err error
		if early {
			err = r.checkCut(&c.Calls[i], &transport{}, c.Cut >= 0, "")
		} else {
			err = r.checkFull(&c.Calls[i])
		}
		if err != nil {
			errs = append(errs, fmt.Errorf("call %d (%s): %w", i, c.Calls[i].Kind, err))
		}
	}
	for _, n := range res.Rec.Open {
		if n > 0 {
			errs = append(errs, fmt.Errorf("%d streams of the connection are left open", n))
		}
	}
	for i, s := range res.Rec.Streams {
		if !s.CS {
			errs = append(errs, fmt.Errorf("stream %d is left open at the TypeScript end", i))
		}
	}
	for id, s := range w.streams {
		s.mu.Lock()
		if !s.closed {
			errs = append(errs, fmt.Errorf("stream %d is left open at the Go end", id))
		}
		s.mu.Unlock()
	}
	if w.running > 0 {
		errs = append(errs, errors.New("a Go handler is blocked"))
	}
	if c.Nested {
		for _, id := range append(res.Rec.IDs, w.rec.IDs...) {
			if id != c.ID {
				errs = append(errs, fmt.Errorf("opened component %q, the other end looked up %q", c.ID, id))
			}
		}
	}
	return errors.Join(errs...)
}
