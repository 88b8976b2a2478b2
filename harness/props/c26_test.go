package props

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"sync"
	"testing"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
	"pgregory.net/rapid"
	"verif/harness/sched"
	"verif/harness/vt"
	"verif/harness/wire"
)

type c26End struct {
	At   int    `json:"at"`
	What string `json:"what"` // close, cancel, half, shalf, return, srvctx, cut
}

type c26Stream struct {
	First bool     `json:"first,omitempty"`
	C     []int    `json:"c,omitempty"` // messages of each sender of the caller
	S     []int    `json:"s,omitempty"` // and of the handler
	Gap   int      `json:"gap,omitempty"`
	Ends  []c26End `json:"ends,omitempty"`
	Depth int      `json:"depth,omitempty"`
	Peek  bool     `json:"peek,omitempty"` // other goroutines look at the contexts
}

type c26Case struct {
	T       TCfg        `json:"t"`
	Streams []c26Stream `json:"streams"`
	Unary   []int       `json:"unary,omitempty"`
}

func c26Msg(who, seq int) []byte {
	n := (who*7 + seq*13) % 90
	if (who+seq)%11 == 3 {
		n += 3000
	}
	b := binary.LittleEndian.AppendUint16(nil, uint16(who))
	b = binary.LittleEndian.AppendUint16(b, uint16(seq))
	return append(b, Msg{N: n + 1, S: uint64(who*1000 + seq + 1)}.Bytes()...)
}

// c26Got checks messages of several senders.
type c26Got struct {
	mu   sync.Mutex
	next map[int]int
}

func (g *c26Got) add(b []byte) error {
	g.mu.Lock()
	defer g.mu.Unlock()
	if len(b) < 4 {
		return fmt.Errorf("received %s, which nobody sent", show(b))
	}
	who, seq := int(binary.LittleEndian.Uint16(b)), int(binary.LittleEndian.Uint16(b[2:]))
	if !bytes.Equal(b, c26Msg(who, seq)) {
		return fmt.Errorf("received %s, which nobody sent", show(b))
	}
	if g.next[who] != seq {
		return fmt.Errorf("received message %d of sender %d, want %d", seq, who, g.next[who])
	}
	g.next[who]++
	return nil
}

func (g *c26Got) count(who int) int {
	g.mu.Lock()
	defer g.mu.Unlock()
	return g.next[who]
}

func TestC26_Streams(t *testing.T) {
	vt.Check(t, vt.Prop[c26Case]{
		Rule:  "1-3 streams and 0-4 unary calls of one shared client; in each stream 0-3 goroutines send on each side while another receives, and others half-close, close or cancel it at drawn times, cut the connection or end the handler; messages must arrive whole, each sender's in order, all of them if nothing ended the call early, and every operation must return; non-trivial: two goroutines of one side use the same stream",
		Quick: 30000, Thorough: 300000,
		Gen: func(t *rapid.T) c26Case {
			c := c26Case{T: genTCfg(t, 3000)}
			for range rapid.IntRange(1, 3).Draw(t, "n") {
				s := c26Stream{
					First: rapid.Bool().Draw(t, "first"), Gap: pick(t, "gap", 0, 0, 30, 500),
					C: rapid.SliceOfN(rapid.IntRange(1, 6), 0, 3).Draw(t, "c"), S: rapid.SliceOfN(rapid.IntRange(1, 6), 0, 3).Draw(t, "s"),
					Depth: pick(t, "depth", 0, 0, 0, 1), Peek: rapid.Bool().Draw(t, "peek"),
				}
				for range pick(t, "ends", 0, 0, 1, 1, 2, 3) {
					s.Ends = append(s.Ends, c26End{rapid.IntRange(0, 3000).Draw(t, "at"), pick(t, "what", "close", "close", "cancel", "half", "shalf", "return", "srvctx", "cut")})
				}
				c.Streams = append(c.Streams, s)
			}
			c.Unary = rapid.SliceOfN(rapid.IntRange(0, 2000), 0, 4).Draw(t, "unary")
			return c
		},
		Run: func(t *testing.T, c c26Case, in *vt.Info) error {
			in.Label("transport:" + c.T.Kind)
			for _, s := range c.Streams {
				in.NonTrivial = in.NonTrivial || len(s.C) > 0 && len(s.S) > 0 || len(s.C) > 1 || len(s.S) > 1
				in.LabelIf(len(s.C) > 1 || len(s.S) > 1, "several senders")
				in.LabelIf(s.Depth > 0, "nested")
				for _, e := range s.Ends {
					in.Label("end: " + e.What)
				}
			}
			return bubble(t, c.T.Sched, true, func() error { return runC26(c) })
		},
	})
}

func runC26(c c26Case) error {
	var es errs
	type side struct {
		c, s c26Got
		// set before the call ends.
		sdone    chan struct{}
		sctx     chan context.Context
		ret      chan struct{}
		shalf    chan struct{}
		sreturns sync.Once
		shalfs   sync.Once
	}
	sides := make([]*side, len(c.Streams))
	mets := []string{"echo"}
	early := make([]bool, len(c.Streams)) // ended before everything was sent and received
	for i, s := range c.Streams {
		sides[i] = &side{c: c26Got{next: map[int]int{}}, s: c26Got{next: map[int]int{}}, sdone: make(chan struct{}), sctx: make(chan context.Context, 1), ret: make(chan struct{}), shalf: make(chan struct{})}
		mets = append(mets, fmt.Sprintf("m%d", i))
		early[i] = len(s.Ends) > 0
	}
	for _, s := range c.Streams {
		for _, e := range s.Ends {
			if e.What == "cut" || e.What == "srvctx" {
				// ends all calls.
				for i := range early {
					early[i] = true
				}
			}
		}
	}
	sendAll := func(strm srpc.Stream, from, n, gap int) error {
		for j := range n {
			if err := send(strm, c26Msg(from, j)); err != nil {
				return err
			}
			sleepUs(gap)
		}
		return nil
	}
	h := &handler{svc: "s", mets: mets, fn: func(_, met string, strm srpc.Stream) (bool, error) {
		if met == "echo" {
			b, err := recv(strm)
			if err == nil {
				err = send(strm, b)
			}
			return true, err
		}
		var i int
		_, _ = fmt.Sscanf(met, "m%d", &i)
		s, x := c.Streams[i], sides[i]
		defer close(x.sdone)
		var wg sync.WaitGroup
		for k, n := range s.S {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if err := sendAll(strm, 100+k, n, s.Gap); err != nil && !early[i] {
					es.add(fmt.Errorf("stream %d: the handler failed to send: %w", i, err))
				}
			}()
		}
		over := make(chan struct{})
		defer close(over)
		go func() {
			select {
			case <-x.shalf:
				_ = strm.CloseSend()
			case <-over:
			}
		}()
		if s.Peek {
			go func() {
				select {
				case <-strm.Context().Done():
				case <-over:
				}
			}()
		}
		rd := done(func() {
			for {
				b, err := recv(strm)
				if err != nil {
					if !early[i] && err != io.EOF {
						es.add(fmt.Errorf("stream %d: receiving at the handler ended with %w", i, err))
					}
					return
				}
				if err := x.s.add(b); err != nil {
					es.add(fmt.Errorf("stream %d: handler: %w", i, err))
				}
			}
		})
		select {
		case <-x.ret:
			return true, nil
		case <-rd:
		}
		wg.Wait()
		return true, nil
	}}
	mux := srpc.NewMux()
	if err := mux.Register(h); err != nil {
		return vt.Infra(err)
	}
	w, n, err := newNested(c.T, map[string]srpc.Invoker{"": mux, "/x": mux})
	if err != nil {
		return err
	}
	defer w.Close()
	var all sync.WaitGroup
	anyCut := false
	for i, s := range c.Streams {
		for _, e := range s.Ends {
			anyCut = anyCut || e.What == "cut" || e.What == "srvctx"
		}
		x := sides[i]
		path := ""
		if s.Depth > 0 {
			path = "/x"
		}
		cl := n.client(w.Client, Nest{Depth: s.Depth, Ack: s.First}, path)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		all.Add(1)
		go func() {
			defer all.Done()
			var first srpc.Message
			if s.First {
				first = raw(c26Msg(50, 0))
			}
			strm, err := cl.NewStream(ctx, "s", fmt.Sprintf("m%d", i), first)
			if err != nil {
				if !early[i] {
					es.add(fmt.Errorf("stream %d: opening failed: %w", i, err))
				}
				return
			}
			var wg, enders sync.WaitGroup
			for k, n := range s.C {
				wg.Add(1)
				go func() {
					defer wg.Done()
					if err := sendAll(strm, k, n, s.Gap); err != nil && !early[i] {
						es.add(fmt.Errorf("stream %d: the caller failed to send: %w", i, err))
					}
				}()
			}
			rd := done(func() {
				for {
					b, err := recv(strm)
					if err != nil {
						if !early[i] && err != io.EOF {
							es.add(fmt.Errorf("stream %d: receiving at the caller ended with %w", i, err))
						}
						return
					}
					if err := x.c.add(b); err != nil {
						es.add(fmt.Errorf("stream %d: caller: %w", i, err))
					}
				}
			})
			if s.Peek {
				enders.Add(1)
				go func() {
					defer enders.Done()
					for range 3 {
						_ = strm.Context().Err()
						sleepUs(100)
					}
				}()
			}
			for _, e := range s.Ends {
				enders.Add(1)
				go func() {
					defer enders.Done()
					sleepUs(e.At)
					switch e.What {
					case "close":
						_ = strm.Close()
					case "cancel":
						cancel()
					case "half":
						_ = strm.CloseSend()
					case "shalf":
						x.shalfs.Do(func() { close(x.shalf) })
					case "return":
						x.sreturns.Do(func() { close(x.ret) })
					case "srvctx":
						w.SrvCtx.Cancel()
					case "cut":
						w.Cut(errCut)
					}
				}()
			}
			wg.Wait()
			enders.Wait()
			// every end is allowed now; the handler waits for this one.
			_ = strm.CloseSend()
			if early[i] {
				// the connection may be dead, or only half of the call over.
				select {
				case <-rd:
				case <-time.After(time.Minute):
				}
				_ = strm.Close()
			}
			<-rd
			_ = strm.Close()
		}()
	}
	for k, at := range c.Unary {
		all.Add(1)
		go func() {
			defer all.Done()
			sleepUs(at)
			out := raw(nil)
			req := c26Msg(200+k, 0)
			ctx, cancel := context.WithTimeout(context.Background(), time.Hour)
			defer cancel()
			err := w.Client.ExecCall(ctx, "s", "echo", raw(req), out)
			if err != nil && !anyCut {
				es.add(fmt.Errorf("unary call %d failed: %w", k, err))
			}
			if err == nil && !bytes.Equal(out.GetData(), req) {
				es.add(fmt.Errorf("unary call %d: sent %s, got %s", k, show(req), show(out.GetData())))
			}
		}()
	}
	if anyCut {
		// nobody serves calls which reach a server whose context has ended.
		end := done(all.Wait)
		select {
		case <-end:
		case <-time.After(10 * time.Minute):
			w.Close()
		}
	}
	if err := vt.AwaitFor("the end of every operation", done(all.Wait), 3*time.Hour); err != nil {
		return errors.Join(es.get(), err)
	}
	if err := es.get(); err != nil {
		return err
	}
	for i, s := range c.Streams {
		if early[i] {
			continue
		}
		x := sides[i]
		if err := vt.AwaitFor("the end of the handler", x.sdone, time.Hour); err != nil {
			return err
		}
		for k, n := range s.C {
			if got := x.s.count(k); got != n {
				return fmt.Errorf("stream %d: the handler received %d of %d messages of sender %d", i, got, n, k)
			}
		}
		for k, n := range s.S {
			if got := x.c.count(100 + k); got != n {
				return fmt.Errorf("stream %d: the caller received %d of %d messages of sender %d", i, got, n, k)
			}
		}
	}
	return nil
}

type c26Op struct {
	G  int    `json:"g"`
	D  int    `json:"d,omitempty"`
	Op string `json:"op"`
	N  int    `json:"n,omitempty"`
}

type c26Ops struct {
	What  string       `json:"what"` // mux, conn, packets
	Ops   []c26Op      `json:"ops"`
	Out   wire.Plan    `json:"out"`
	In    wire.Plan    `json:"in"`
	Sched sched.Config `json:"sched"`
}

// TestC26_Objects uses one object from several goroutines which share nothing else.
func TestC26_Objects(t *testing.T) {
	ops := map[string][]string{
		"mux":     {"reg", "invoke", "has", "hasm"},
		"conn":    {"read", "write", "rdl", "dl", "wdl", "addr", "close"},
		"packets": {"write", "write", "close"},
		"server":  {"handle", "close"},
		"wrapped": {"exec", "exec", "open", "reg", "invoke", "invoke", "has", "hasm"},
	}
	vt.Check(t, vt.Prop[c26Ops]{
		Rule:  "2-4 goroutines perform 2-16 drawn operations on one mux (register, look up, invoke), one connection over a read-write-closer (read, write, deadlines, close), one packet stream (write, close, while both ends read), one rpc (packets, end of stream, close) or one verbose client and mux (calls, lookups); every operation must return (and, in the race build, none may race); non-trivial: two goroutines",
		Quick: 40000, Thorough: 400000,
		Gen: func(t *rapid.T) c26Ops {
			c := c26Ops{What: pick(t, "what", "mux", "conn", "packets", "server", "wrapped"), Out: genPlan(t, 2000, "out"), In: genPlan(t, 2000, "in"), Sched: genSched(t)}
			gs := rapid.IntRange(2, 4).Draw(t, "gs")
			slow := rapid.Bool().Draw(t, "slow")
			for range rapid.IntRange(2, 16).Draw(t, "nops") {
				o := c26Op{G: rapid.IntRange(0, gs-1).Draw(t, "g"), Op: pick(t, "op", ops[c.What]...), N: rapid.IntRange(0, 40).Draw(t, "n")}
				if slow {
					o.D = rapid.IntRange(0, 100).Draw(t, "d")
				}
				c.Ops = append(c.Ops, o)
			}
			return c
		},
		Run: func(t *testing.T, c c26Ops, in *vt.Info) error {
			in.Label(c.What)
			gs := map[int]bool{}
			for _, o := range c.Ops {
				gs[o.G] = true
			}
			in.NonTrivial = len(gs) > 1
			return bubble(t, c.Sched, true, func() error { return runC26Ops(c) })
		},
	})
}

// idleClient is a client which shares nothing between calls.
type idleClient struct{}

func (idleClient) ExecCall(context.Context, string, string, srpc.Message, srpc.Message) error {
	return nil
}

func (idleClient) NewStream(context.Context, string, string, srpc.Message) (srpc.Stream, error) {
	return &stubStream{}, nil
}

func runC26Ops(c c26Ops) error {
	var do func(o c26Op)
	var finish func()
	a, b := wire.Pipe(c.Out, c.In)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var bg sync.WaitGroup
	switch c.What {
	case "mux":
		m := srpc.NewMux()
		name := func(n int) (string, string) { return fmt.Sprintf("s%d", n%3), fmt.Sprintf("m%d", n/3%3) }
		do = func(o c26Op) {
			svc, met := name(o.N)
			switch o.Op {
			case "reg":
				_ = m.Register(&handler{svc: svc, mets: []string{met, "x"}, fn: func(_, _ string, strm srpc.Stream) (bool, error) { return true, nil }})
			case "invoke":
				_, _ = m.InvokeMethod(svc, met, &stubStream{})
			case "has":
				_ = m.HasService(svc)
			case "hasm":
				_ = m.HasServiceMethod(svc, met)
			}
		}
		finish = func() {}
	case "wrapped":
		m := srpc.NewVMux(srpc.NewMux(), quietLog(), true)
		cl := srpc.NewVClient(srpc.NewPrefixClient(srpc.NewClientSet([]srpc.Client{idleClient{}}), []string{"p/"}), quietLog())
		do = func(o c26Op) {
			svc, met := fmt.Sprintf("s%d", o.N%3), fmt.Sprintf("m%d", o.N/3%3)
			switch o.Op {
			case "exec":
				_ = cl.ExecCall(ctx, "p/"+svc, met, raw(nil), raw(nil))
			case "open":
				_, _ = cl.NewStream(ctx, "p/"+svc, met, raw(nil))
			case "reg":
				_ = m.Register(&handler{svc: svc, mets: []string{met, "x"}, fn: func(_, _ string, strm srpc.Stream) (bool, error) { return true, nil }})
			case "invoke":
				_, _ = m.InvokeMethod(svc, met, &stubStream{})
			case "has":
				_ = m.HasService(svc)
			case "hasm":
				_ = m.HasServiceMethod(svc, met)
			}
		}
		finish = func() {}
	case "conn":
		conn := srpc.NewRwcConn(ctx, a, nil, nil, 3)
		peer := srpc.NewRwcConn(ctx, b, nil, nil, 3)
		bg.Add(2)
		go func() {
			defer bg.Done()
			buf := make([]byte, 64)
			for {
				if _, err := peer.Read(buf); err != nil {
					return
				}
			}
		}()
		go func() {
			defer bg.Done()
			for range 20 {
				if _, err := peer.Write([]byte("from the peer")); err != nil {
					return
				}
			}
		}()
		do = func(o c26Op) {
			when := time.Now().Add(time.Duration(o.N) * 10 * time.Microsecond)
			switch o.Op {
			case "read":
				_ = conn.SetReadDeadline(when)
				_, _ = conn.Read(make([]byte, o.N+1))
			case "write":
				_, _ = conn.Write(make([]byte, o.N))
			case "rdl":
				_ = conn.SetReadDeadline(when)
			case "dl":
				_ = conn.SetDeadline(when)
			case "wdl":
				_ = conn.SetWriteDeadline(when)
			case "addr":
				_, _ = conn.LocalAddr(), conn.RemoteAddr()
			case "close":
				if o.N > 30 {
					_ = conn.Close()
				}
			}
		}
		finish = func() { _, _ = conn.Close(), peer.Close() }
	case "packets":
		pa, pb := srpc.NewPacketReadWriter(a), srpc.NewPacketReadWriter(b)
		for _, p := range []*srpc.PacketReadWriter{pa, pb} {
			bg.Add(1)
			go func() {
				defer bg.Done()
				p.ReadPump(func([]byte) error { return nil }, func(error) {})
			}()
		}
		do = func(o c26Op) {
			p := pa
			if o.N%2 == 1 {
				p = pb
			}
			switch o.Op {
			case "write":
				_ = p.WritePacket(srpc.NewCallDataPacket(c26Msg(o.G, o.N), false, false, nil))
			case "close":
				if o.N > 30 {
					_ = p.Close()
				}
			}
		}
		finish = func() { _, _ = pa.Close(), pb.Close() }
	case "server":
		dw := &directWriter{}
		h := &handler{svc: "s", mets: []string{"m"}, fn: func(_, _ string, strm srpc.Stream) (bool, error) {
			for {
				if _, err := recv(strm); err != nil {
					return true, nil
				}
				_ = send(strm, []byte{1})
			}
		}}
		rpc := srpc.NewServerRPC(ctx, h, dw)
		crpc := srpc.NewClientRPC(ctx, "s", "m")
		started := srpc.NewServerRPC(ctx, h, &directWriter{})
		_ = started.HandlePacket(srpc.NewCallStartPacket("s", "m", nil, false))
		_ = crpc.Start(&directWriter{}, false, nil)
		bg.Add(1)
		go func() {
			defer bg.Done()
			for {
				if _, err := crpc.ReadOne(); err != nil {
					return
				}
			}
		}()
		do = func(o c26Op) {
			p := srpc.NewCallDataPacket([]byte{byte(o.N)}, false, o.N > 37, nil)
			switch o.Op {
			case "handle":
				// (packets of one call are handled one at a time.)
				switch o.G {
				case 0:
					_ = crpc.HandlePacket(p)
				case 1:
					_ = started.HandlePacket(p)
				case 2:
					if o.N < 10 {
						_ = rpc.HandlePacket(srpc.NewCallStartPacket("s", "m", nil, false))
					} else {
						_ = rpc.HandlePacket(p)
					}
				default:
					_ = crpc.WriteCallData([]byte{1}, false, nil)
				}
			case "close":
				switch {
				case o.N < 20:
				case o.G == 0:
					crpc.HandleStreamClose(nil)
				case o.G == 1:
					started.HandleStreamClose(errCut)
				case o.G == 2:
					rpc.HandleStreamClose(nil)
				default:
					crpc.Close()
				}
			}
		}
		finish = func() { crpc.Close(); rpc.HandleStreamClose(nil); started.HandleStreamClose(nil) }
	}
	var wg sync.WaitGroup
	for g := range 4 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, o := range c.Ops {
				if o.G == g {
					sleepUs(o.D)
					do(o)
				}
			}
		}()
	}
	if err := vt.AwaitFor("the end of all operations", done(wg.Wait), time.Hour); err != nil {
		return err
	}
	finish()
	return vt.AwaitFor("the end of reading after closing", done(bg.Wait), time.Hour)
}
