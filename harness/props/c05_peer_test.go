package props

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
	"pgregory.net/rapid"
	"verif/harness/sched"
	"verif/harness/vt"
	"verif/harness/wire"
)

// peerItem is something which the scripted peer, or the caller, does.
type peerItem struct {
	Wait int    `json:"wait,omitempty"`
	What string `json:"what"`
}

// peerCase is one endpoint against a peer which never reacts: it does not close
// its side when the call is over.
type peerCase struct {
	Side  string       `json:"side"` // server, client
	Kind  string       `json:"kind"` // stream, rpc, packet
	Op    string       `json:"op"`   // of the handler or caller
	Delay int          `json:"delay,omitempty"`
	Items []peerItem   `json:"items"`
	Out   wire.Plan    `json:"out"`
	In    wire.Plan    `json:"in"`
	Sched sched.Config `json:"sched"`
}

// recWriter records packets.
type recWriter struct {
	mu     sync.Mutex
	n      int
	closed bool
}

func (w *recWriter) WritePacket(*srpc.Packet) error {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.closed {
		return io.ErrClosedPipe
	}
	w.n++
	return nil
}

func (w *recWriter) Close() error {
	w.mu.Lock()
	w.closed = true
	w.mu.Unlock()
	return nil
}

func TestC05_Peer(t *testing.T) {
	vt.Check(t, vt.Prop[peerCase]{
		Rule:  "one endpoint (a server stream, a nested-stream handler, a bare server rpc, or a caller, plain or nested) against a scripted peer which sends data, completion, a final status, cancels, second starts, undecodable packets, late data, or ends its transport at drawn times, and otherwise never closes or reacts, while the handler or caller returns, receives, sends or waits for its context; once the call has ended, the handler must have returned with its context cancelled and the endpoint must have returned; non-trivial: the call ends although the peer keeps the transport open",
		Quick: 40000, Thorough: 700000,
		Gen: func(t *rapid.T) peerCase {
			c := peerCase{Side: pick(t, "side", "server", "server", "client"), Sched: genSched(t)}
			c.Out, c.In = genPlan(t, 100, "out"), genPlan(t, 100, "in")
			var whats []string
			if c.Side == "server" {
				c.Kind = pick(t, "kind", "stream", "rpc", "rpc", "packet")
				c.Op = pick(t, "op", "return", "returnerr", "recv", "ctx", "send")
				whats = []string{"data", "data", "complete", "cancel", "cancel", "garbage", "dupstart", "eof", "reset", "srvctx"}
			} else {
				c.Kind = pick(t, "kind", "stream", "rpc")
				c.Op = pick(t, "op", "recv", "recv", "unary", "half")
				whats = []string{"data", "data", "complete", "error", "cancel", "garbage", "dupstart", "eof", "reset", "cctx", "close"}
			}
			c.Delay = pick(t, "delay", 0, 10, 1000, 50000)
			for range rapid.IntRange(0, 4).Draw(t, "n") {
				c.Items = append(c.Items, peerItem{Wait: pick(t, "wait", 0, 0, 10, 1000, 20000), What: pick(t, "what", whats...)})
			}
			return c
		},
		Run: func(t *testing.T, c peerCase, in *vt.Info) error {
			in.Label("side:"+c.Side+"/"+c.Kind, "op:"+c.Op)
			return bubble(t, c.Sched, false, func() error {
				if c.Side == "server" {
					return runPeerServer(c, in)
				}
				return runPeerClient(c, in)
			})
		},
	})
}

// peerPipe is the peer's side of the transport.
type peerPipe interface {
	send(b []byte) error
	end(err error) // nil: clean
}

type wirePeer struct{ c *wire.Conn }

func (p wirePeer) send(b []byte) error {
	f := append([]byte{byte(len(b)), byte(len(b) >> 8), byte(len(b) >> 16), byte(len(b) >> 24)}, b...)
	for len(f) > 0 {
		n, err := p.c.Write(f)
		if err != nil {
			return err
		}
		f = f[n:]
	}
	return nil
}

func (p wirePeer) end(err error) {
	if err != nil {
		p.c.Fail(err)
	} else {
		_ = p.c.CloseWrite()
	}
}

type rpcPeer struct{ s srpc.Stream }

func (p rpcPeer) send(b []byte) error {
	return rstrm{p.s}.Send(&rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Data{Data: b}})
}

func (p rpcPeer) end(err error) {
	if err != nil {
		_ = p.s.Close()
	} else {
		_ = p.s.CloseSend()
	}
}

type packetPeer struct {
	rpc  *srpc.ServerRPC
	done bool
}

func (p *packetPeer) send(b []byte) error {
	if p.done {
		return nil
	}
	if err := p.rpc.HandlePacketData(b); err != nil {
		p.end(err)
	}
	return nil
}

func (p *packetPeer) end(err error) {
	if !p.done {
		p.done = true
		p.rpc.HandleStreamClose(err)
	}
}

func encPkt(p *srpc.Packet) []byte {
	b, err := p.MarshalVT()
	if err != nil {
		panic(err)
	}
	return b
}

// peerBytes returns the packet of an item (nil: none).
func peerBytes(what string) []byte {
	switch what {
	case "data":
		return encPkt(srpc.NewCallDataPacket([]byte("data"), false, false, nil))
	case "complete":
		return encPkt(srpc.NewCallDataPacket(nil, false, true, nil))
	case "error":
		return encPkt(srpc.NewCallDataPacket(nil, false, true, errors.New("peer failed")))
	case "cancel":
		return encPkt(srpc.NewCallCancelPacket())
	case "garbage":
		return []byte{0xff, 0xff}
	case "dupstart":
		return encPkt(srpc.NewCallStartPacket("s", "m", nil, false))
	}
	return nil
}

func runPeerServer(c peerCase, in *vt.Info) error {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var hctx context.Context
	started, returned := make(chan struct{}), make(chan struct{})
	inv := srpc.InvokerFunc(func(_, _ string, s srpc.Stream) (bool, error) {
		hctx = s.Context()
		close(started)
		defer close(returned)
		switch c.Op {
		case "return":
			sleepUs(c.Delay)
			return true, nil
		case "returnerr":
			sleepUs(c.Delay)
			return true, errors.New("handler failed")
		case "recv":
			for {
				if _, err := recv(s); err != nil {
					return true, nil
				}
			}
		case "send":
			for range 50 {
				if err := send(s, []byte("from the handler")); err != nil {
					return true, err
				}
				sleepUs(500)
			}
		}
		<-s.Context().Done()
		return true, nil
	})
	endpoint := make(chan struct{})
	var p peerPipe
	var cleanup func()
	switch c.Kind {
	case "stream":
		a, b := wire.Pipe(c.Out, c.In)
		go func() {
			srpc.NewServer(inv).HandleStream(ctx, b)
			close(endpoint)
		}()
		go func() { _, _ = io.Copy(io.Discard, a) }()
		p = wirePeer{a}
		cleanup = func() { _ = a.Close(); _ = b.Close() }
	case "rpc":
		a, b := srpc.NewPipeStream(ctx)
		go func() {
			_ = rpcstream.HandleRpcStream(rstrm{b}, func(context.Context, string) (srpc.Invoker, func(), error) {
				return inv, nil, nil
			})
			close(endpoint)
		}()
		go func() {
			for {
				if _, err := recv(a); err != nil {
					return
				}
			}
		}()
		if err := (rstrm{a}).Send(&rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Init{Init: &rpcstream.RpcStreamInit{ComponentId: "x"}}}); err != nil {
			return vt.Infra(err)
		}
		p = rpcPeer{a}
		cleanup = func() { _ = a.Close(); _ = b.Close() }
	default:
		rpc := srpc.NewServerRPC(ctx, inv, &recWriter{})
		pp := &packetPeer{rpc: rpc}
		p = pp
		close(endpoint)
		cleanup = func() { pp.end(nil) }
	}
	defer cleanup()
	_ = p.send(peerBytes("dupstart"))

	ends := c.Op == "return" || c.Op == "returnerr" // the call ends without the transport ending
	completed, transportEnded := false, false
	for _, it := range c.Items {
		sleepUs(it.Wait)
		switch it.What {
		case "eof", "reset":
			if !ends {
				transportEnded = true
			}
			ends = true
			if it.What == "eof" {
				p.end(nil)
			} else {
				p.end(errCut)
			}
		case "srvctx":
			cancel()
			ends = true
		default:
			// errors: the endpoint may have closed its side.
			_ = p.send(peerBytes(it.What))
			switch it.What {
			case "complete":
				ends = ends || c.Op == "recv" || completed
				completed = true
			case "data":
				ends = ends || completed
			default:
				ends = true
			}
		}
		if transportEnded {
			break
		}
	}
	time.Sleep(2 * time.Minute)
	synctest.Wait()
	in.NonTrivial = ends && !transportEnded
	in.LabelIf(ends, "ended")
	for _, it := range c.Items {
		in.Label("item:" + it.What)
	}
	if !ends {
		return nil
	}
	select {
	case <-started:
		select {
		case <-returned:
		default:
			return fmt.Errorf("the handler did not return after its call has ended%s", vt.Stacks())
		}
		if hctx.Err() == nil {
			return errors.New("the context of the handler is not cancelled after the call has ended")
		}
	default:
		if c.Kind != "rpc" && !hasItem(c.Items, "srvctx") && !hasItem(c.Items, "reset") && !hasItem(c.Items, "eof") {
			return errors.New("the handler was not started")
		}
	}
	select {
	case <-endpoint:
	default:
		return fmt.Errorf("the endpoint did not return after its call has ended%s", vt.Stacks())
	}
	return nil
}

func hasItem(items []peerItem, what string) bool {
	for _, it := range items {
		if it.What == what {
			return true
		}
	}
	return false
}

func runPeerClient(c peerCase, in *vt.Info) error {
	var p peerPipe
	var cleanup func()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	base, stop := context.WithCancel(context.Background())
	defer stop()
	var open srpc.OpenStreamFunc
	if c.Kind == "stream" {
		a, b := wire.Pipe(c.Out, c.In)
		open = func(ctx context.Context, h srpc.PacketDataHandler, ch srpc.CloseHandler) (srpc.PacketWriter, error) {
			rw := srpc.NewPacketReadWriter(b)
			go rw.ReadPump(h, ch)
			return rw, nil
		}
		go func() { _, _ = io.Copy(io.Discard, a) }()
		p = wirePeer{a}
		cleanup = func() { _ = a.Close(); _ = b.Close() }
	} else {
		a, b := srpc.NewPipeStream(base)
		open = rpcstream.NewRpcStreamOpenStream(func(context.Context) (rpcstream.RpcStream, error) { return rstrm{b}, nil }, "x", false)
		go func() {
			for {
				if _, err := recv(a); err != nil {
					return
				}
			}
		}()
		p = rpcPeer{a}
		cleanup = func() { _ = a.Close(); _ = b.Close() }
	}
	defer cleanup()
	client := srpc.NewClient(open)
	var strm srpc.Stream
	if c.Op != "unary" {
		var err error
		if strm, err = client.NewStream(ctx, "s", "m", raw([]byte("x"))); err != nil {
			return fmt.Errorf("NewStream: %w", err)
		}
		if c.Op == "half" {
			if err := strm.CloseSend(); err != nil {
				return fmt.Errorf("CloseSend: %w", err)
			}
		}
	}
	var cerr error
	ret := done(func() {
		if c.Op == "unary" {
			cerr = client.ExecCall(ctx, "s", "m", raw([]byte("x")), raw(nil))
			return
		}
		for cerr == nil {
			_, cerr = recv(strm)
		}
	})
	ends, transportEnded := false, false
	for _, it := range c.Items {
		sleepUs(it.Wait)
		switch it.What {
		case "eof", "reset":
			transportEnded = transportEnded || !ends
			ends = true
			if it.What == "eof" {
				p.end(nil)
			} else {
				p.end(errCut)
			}
		case "cctx":
			cancel()
			ends = true
		case "close":
			if strm == nil {
				cancel()
			} else {
				_ = strm.Close()
			}
			ends = true
		default:
			_ = p.send(peerBytes(it.What))
			if it.What != "data" || c.Op == "unary" {
				ends = true
			}
		}
	}
	time.Sleep(2 * time.Minute)
	synctest.Wait()
	in.NonTrivial = ends && !transportEnded
	in.LabelIf(ends, "ended")
	for _, it := range c.Items {
		in.Label("item:" + it.What)
	}
	select {
	case <-ret:
		if !ends {
			return fmt.Errorf("the caller got %q although nothing has ended the call", errText(cerr))
		}
	default:
		if ends {
			return fmt.Errorf("the caller stays blocked after its call has ended%s", vt.Stacks())
		}
	}
	return nil
}
