package props

import (
	"context"
	"errors"
	"fmt"
	"io"
	"runtime"
	"sync"
	"testing"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
	"pgregory.net/rapid"
	"verif/harness/sched"
	"verif/harness/vt"
)

// rpcAct is an operation of a goroutine on one rpc. The goroutine first waits
// D microseconds and then yields Y times.
type rpcAct struct {
	D    int    `json:"d,omitempty"`
	Y    int    `json:"y,omitempty"`
	What string `json:"what"`
}

type rpcCase struct {
	Side  string       `json:"side"`
	Start rpcAct       `json:"start"`          // client: start; server: the peer's start packet
	Peer  []rpcAct     `json:"peer,omitempty"` // of the peer, in order; its stream ends at last
	Acts  []rpcAct     `json:"acts,omitempty"` // each of a goroutine of its own: when it started
	Early []rpcAct     `json:"early,omitempty"`
	End   rpcAct       `json:"end"` // the end of the peer's stream, concurrently
	Err   string       `json:"err,omitempty"`
	Reps  int          `json:"reps"`
	Sched sched.Config `json:"sched"`
}

func (a rpcAct) wait() {
	sleepUs(a.D)
	for range a.Y {
		runtime.Gosched()
	}
}

func genRpcCase(t *rapid.T) rpcCase {
	act := func(l string, whats ...string) rpcAct {
		a := rpcAct{D: pick(t, l+"d", 0, 0, 0, 1, 2), What: pick(t, l+"what", whats...)}
		if rapid.Bool().Draw(t, l+"ys") {
			a.Y = rapid.IntRange(0, 60).Draw(t, l+"y")
		}
		return a
	}
	c := rpcCase{Side: pick(t, "side", "client", "client", "server"), Sched: genSched(t), Reps: pick(t, "reps", 1, 1, 3, 8)}
	c.Start = act("start", "start", "startmsg")
	for range rapid.IntRange(0, 4).Draw(t, "npeer") {
		c.Peer = append(c.Peer, act("peer", "data", "data", "data", "zero", "complete", "error", "cancel"))
	}
	for range rapid.IntRange(0, 4).Draw(t, "nacts") {
		c.Acts = append(c.Acts, act("act", "send", "send", "recv", "half", "wait", "close"))
	}
	if rapid.IntRange(0, 2).Draw(t, "early") == 0 {
		c.Early = append(c.Early, act("early", "cancel", "close"))
	}
	c.End = act("end", "end")
	if rapid.Bool().Draw(t, "hasErr") {
		c.Err = "reset"
	}
	return c
}

func TestC26_Rpc(t *testing.T) {
	vt.Check(t, vt.Prop[rpcCase]{
		Rule:  "one client or server rpc used by many goroutines at once: start (or the peer's start packet), 0-4 packets of the peer, the end of its stream, 0-4 goroutines which send, receive to the end, half-close, wait or close, and a cancel or close which may come before the start, all at drawn times (0-2 microseconds and up to 60 yields apart) and repeated; every operation returns and received messages are the peer's, in order; non-trivial: something happens next to the start",
		Quick: 20000, Thorough: 400000,
		Gen: genRpcCase,
		Run: func(t *testing.T, c rpcCase, in *vt.Info) error {
			in.Label("side: " + c.Side)
			for _, a := range append(append([]rpcAct{c.End}, c.Peer...), c.Early...) {
				in.NonTrivial = in.NonTrivial || a.D == c.Start.D
			}
			return bubble(t, c.Sched, true, func() error {
				for range c.Reps {
					if err := runRpcCase(c, false); err != nil {
						return err
					}
				}
				return nil
			})
		},
	})
}

func TestC07_Rpc(t *testing.T) {
	vt.Check(t, vt.Prop[rpcCase]{
		Rule:  "one client or server rpc used by many goroutines at once: start (or the peer's start packet), 0-4 packets of the peer, the end of its stream, 0-4 goroutines which send, receive to the end, half-close, wait or close, and a cancel or close which may come before the start, all at drawn times (0-2 microseconds and up to 60 yields apart) and repeated; after the end the rpc's context is cancelled, the writer is closed and no goroutine is left; non-trivial: something happens next to the start",
		Quick: 20000, Thorough: 400000,
		Gen: genRpcCase,
		Run: func(t *testing.T, c rpcCase, in *vt.Info) error {
			in.Label("side: " + c.Side)
			for _, a := range append(append([]rpcAct{c.End}, c.Peer...), c.Early...) {
				in.NonTrivial = in.NonTrivial || a.D == c.Start.D
			}
			return bubble(t, c.Sched, false, func() error {
				for range c.Reps {
					if err := runRpcCase(c, true); err != nil {
						return err
					}
				}
				return nil
			})
		},
	})
}

func runRpcCase(c rpcCase, leftovers bool) error {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	w := &recWriter{}
	var es errs
	var mu sync.Mutex
	var got [][]byte
	var wg sync.WaitGroup
	run := func(f func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			f()
		}()
	}
	receivers := 0
	for _, a := range c.Acts {
		if a.What == "recv" {
			receivers++
		}
	}
	readOne := func(read func() ([]byte, error)) {
		for {
			b, err := read()
			if err != nil {
				return
			}
			mu.Lock()
			got = append(got, b)
			mu.Unlock()
		}
	}
	var handle func(*srpc.Packet) error
	var closed func(error)
	var rctx func() context.Context
	var closeRPC func()
	acts := func(s srpc.Stream, read func() ([]byte, error), wait func(context.Context) error) {
		for i, a := range c.Acts {
			run(func() {
				a.wait()
				switch a.What {
				case "send":
					for range 3 {
						if send(s, []byte{byte(i)}) != nil {
							return
						}
					}
				case "recv":
					readOne(read)
				case "half":
					_ = s.CloseSend()
				case "wait":
					if wait != nil {
						_ = wait(context.Background())
					}
				case "close":
					_ = s.Close()
				}
			})
		}
	}
	started := make(chan struct{})
	startErr := error(nil)
	if c.Side == "client" {
		r := srpc.NewClientRPC(ctx, "s", "m")
		handle, closed, rctx, closeRPC = r.HandlePacket, r.HandleStreamClose, r.Context, r.Close
		run(func() {
			c.Start.wait()
			defer close(started)
			var first []byte
			if c.Start.What == "startmsg" {
				first = []byte("first")
			}
			if startErr = r.Start(w, first != nil, first); startErr == nil {
				acts(srpc.NewMsgStream(r.Context(), r, r.Close), r.ReadOne, r.Wait)
			}
		})
	} else {
		var r *srpc.ServerRPC
		r = srpc.NewServerRPC(ctx, srpc.InvokerFunc(func(_, _ string, s srpc.Stream) (bool, error) {
			if c.Start.What == "startmsg" {
				if b, err := recv(s); err == nil && string(b) != "first" {
					es.add(fmt.Errorf("received %q instead of the first message", b))
				}
			}
			var hw sync.WaitGroup
			for _, a := range c.Acts {
				hw.Add(1)
				go func() {
					defer hw.Done()
					a.wait()
					switch a.What {
					case "send":
						for range 3 {
							if send(s, []byte("m")) != nil {
								return
							}
						}
					case "recv":
						readOne(func() ([]byte, error) { return recv(s) })
					case "half":
						_ = s.CloseSend()
					case "wait":
						_ = r.Wait(context.Background())
					case "close":
						_ = s.Close()
					}
				}()
			}
			hw.Wait()
			return true, nil
		}), w)
		handle, closed, rctx = r.HandlePacket, r.HandleStreamClose, r.Context
		close(started)
	}
	// the peer
	var want [][]byte
	run(func() {
		if c.Side == "server" {
			c.Start.wait()
			var first []byte
			if c.Start.What == "startmsg" {
				first = []byte("first")
			}
			if err := handle(srpc.NewCallStartPacket("s", "m", first, false)); err != nil {
				return
			}
		}
		n := byte(0)
		for _, a := range c.Peer {
			a.wait()
			var p *srpc.Packet
			var m []byte
			switch a.What {
			case "data":
				n++
				m = []byte{n}
				p = dataPkt(m)
			case "zero":
				m = []byte{}
				p = dataPkt(m)
			case "complete":
				p = srpc.NewCallDataPacket(nil, false, true, nil)
			case "error":
				p = srpc.NewCallDataPacket(nil, false, true, errors.New("peer error"))
			default:
				p = srpc.NewCallCancelPacket()
			}
			if m != nil {
				mu.Lock()
				want = append(want, m)
				mu.Unlock()
			}
			if handle(p) != nil {
				return
			}
		}
	})
	for _, a := range c.Early {
		run(func() {
			a.wait()
			if a.What == "close" && closeRPC != nil {
				closeRPC()
			} else {
				cancel()
			}
		})
	}
	run(func() {
		c.End.wait()
		err := error(nil)
		if c.Err != "" {
			err = errors.New(c.Err)
		} else if c.Side == "client" {
			err = io.EOF
		}
		closed(err)
	})
	if err := vt.Await("the start", started); err != nil {
		return err
	}
	if err := vt.AwaitFor("the end of all operations after the end of the stream", done(wg.Wait), time.Hour); err != nil {
		return errors.Join(es.get(), err)
	}
	time.Sleep(time.Minute)
	if rctx().Err() == nil && leftovers {
		return errors.New("the rpc's context is alive after the end of the peer's stream")
	}
	w.mu.Lock()
	shut := w.closed
	w.mu.Unlock()
	if !shut && leftovers {
		return fmt.Errorf("the writer was not closed after the end of the peer's stream (start: %v)", startErr)
	}
	mu.Lock()
	defer mu.Unlock()
	if receivers == 1 {
		if !isPrefix(got, want) {
			return fmt.Errorf("received %s, the peer sent %s", showAll(got), showAll(want))
		}
	} else if len(got) > len(want) {
		return fmt.Errorf("received %d messages, the peer sent %d", len(got), len(want))
	}
	return es.get()
}
