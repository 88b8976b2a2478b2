//go:build js

// Command wasmrun drives the JavaScript parts of srpc. It reads cases as lines
// of JSON and answers each with a line of JSON.
package main

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"sync"
	"syscall/js"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
)

// Op is one operation on the writer.
type Op struct {
	G    int    `json:"g"` // goroutine
	Kind string `json:"k"` // start, data, cancel, none (no body), false (no cancel), close
	A    string `json:"a,omitempty"`
	B    string `json:"b,omitempty"`
	Data []byte `json:"d,omitempty"`
	Zero bool   `json:"z,omitempty"`
	Done bool   `json:"c,omitempty"`
	Err  string `json:"e,omitempty"`
	Nil  bool   `json:"n,omitempty"`
	Wipe bool   `json:"w,omitempty"` // the caller reuses the slice afterwards
}

// Event is one call of the sink.
type Event struct {
	Kind  string `json:"k"`
	Args  int    `json:"n"`
	Type  string `json:"t,omitempty"`
	Data  []byte `json:"d,omitempty"`  // when pushed
	After []byte `json:"da,omitempty"` // at the end of the case
}

// Call is one call over sinks.
type Call struct {
	Unary bool     `json:"u,omitempty"`
	Msgs  [][]byte `json:"m,omitempty"`
	Err   string   `json:"e,omitempty"`
	Async bool     `json:"a,omitempty"`
	Drop  bool     `json:"x,omitempty"` // the caller closes the stream instead
}

type In struct {
	Ops   []Op   `json:"ops,omitempty"`
	Calls []Call `json:"calls,omitempty"`
}

type Out struct {
	Errs   []string `json:"errs,omitempty"`   // of each op
	Order  []int    `json:"order,omitempty"`  // ops in the order they ended
	Events []Event  `json:"events,omitempty"` // of the sink
	Fails  []string `json:"fails,omitempty"`  // of calls
}

func (o Op) packet() *srpc.Packet {
	switch o.Kind {
	case "start":
		return srpc.NewCallStartPacket(o.A, o.B, o.Data, o.Zero)
	case "data":
		var err error
		if o.Err != "" {
			err = errors.New(o.Err)
		}
		return srpc.NewCallDataPacket(o.Data, o.Zero, o.Done, err)
	case "none":
		return &srpc.Packet{}
	case "false":
		return &srpc.Packet{Body: &srpc.Packet_CallCancel{}}
	}
	return srpc.NewCallCancelPacket()
}

// mkSink makes the JavaScript sink. It is not made of Go functions: it sees
// exactly what JavaScript code would.
var mkSink = js.Global().Get("Function").New(`
const ev = [];
class Sink {
  push(...a) { const v = a[0]; const u = v instanceof Uint8Array; ev.push({k: 'push', n: a.length, t: u ? (this instanceof Sink ? 'Uint8Array' : 'this is lost') : String(v), raw: v, copy: u ? v.slice() : null}); return this }
  end(...a) { ev.push({k: 'end', n: a.length, t: this instanceof Sink ? '' : 'this is lost'}); return this }
}
const s = new Sink();
return {sink: s, ev: ev};
`)

func bytesOf(v js.Value) []byte {
	if v.IsNull() || v.IsUndefined() {
		return nil
	}
	b := make([]byte, v.Get("length").Int())
	js.CopyBytesToGo(b, v)
	return b
}

func ops(in In) (out Out) {
	s := mkSink.Invoke()
	w := srpc.NewPushablePacketWriter(s.Get("sink"))
	byG := map[int][]int{}
	for i, o := range in.Ops {
		byG[o.G] = append(byG[o.G], i)
	}
	out.Errs = make([]string, len(in.Ops))
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		idx := byG[g]
		if len(idx) == 0 {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, i := range idx {
				o := in.Ops[i]
				var err error
				if o.Kind == "close" {
					err = w.Close()
				} else {
					err = w.WritePacket(o.packet())
					if o.Wipe {
						for k := range o.Data {
							o.Data[k] ^= 0x5a
						}
					}
				}
				if err != nil {
					out.Errs[i] = "E " + err.Error()
				}
				out.Order = append(out.Order, i)
				runtime.Gosched()
			}
		}()
	}
	wg.Wait()
	ev := s.Get("ev")
	for i := 0; i < ev.Length(); i++ {
		e := ev.Index(i)
		x := Event{Kind: e.Get("k").String(), Args: e.Get("n").Int(), Type: e.Get("t").String()}
		if x.Kind == "push" && x.Type == "Uint8Array" {
			x.Data, x.After = bytesOf(e.Get("copy")), bytesOf(e.Get("raw"))
		}
		out.Events = append(out.Events, x)
	}
	return out
}

// goSink makes a sink which delivers to Go.
func goSink(async bool, push func([]byte), end func()) js.Value {
	o := js.Global().Get("Object").New()
	ch := make(chan func(), 4096)
	go func() {
		for f := range ch {
			f()
		}
	}()
	ends := 0
	o.Set("push", js.FuncOf(func(_ js.Value, a []js.Value) any {
		b := bytesOf(a[0])
		if async {
			runtime.Gosched()
		}
		ch <- func() { push(b) }
		return nil
	}))
	o.Set("end", js.FuncOf(func(js.Value, []js.Value) any {
		ends++
		if ends == 1 {
			ch <- func() { end(); close(ch) }
		} else {
			ch <- func() { panic("ended again") } // fails the program
		}
		return nil
	}))
	return o
}

type echoer struct{ calls []Call }

func (e *echoer) InvokeMethod(svc, met string, s srpc.Stream) (bool, error) {
	if svc != "svc" {
		return false, nil
	}
	var k int
	if _, err := fmt.Sscanf(met, "m%d", &k); err != nil || k >= len(e.calls) {
		return false, nil
	}
	c := e.calls[k]
	for {
		m := srpc.NewRawMessage(nil, true)
		if err := s.MsgRecv(m); err != nil {
			if err == io.EOF {
				break
			}
			return true, err
		}
		if err := s.MsgSend(srpc.NewRawMessage(append([]byte("<"), m.GetData()...), true)); err != nil {
			return true, err
		}
		if c.Unary {
			break
		}
	}
	if c.Err != "" {
		return true, errors.New(c.Err)
	}
	return true, nil
}

func calls(in In) (out Out) {
	var mu sync.Mutex
	fail := func(i int, f string, a ...any) {
		mu.Lock()
		defer mu.Unlock()
		out.Fails = append(out.Fails, fmt.Sprintf("call %d: ", i)+fmt.Sprintf(f, a...))
	}
	h := &echoer{calls: in.Calls}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var wg sync.WaitGroup
	for i, c := range in.Calls {
		cl := srpc.NewClient(func(ctx context.Context, msg srpc.PacketDataHandler, closed srpc.CloseHandler) (srpc.PacketWriter, error) {
			var rpc *srpc.ServerRPC
			toClient := goSink(c.Async, func(b []byte) { _ = msg(b) }, func() { closed(nil) })
			rpc = srpc.NewServerRPC(context.Background(), h, srpc.NewPushablePacketWriter(toClient))
			toServer := goSink(c.Async, func(b []byte) { _ = rpc.HandlePacketData(b) }, func() { rpc.HandleStreamClose(nil) })
			return srpc.NewPushablePacketWriter(toServer), nil
		})
		wg.Add(1)
		go func() {
			defer wg.Done()
			met := fmt.Sprintf("m%d", i)
			if c.Unary {
				var req []byte
				if len(c.Msgs) > 0 {
					req = c.Msgs[0]
				}
				o := srpc.NewRawMessage(nil, true)
				err := cl.ExecCall(ctx, "svc", met, srpc.NewRawMessage(req, true), o)
				if err != nil || string(o.GetData()) != "<"+string(req) {
					fail(i, "unary: %q %v", o.GetData(), err)
				}
				return
			}
			s, err := cl.NewStream(ctx, "svc", met, nil)
			if err != nil {
				fail(i, "open: %v", err)
				return
			}
			defer s.Close()
			for _, m := range c.Msgs {
				if err := s.MsgSend(srpc.NewRawMessage(m, true)); err != nil {
					fail(i, "send: %v", err)
				}
			}
			if c.Drop {
				_ = s.Close()
				return
			}
			if err := s.CloseSend(); err != nil {
				fail(i, "close send: %v", err)
			}
			for _, m := range c.Msgs {
				o := srpc.NewRawMessage(nil, true)
				if err := s.MsgRecv(o); err != nil || string(o.GetData()) != "<"+string(m) {
					fail(i, "received %q, %v; want <%q", o.GetData(), err, m)
					return
				}
			}
			o := srpc.NewRawMessage(nil, true)
			err = s.MsgRecv(o)
			if c.Err == "" && err != io.EOF || c.Err != "" && (err == nil || err.Error() != c.Err) {
				fail(i, "ended with %v, want %q", err, c.Err)
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		mu.Lock()
		defer mu.Unlock()
		out.Fails = append(out.Fails, "the calls do not end")
	}
	return out
}

func main() {
	r := bufio.NewReaderSize(os.Stdin, 1<<16)
	for {
		line, err := r.ReadBytes('\n')
		if err != nil {
			return
		}
		var in In
		if err := json.Unmarshal(line, &in); err != nil {
			panic(err)
		}
		var out Out
		if len(in.Calls) > 0 {
			out = calls(in)
		} else {
			out = ops(in)
		}
		b, err := json.Marshal(out)
		if err != nil {
			panic(err)
		}
		fmt.Printf("%s\n", b)
	}
}
