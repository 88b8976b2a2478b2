package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"sync"
	"testing"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
	"verif/harness/sched"
	"verif/harness/vt"
	"verif/harness/wire"
)

// c09Item is one thing a peer sends.
type c09Item struct {
	What string `json:"what"`
	B    []byte `json:"b"`             // the bytes of the frame, or raw bytes
	Raw  bool   `json:"raw,omitempty"` // not framed
	D    int    `json:"d,omitempty"`   // delay before
}

type c09Case struct {
	Server bool         `json:"server"` // the endpoint under test is a server
	Items  []c09Item    `json:"items"`
	End    string       `json:"end"` // what the peer does after the items: eof, keep, reset
	Mode   string       `json:"mode"`
	SDelay int          `json:"sdelay,omitempty"`
	Late   int          `json:"late,omitempty"` // direct client: starts after that many items
	Out    wire.Plan    `json:"out"`
	Sched  sched.Config `json:"sched"`
}

func enc(p *srpc.Packet) []byte {
	b, err := p.MarshalVT()
	if err != nil {
		panic(err)
	}
	return b
}

func genName(t *rapid.T, label string) string {
	return pick(t, label, "s", "s", "svc.Name", "m", "Method", "\xff\xfe", "a b", "")
}

func genC09Item(t *rapid.T) c09Item {
	it := c09Item{What: pick(t, "what", "start", "data", "data", "data", "data", "data", "data", "zero", "complete", "error", "lastdata", "cancel", "nocancel", "empty", "emptydata", "emptystart", "unknown", "mutated", "encoding", "random", "rawbytes", "hugeframe", "zeroframe", "errdata")}
	small := func() []byte { return rapid.SliceOfN(rapid.Byte(), 1, 8).Draw(t, "data") }
	start := func(svc, met string) []byte {
		var d []byte
		z := false
		switch rapid.IntRange(0, 3).Draw(t, "first") {
		case 0:
			d = small()
		case 1:
			z = true
		case 2:
			d, z = small(), true
		}
		return enc(srpc.NewCallStartPacket(svc, met, d, z))
	}
	switch it.What {
	case "start":
		it.B = start(pick(t, "svc", "s", "svc.Name", "\xff\xfe", "a b"), pick(t, "met", "m", "Method", "/"))
	case "data":
		it.B = enc(srpc.NewCallDataPacket(small(), rapid.Bool().Draw(t, "z"), false, nil))
	case "zero":
		it.B = enc(srpc.NewCallDataPacket(nil, true, false, nil))
	case "complete":
		it.B = enc(srpc.NewCallDataPacket(nil, rapid.Bool().Draw(t, "z"), true, nil))
	case "error":
		it.B = enc(srpc.NewCallDataPacket(nil, false, true, errors.New("peer error")))
	case "errdata":
		// an error without the mark of completion, maybe with data
		it.B = enc(&srpc.Packet{Body: &srpc.Packet_CallData{CallData: &srpc.CallData{Data: small()[1:], Error: "peer error"}}})
	case "lastdata":
		it.B = enc(srpc.NewCallDataPacket(small(), false, true, nil))
	case "cancel":
		it.B = enc(srpc.NewCallCancelPacket())
	case "nocancel":
		it.B = enc(&srpc.Packet{Body: &srpc.Packet_CallCancel{}})
	case "empty":
		// a frame of an unset packet cannot have length zero: an unknown field.
		it.B = []byte{0x28, 1}
	case "emptydata":
		it.B = enc(&srpc.Packet{Body: &srpc.Packet_CallData{CallData: &srpc.CallData{}}})
	case "emptystart":
		switch rapid.IntRange(0, 2).Draw(t, "which") {
		case 0:
			it.B = start("", "m")
		case 1:
			it.B = start("s", "")
		default:
			it.B = start("", "")
		}
	case "unknown":
		it.B = genUnknown(t, nil, 0)
	case "mutated":
		it.B = mutate(t, start("s", "m"))
	case "encoding":
		it.B = genEncoding(t, "Packet", 0)
	case "random":
		it.B = rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(t, "random")
	case "rawbytes":
		it.Raw = true
		it.B = rapid.SliceOfN(rapid.Byte(), 1, 12).Draw(t, "rawb")
	case "hugeframe":
		it.Raw = true
		it.B = []byte{0, 0, 0, pick[byte](t, "huge", 1, 0x7f, 0xff), 1, 2}
	case "zeroframe":
		it.Raw = true
		it.B = []byte{0, 0, 0, 0}
	}
	it.D = pick(t, "d", 0, 0, 0, 1, 100, 3000)
	return it
}

// automaton is the reference for what an endpoint does with packets.
type automaton struct {
	server   bool
	started  bool
	svc, met string
	queue    [][]byte
	closed   bool   // no more data
	endErr   string // error that ends the data ("": EOF)
	fatal    bool   // the call must be ended and its stream closed
	cancel   bool   // cancelled by the peer
	unsure   bool   // the reference does not say what must happen
	starts   int    // packets that look like a start
	nfatal   int    // index of the fatal frame
}

// step handles the bytes of a packet.
func (a *automaton) step(b []byte) {
	if a.fatal || a.unsure {
		return
	}
	if a.cancel {
		return // nothing may have an effect any more
	}
	ref := refNew("Packet", true)
	if err := proto.Unmarshal(b, ref); err != nil {
		// the code may know better (some invalid encodings are tolerated).
		p := &srpc.Packet{}
		if p.UnmarshalVT(bytes.Clone(b)) == nil {
			a.unsure = true
			return
		}
		a.fatal = true
		return
	}
	if p := (&srpc.Packet{}); p.UnmarshalVT(bytes.Clone(b)) != nil {
		a.fatal = true // C10 checks that standard encodings are not refused
		return
	}
	v := refVal(ref)
	str := func(m val, k string) string { s, _ := m[k].(string); return s }
	switch {
	case v["call_start"] != nil:
		m := v["call_start"].(val)
		svc, met := str(m, "rpc_service"), str(m, "rpc_method")
		if svc == "" || met == "" || !a.server || a.started || a.closed {
			a.fatal = true
			return
		}
		a.started, a.svc, a.met = true, svc, met
		if d := str(m, "data"); d != "" || m["data_is_zero"] != nil {
			a.queue = append(a.queue, []byte(d))
		}
	case v["call_data"] != nil:
		m := v["call_data"].(val)
		d, e := str(m, "data"), str(m, "error")
		if len(m) == 0 || a.closed {
			a.fatal = true
			return
		}
		if d != "" || m["data_is_zero"] != nil {
			a.queue = append(a.queue, []byte(d))
		}
		if e != "" || m["complete"] != nil {
			a.closed, a.endErr = true, e
		}
	case v["call_cancel"] != nil:
		if v["call_cancel"] == true {
			a.cancel = true
			if !a.closed {
				a.endErr = context.Canceled.Error()
			}
			a.closed = true
		} // else: it does not cancel
	default:
		a.fatal = true
	}
}

func genC09(t *rapid.T) c09Case {
	c := c09Case{
		Server: rapid.IntRange(0, 2).Draw(t, "side") != 0,
		End:    pick(t, "end", "eof", "keep", "keep", "reset"),
		Mode:   pick(t, "mode", "read", "read", "read", "return", "ctx", "echo"),
		SDelay: pick(t, "sdelay", 0, 0, 100, 5000),
		Out:    wire.Plan{Seed: rapid.Uint64Range(0, 1000).Draw(t, "oseed"), Chunk: pick(t, "chunk", 0, 0, 1, 5), Delay: pick(t, "delay", 0, 0, 300)},
		Sched:  genSched(t),
	}
	if c.Server && rapid.IntRange(0, 7).Draw(t, "first") != 3 {
		c.Items = append(c.Items, c09Item{What: "start", B: enc(srpc.NewCallStartPacket("s", "m", nil, false))})
	}
	for range pick(t, "n", 1, 1, 2, 3, 4, 6, 10) {
		c.Items = append(c.Items, genC09Item(t))
	}
	return c
}

func runC09(c c09Case, in *vt.Info) error {
	// what the peer sends, and what that means.
	var stream []byte
	var outs [][]byte
	for _, it := range c.Items {
		b := it.B
		if !it.Raw {
			b = append([]byte{byte(len(b)), byte(len(b) >> 8), byte(len(b) >> 16), 0}, b...)
		}
		outs = append(outs, b)
		stream = append(stream, b...)
	}
	frames, bad := refFrames(stream)
	a := &automaton{server: c.Server}
	for i, f := range frames {
		a.step(f)
		if a.fatal {
			a.nfatal = i
			break
		}
	}
	if bad && !a.unsure && !a.cancel {
		a.fatal = true
	}
	if a.unsure {
		in.Label("unsure")
	}
	in.LabelIf(a.fatal, "violates the protocol")
	in.LabelIf(a.cancel, "cancelled by the peer")
	in.LabelIf(a.started, "started")
	in.LabelIf(!a.fatal && !a.unsure && a.closed && !a.cancel, "completed in order")
	in.NonTrivial = a.fatal || a.closed || len(a.queue) > 0

	ep, peer := wire.Pipe(wire.Plan{}, c.Out)
	type seen struct {
		svc, met string
	}
	var runs []seen
	var got [][]byte
	var ends []error
	fin := make(chan struct{})
	ctxGone := make(chan struct{})
	resp := false
	read := func(s srpc.Stream, echo bool) {
		sleepUs(c.SDelay)
		for {
			m, err := recv(s)
			if err != nil {
				ends = append(ends, err)
				_, err2 := recv(s)
				ends = append(ends, err2)
				return
			}
			got = append(got, m)
			if echo {
				_ = send(s, m)
			}
		}
	}
	handlerDone := make(chan struct{})
	if c.Server {
		srv := srpc.NewServer(srpc.InvokerFunc(func(svc, met string, s srpc.Stream) (bool, error) {
			runs = append(runs, seen{svc, met})
			if len(runs) > 1 {
				return true, nil
			}
			defer close(handlerDone)
			context.AfterFunc(s.Context(), func() { close(ctxGone) })
			switch c.Mode {
			case "return":
				sleepUs(c.SDelay)
			case "ctx":
				<-s.Context().Done()
			default:
				read(s, c.Mode == "echo")
			}
			resp = true
			return true, nil
		}))
		go func() {
			srv.HandleStream(context.Background(), ep)
			close(fin)
		}()
	} else {
		cl := srpc.NewClient(func(ctx context.Context, mh srpc.PacketDataHandler, ch srpc.CloseHandler) (srpc.PacketWriter, error) {
			prw := srpc.NewPacketReadWriter(ep)
			go func() {
				prw.ReadPump(mh, ch)
				close(fin)
			}()
			return prw, nil
		})
		s, err := cl.NewStream(context.Background(), "s", "m", nil)
		if err != nil {
			return fmt.Errorf("NewStream: %w", err)
		}
		go func() {
			defer close(handlerDone)
			read(s, c.Mode == "echo")
		}()
	}
	// the peer reads what it gets.
	var back bytes.Buffer
	peerEnd := done(func() { _, _ = io.Copy(&back, peer) })
	for i, b := range outs {
		sleepUs(c.Items[i].D)
		for len(b) > 0 {
			n, err := peer.Write(b)
			if err != nil {
				break
			}
			b = b[n:]
		}
	}
	// let everything arrive.
	time.Sleep(time.Minute)
	isDone := func(ch <-chan struct{}) bool {
		select {
		case <-ch:
			return true
		default:
			return false
		}
	}
	ended := "the peer's bytes: " + fmt.Sprintf("%x", stream)
	early := c.Mode == "return" && a.started // the handler may have returned before
	if a.fatal && c.End == "keep" {
		// without any help of the peer:
		if !isDone(peerEnd) {
			return fmt.Errorf("the stream was not closed after a violation of the protocol; %s", ended)
		}
		if a.started && !isDone(ctxGone) {
			return fmt.Errorf("the context of the handler was not cancelled after a violation of the protocol; %s", ended)
		}
		if (a.started || !c.Server) && !isDone(handlerDone) {
			return fmt.Errorf("an operation of the call is still blocked after a violation of the protocol; %s", ended)
		}
	}
	if a.cancel && c.End == "keep" && !a.fatal && !a.unsure {
		if !isDone(peerEnd) || a.started && !isDone(ctxGone) || (a.started || !c.Server) && !isDone(handlerDone) {
			return fmt.Errorf("the call was not ended after it was cancelled by the peer; %s", ended)
		}
	}
	switch c.End {
	case "reset":
		_ = peer.Reset()
	default:
		_ = peer.Close()
	}
	if err := vt.Await("the end of the stream's reader", fin); err != nil {
		return err
	}
	time.Sleep(time.Minute)
	if a.unsure {
		if len(runs) > 1 {
			return fmt.Errorf("the handler was started %d times; %s", len(runs), ended)
		}
		return nil
	}
	want := 0
	if a.started {
		want = 1
	}
	if len(runs) != want {
		return fmt.Errorf("the handler was started %d times, want %d; %s", len(runs), want, ended)
	}
	if a.started {
		if runs[0] != (seen{a.svc, a.met}) {
			return fmt.Errorf("the handler was started for %q %q, the start packet says %q %q", runs[0].svc, runs[0].met, a.svc, a.met)
		}
		if err := vt.Await("the end of the handler", handlerDone); err != nil {
			return err
		}
		if err := vt.Await("the cancellation of the handler's context", ctxGone); err != nil {
			return err
		}
	}
	if !c.Server {
		if err := vt.Await("the end of the receive at the caller", handlerDone); err != nil {
			return err
		}
	}
	reads := c.Mode == "read" || c.Mode == "echo" || !c.Server
	if reads && (a.started || !c.Server) {
		if !isPrefix(got, a.queue) {
			return fmt.Errorf("received %s, the well-formed packets have %s; %s", showAll(got), showAll(a.queue), ended)
		}
		for _, e := range ends {
			switch {
			case a.closed && a.endErr == "" && e != io.EOF:
				return fmt.Errorf("the peer completed, the receive ends with %q; %s", errText(e), ended)
			case a.closed && a.endErr != "" && errText(e) != a.endErr:
				return fmt.Errorf("the peer ended with %q, the receive ends with %q; %s", a.endErr, errText(e), ended)
			case a.fatal && !a.closed && (e == nil || e == io.EOF):
				return fmt.Errorf("after a violation of the protocol the receive ends with %q; %s", errText(e), ended)
			}
		}
		if a.closed && !sameMsgs(got, a.queue) {
			return fmt.Errorf("received %s, sent before the end %s; %s", showAll(got), showAll(a.queue), ended)
		}
	}
	_, _ = resp, early
	return nil
}

func TestC09_Stream(t *testing.T) {
	vt.Check(t, vt.Prop[c09Case]{
		Rule:  "a server or client endpoint gets 1-11 drawn items over a byte stream (valid packets in any order, starts with empty names, second starts, data after completion, cancels, unknown fields, mutated and random packets, raw bytes, oversized and empty frames), then the peer keeps, closes or resets the stream; a reference automaton with standard protobuf decoding says which handler starts with which messages, how reading ends and whether the endpoint must close the stream; non-trivial: data, completion or a violation",
		Quick: 60000, Thorough: 1200000,
		Gen: genC09,
		Run: func(t *testing.T, c c09Case, in *vt.Info) error {
			for _, it := range c.Items {
				in.Label("item: " + it.What)
			}
			in.LabelIf(c.Server, "server")
			in.LabelIf(!c.Server, "client")
			return bubble(t, c.Sched, false, func() error { return runC09(c, in) })
		},
	})
}

type directWriter struct {
	mu     sync.Mutex
	closed int
	pkts   []val
}

func (d *directWriter) WritePacket(p *srpc.Packet) error {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.pkts = append(d.pkts, realVal(p))
	return nil
}

func (d *directWriter) Close() error {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.closed++
	return nil
}

func (d *directWriter) get() (int, []val) {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.closed, d.pkts
}

// TestC09_Direct feeds packets directly and looks at each result.
func TestC09_Direct(t *testing.T) {
	vt.Check(t, vt.Prop[c09Case]{
		Rule:  "the same items, handled directly by a server or client rpc one by one (as bytes, or decoded; a client may start after the first packets): each must be refused with an error or accepted as the reference automaton says, and then the stream is closed; non-trivial: data, completion or a violation",
		Quick: 60000, Thorough: 1000000,
		Gen: func(t *rapid.T) c09Case {
			c := genC09(t)
			for i := range c.Items {
				c.Items[i].Raw = false
			}
			c.Mode = pick(t, "mode2", "read", "ctx")
			if !c.Server {
				c.Late = pick(t, "late", 0, 0, 1, 2, 3, 20)
			}
			return c
		},
		Run: func(t *testing.T, c c09Case, in *vt.Info) error {
			return bubble(t, c.Sched, false, func() error { return runC09Direct(c, in) })
		},
	})
}

func runC09Direct(c c09Case, in *vt.Info) error {
	w := &directWriter{}
	var handle func([]byte) error
	var handlePkt func(*srpc.Packet) error
	var closed func(error)
	starts := 0
	ended := make(chan struct{})
	var got [][]byte
	rctx, rcancel := context.WithCancel(context.Background())
	defer rcancel()
	var start func() // of the client, if not started yet
	startFailed := false
	if c.Server {
		r := srpc.NewServerRPC(rctx, srpc.InvokerFunc(func(svc, met string, s srpc.Stream) (bool, error) {
			if starts++; starts > 1 {
				return true, nil
			}
			defer close(ended)
			if c.Mode == "ctx" {
				<-s.Context().Done()
				return true, nil
			}
			for {
				m, err := recv(s)
				if err != nil {
					<-s.Context().Done()
					return true, nil
				}
				got = append(got, m)
			}
		}), w)
		handle, handlePkt, closed = r.HandlePacketData, r.HandlePacket, r.HandleStreamClose
	} else {
		r := srpc.NewClientRPC(rctx, "s", "m")
		handle, handlePkt, closed = r.HandlePacketData, r.HandlePacket, r.HandleStreamClose
		start = func() {
			start = nil
			if err := r.Start(w, false, nil); err != nil {
				startFailed = true
				close(ended)
				return
			}
			go func() {
				defer close(ended)
				for {
					m, err := r.ReadOne()
					if err != nil {
						return
					}
					got = append(got, m)
				}
			}()
		}
		if c.Late == 0 {
			start()
		}
	}
	a := &automaton{server: c.Server}
	for i, it := range c.Items {
		sleepUs(it.D)
		if start != nil && c.Late <= i {
			start()
		}
		was := *a
		a.step(it.B)
		var err error
		data := bytes.Clone(it.B)
		p := &srpc.Packet{}
		if i%3 == 2 && p.UnmarshalVT(data) == nil {
			err = handlePkt(p)
		} else {
			err = handle(data)
		}
		for j := range data {
			data[j] = 0x55 // the buffer is used again for other packets
		}
		if a.unsure {
			in.Label("unsure")
			break
		}
		if was.cancel {
			continue // refused or ignored, with no effect
		}
		if a.fatal != (err != nil) {
			return fmt.Errorf("packet %d (%s, %x): result %q, the protocol is violated: %v", i, it.What, it.B, errText(err), a.fatal)
		}
		if a.fatal {
			// as the read loop does.
			closed(err)
			break
		}
	}
	in.LabelIf(a.fatal, "violates the protocol")
	in.NonTrivial = a.fatal || a.closed || len(a.queue) > 0
	if start != nil {
		start()
	}
	in.LabelIf(c.Late > 0, "packets before the start")
	if startFailed && !a.fatal && !a.cancel && !a.unsure {
		return errors.New("the call could not start")
	}
	time.Sleep(time.Minute)
	if a.fatal || a.cancel {
		if n, _ := w.get(); n == 0 {
			return errors.New("the writer was not closed")
		}
	} else {
		closed(nil)
	}
	if a.started || !c.Server {
		if err := vt.Await("the end of the call", ended); err != nil {
			return err
		}
	}
	if a.unsure {
		return nil
	}
	if want := map[bool]int{true: 1}[a.started]; c.Server && starts != want {
		return fmt.Errorf("the handler was started %d times, want %d", starts, want)
	}
	if (a.started || !c.Server) && c.Mode != "ctx" {
		if !isPrefix(got, a.queue) {
			return fmt.Errorf("received %s, the packets have %s", showAll(got), showAll(a.queue))
		}
		if a.closed && !startFailed && !sameMsgs(got, a.queue) {
			return fmt.Errorf("received %s, sent before the end %s", showAll(got), showAll(a.queue))
		}
	}
	return nil
}
