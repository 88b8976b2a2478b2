package props

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
	"pgregory.net/rapid"
	"verif/harness/vt"
)

// mClient is one of the clients of a listening server.
type mClient struct {
	Kind  string  `json:"kind"` // calls, idle, garbage, silent, drop
	Start int     `json:"start,omitempty"`
	At    int     `json:"at,omitempty"`  // when it disconnects
	How   string  `json:"how,omitempty"` // how it disconnects: close, fail, cut
	Calls []sCall `json:"calls,omitempty"`
	Waits int     `json:"waits,omitempty"` // calls whose handlers wait for their context
	Bytes []byte  `json:"bytes,omitempty"`
}

// mConn is the connection of a client.
type mConn struct {
	Client srpc.Client
	// Kill disconnects: "close" closes the multiplexed connection, "fail"
	// breaks the transport, "cut" ends the transport.
	Kill func(how string)
	// Raw writes bytes to the transport, next to the client.
	Raw func([]byte)
}

func genMClients(t *rapid.T, big bool, hows []string, kinds ...string) (out []mClient, maxMsg int) {
	n := pick(t, "clients", 1, 2, 2, 3, 4, 7)
	for range n {
		c := mClient{Kind: pick(t, "ckind", kinds...), Start: pick(t, "cstart", 0, 0, 30, 1000, 20000)}
		switch c.Kind {
		case "calls":
			for range pick(t, "ncalls", 1, 1, 2, 4) {
				s := genSCall(t, big)
				maxMsg = max(maxMsg, s.maxMsg())
				c.Calls = append(c.Calls, s)
			}
		case "garbage":
			c.Bytes = rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(t, "bytes")
			if rapid.Bool().Draw(t, "likeFrame") {
				// a frame header of the multiplexer with drawn fields.
				c.Bytes = append([]byte{0, pick(t, "ftype", byte(0), 0, 1, 2, 3, 9), 0, byte(rapid.IntRange(0, 15).Draw(t, "fflags")), 0, 0, 0, byte(rapid.IntRange(0, 5).Draw(t, "fid"))}, c.Bytes...)
			}
		case "drop":
			c.Waits = rapid.IntRange(1, 4).Draw(t, "waits")
			c.How = pick(t, "how", hows...)
			c.At = pick(t, "at", 0, 20, 300, 5000, 60000)
			if rapid.Bool().Draw(t, "dropCalls") {
				s := genSCall(t, false)
				maxMsg = max(maxMsg, s.maxMsg())
				c.Calls = append(c.Calls, s)
			}
		}
		out = append(out, c)
	}
	return out, maxMsg
}

func mLabels(in *vt.Info, cs []mClient) {
	busy, other := 0, 0
	for _, c := range cs {
		in.Label("client: " + c.Kind)
		if c.Kind == "calls" || c.Kind == "drop" {
			busy++
		} else {
			other++
		}
		in.LabelIf(c.Kind == "drop", "disconnects: "+c.How)
	}
	in.NonTrivial = len(cs) > 1 && busy > 0
}

// mServer serves the calls of the clients.
type mServer struct {
	clients []mClient
	recs    [][]*sRec
	mux     srpc.Mux

	mu      sync.Mutex
	started map[int]int // handlers that wait, by client
	ended   map[int]int
	ch      chan struct{} // closed when a waiting handler starts or ends
}

func newMServer(clients []mClient) *mServer {
	m := &mServer{clients: clients, mux: srpc.NewMux(), started: map[int]int{}, ended: map[int]int{}, ch: make(chan struct{})}
	wait := &handler{svc: "w"}
	for i, c := range clients {
		recs := make([]*sRec, len(c.Calls))
		for k := range recs {
			recs[k] = newRec()
		}
		m.recs = append(m.recs, recs)
		_ = m.mux.Register(streamServer(fmt.Sprintf("s%d", i), c.Calls, recs))
		wait.mets = append(wait.mets, fmt.Sprintf("w%d", i))
	}
	wait.fn = func(_, met string, s srpc.Stream) (bool, error) {
		var i int
		_, _ = fmt.Sscanf(met, "w%d", &i)
		m.count(m.started, i)
		defer m.count(m.ended, i)
		<-s.Context().Done()
		return true, s.Context().Err()
	}
	_ = m.mux.Register(wait)
	_ = m.mux.Register(&handler{svc: "e", mets: []string{"echo"}, fn: func(_, _ string, s srpc.Stream) (bool, error) {
		b, err := recv(s)
		if err != nil {
			return true, err
		}
		return true, send(s, b)
	}})
	return m
}

func (m *mServer) count(c map[int]int, i int) {
	m.mu.Lock()
	c[i]++
	close(m.ch)
	m.ch = make(chan struct{})
	m.mu.Unlock()
}

// until waits until cond holds.
func (m *mServer) until(what string, cond func() bool) error {
	return vt.AwaitFor(what, done(func() {
		for end := time.Now().Add(time.Hour); time.Now().Before(end); {
			m.mu.Lock()
			ok, ch := cond(), m.ch
			m.mu.Unlock()
			if ok {
				return
			}
			select {
			case <-ch:
			case <-time.After(time.Minute):
			}
		}
		select {}
	}), 50*time.Minute)
}

func echoCall(cl srpc.Client, text string) error {
	out := raw(nil)
	var err error
	if e := vt.AwaitFor("the result of a call", done(func() { err = cl.ExecCall(context.Background(), "e", "echo", raw([]byte(text)), out) }), 30*time.Minute); e != nil {
		return e
	}
	if err != nil {
		return fmt.Errorf("call failed: %w", err)
	}
	if string(out.GetData()) != text {
		return fmt.Errorf("call returned %q, want %q", out.GetData(), text)
	}
	return nil
}

// run runs one client.
func (m *mServer) run(i int, connect func(i int, c *mClient) (*mConn, error)) error {
	c := &m.clients[i]
	sleepUs(c.Start)
	var con *mConn
	var err error
	if e := vt.AwaitFor("connecting", done(func() { con, err = connect(i, c) }), 30*time.Minute); e != nil {
		return e
	}
	if err != nil {
		return fmt.Errorf("connecting: %w", err)
	}
	switch c.Kind {
	case "idle":
		return nil
	case "silent":
		// calls nothing, but has a stream that sends nothing.
		if _, err := con.Client.NewStream(context.Background(), "none", "none", nil); err != nil {
			return fmt.Errorf("opening a stream: %w", err)
		}
		return nil
	case "garbage":
		con.Raw(c.Bytes)
		return nil
	}
	// messages of calls
	var es errs
	var wg sync.WaitGroup
	svc := fmt.Sprintf("s%d", i)
	for k := range c.Calls {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if err := m.recs[i][k].call(context.Background(), con.Client, svc, fmt.Sprintf("m%d", k), &c.Calls[k]); err != nil {
				es.add(fmt.Errorf("call %d: %w", k, err))
			}
		}()
	}
	for range c.Waits {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if err := con.Client.ExecCall(context.Background(), "w", fmt.Sprintf("w%d", i), raw(nil), raw(nil)); err == nil {
				es.add(errors.New("a call without response returned no error"))
			}
		}()
	}
	if c.Kind == "drop" {
		if err := m.until("the start of the handlers", func() bool { return m.started[i] == c.Waits }); err != nil {
			return err
		}
		sleepUs(c.At)
		con.Kill(c.How)
		if err := m.until("the end of the handlers of a disconnected client", func() bool { return m.ended[i] == c.Waits }); err != nil {
			return err
		}
	}
	if err := vt.AwaitFor("the end of the calls of a client", done(wg.Wait), 3*time.Hour); err != nil {
		return errors.Join(es.get(), err)
	}
	for k := range c.Calls {
		s, r := &c.Calls[k], m.recs[i][k]
		fs := []func(*sCall) error{r.checkPrefix}
		if c.Kind == "calls" {
			if r.OpenErr == nil {
				if err := vt.Await(fmt.Sprintf("the end of the handler of call %d", k), r.SDone); err != nil {
					es.add(err)
					continue
				}
			}
			fs = []func(*sCall) error{r.checkMsgs, r.checkHalf, r.checkEnds}
		}
		for _, f := range fs {
			if err := f(s); err != nil {
				es.add(fmt.Errorf("call %d: %w", k, err))
			}
		}
	}
	if c.Kind == "calls" {
		es.add(echoCall(con.Client, "again"))
	}
	return es.get()
}

// runAll runs all clients, and then one more.
func (m *mServer) runAll(connect func(i int, c *mClient) (*mConn, error)) error {
	var es errs
	var wg sync.WaitGroup
	for i := range m.clients {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if err := m.run(i, connect); err != nil {
				es.add(fmt.Errorf("client %d (%s): %w", i, m.clients[i].Kind, err))
			}
		}()
	}
	if err := vt.AwaitFor("the end of all clients", done(wg.Wait), 12*time.Hour); err != nil {
		return errors.Join(es.get(), err)
	}
	if err := es.get(); err != nil {
		return err
	}
	con, err := connect(len(m.clients), &mClient{Kind: "calls"})
	if err != nil {
		return fmt.Errorf("connecting another client: %w", err)
	}
	if err := echoCall(con.Client, "last"); err != nil {
		return fmt.Errorf("another client: %w", err)
	}
	return nil
}
