package props

import (
	"bytes"
	"context"
	"fmt"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/libp2p/go-libp2p/core/network"
	yamux "github.com/libp2p/go-yamux/v4"
	"pgregory.net/rapid"
	"verif/harness/vt"
)

// confCase is a connection whose entry point is given a configuration, or none.
type confCase struct {
	Entry    string `json:"entry"`
	Outbound bool   `json:"outbound"`
	// Ping is how often the end pings the other (s), Max how many streams it accepts; 0: no configuration.
	Ping int `json:"ping,omitempty"`
	Max  int `json:"max,omitempty"`
	Life int `json:"life"` // s
	Open int `json:"open"` // streams which the other end opens
}

// pingConn counts the pings written to it (not the answers).
type pingConn struct {
	net.Conn
	mtx   sync.Mutex
	pings int
}

func (p *pingConn) Write(b []byte) (int, error) {
	// yamux: version, type (2: ping), flags (1: SYN).
	if len(b) >= 12 && b[0] == 0 && b[1] == 2 && b[3]&1 != 0 {
		p.mtx.Lock()
		p.pings++
		p.mtx.Unlock()
	}
	return p.Conn.Write(b)
}

// oneListener accepts one connection.
type oneListener struct {
	ch chan net.Conn
}

func (l *oneListener) Accept() (net.Conn, error) {
	c, ok := <-l.ch
	if !ok {
		return nil, net.ErrClosed
	}
	return c, nil
}
func (l *oneListener) Close() error   { return nil }
func (l *oneListener) Addr() net.Addr { return &net.TCPAddr{} }

func runConf(c confCase, in *vt.Info) error {
	var conf *yamux.Config
	if c.Ping > 0 {
		conf = srpc.NewYamuxConfig()
		conf.MeasureRTTInterval = time.Duration(c.Ping) * time.Second
		conf.MaxIncomingStreams = uint32(c.Max)
	}
	a, b := net.Pipe()
	pc := &pingConn{Conn: a}
	defer b.Close()
	defer a.Close()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var mtx sync.Mutex
	served := 0
	mux := srpc.NewMux()
	if err := mux.Register(&handler{svc: "s", mets: []string{"m"}, fn: func(_, _ string, s srpc.Stream) (bool, error) {
		mtx.Lock()
		served++
		mtx.Unlock()
		<-s.Context().Done()
		return true, nil
	}}); err != nil {
		return err
	}
	srv := srpc.NewServer(mux)
	serves := false
	outbound := c.Outbound
	switch c.Entry {
	case "conn", "rwc":
		mc, err := func() (network.MuxedConn, error) {
			if c.Entry == "rwc" {
				return srpc.NewMuxedConnWithRwc(ctx, pc, outbound, conf)
			}
			return srpc.NewMuxedConn(pc, outbound, conf)
		}()
		if err != nil {
			return err
		}
		defer mc.Close()
		go func() { _ = srv.AcceptMuxedConn(ctx, mc) }()
		serves = true
	case "client":
		if _, err := srpc.NewClientWithConn(pc, outbound, conf); err != nil {
			return err
		}
	case "listener":
		lis := &oneListener{ch: make(chan net.Conn, 1)}
		lis.ch <- pc
		defer close(lis.ch)
		go func() { _ = srpc.AcceptMuxedListener(ctx, lis, srv, conf) }()
		outbound = false
		serves = true
	}
	other := yamux.DefaultConfig()
	other.EnableKeepAlive = false
	other.LogOutput = nopWriter{}
	mk := yamux.Client
	if outbound {
		mk = yamux.Server
	}
	sess, err := mk(b, other, nil)
	if err != nil {
		return err
	}
	defer sess.Close()
	if serves {
		for range c.Open {
			st, err := sess.OpenStream(ctx)
			if err != nil {
				return fmt.Errorf("opening a stream: %w", err)
			}
			prw := srpc.NewPacketReadWriter(st)
			rpc := srpc.NewClientRPC(ctx, "s", "m")
			go prw.ReadPump(rpc.HandlePacketData, rpc.HandleStreamClose)
			// refused streams are reset.
			_ = rpc.Start(prw, true, []byte("x"))
		}
	}
	time.Sleep(time.Duration(c.Life)*time.Second + 500*time.Millisecond)
	pc.mtx.Lock()
	pings := pc.pings
	pc.mtx.Unlock()
	mtx.Lock()
	n := served
	mtx.Unlock()
	every := 30
	if c.Ping > 0 {
		every = c.Ping
	}
	if want := 1 + c.Life/every; pings != want {
		return fmt.Errorf("%s: a ping every %d s for %d s makes %d, sent %d", c.Entry, every, c.Life, want, pings)
	}
	if serves {
		want := c.Open
		if c.Ping > 0 {
			want = min(want, c.Max)
		}
		if n != want {
			return fmt.Errorf("%s: the remote opened %d streams, the configured maximum is %d, %d were served", c.Entry, c.Open, c.Max, n)
		}
		in.LabelIf(c.Ping > 0 && c.Open > c.Max, "refused")
	}
	return nil
}

type nopWriter struct{}

func (nopWriter) Write(b []byte) (int, error) { return len(b), nil }

func TestC06_Config(t *testing.T) {
	vt.Check(t, vt.Prop[confCase]{
		Rule:  "a connection (made by NewMuxedConn, NewMuxedConnWithRwc, NewClientWithConn, AcceptMuxedListener) with a drawn muxer configuration or none: how often it pings and how many streams it accepts are as configured; non-trivial: with a configuration",
		Quick: 2000, Thorough: 20000,
		Gen: func(t *rapid.T) confCase {
			c := confCase{
				Entry:    pick(t, "entry", "conn", "rwc", "client", "listener"),
				Outbound: rapid.Bool().Draw(t, "outbound"),
				Life:     rapid.IntRange(1, 100).Draw(t, "life"),
				Open:     rapid.IntRange(0, 12).Draw(t, "open"),
			}
			if rapid.IntRange(0, 2).Draw(t, "conf") > 0 {
				c.Ping, c.Max = pick(t, "ping", 1, 2, 7, 45), pick(t, "max", 1, 3, 8, 50)
			}
			return c
		},
		Run: func(t *testing.T, c confCase, in *vt.Info) error {
			in.Label(c.Entry)
			in.NonTrivial = c.Ping > 0
			return vt.Bubble(t, true, func() error {
				err := runConf(c, in)
				time.Sleep(time.Minute)
				return err
			})
		},
	})
}

// stallCase is a connection which an end reads nothing of for a while.
type stallCase struct {
	Client bool  `json:"client"` // which end
	At     int   `json:"at"`     // ms
	For    int   `json:"for"`    // ms
	Calls  []int `json:"calls"`  // when they start (ms)
	Len    []int `json:"len"`    // of requests and responses
	Rwc    bool  `json:"rwc"`
}

type stallConn struct {
	net.Conn
	from, to time.Time
}

func (s *stallConn) Read(b []byte) (int, error) {
	if now := time.Now(); !now.Before(s.from) && now.Before(s.to) {
		time.Sleep(s.to.Sub(now))
	}
	return s.Conn.Read(b)
}

func runStall(c stallCase) error {
	ca, sa := net.Pipe()
	defer ca.Close()
	defer sa.Close()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var a, b net.Conn = ca, sa
	from := time.Now().Add(time.Duration(c.At) * time.Millisecond)
	to := from.Add(time.Duration(c.For) * time.Millisecond)
	if c.Client {
		a = &stallConn{Conn: a, from: from, to: to}
	} else {
		b = &stallConn{Conn: b, from: from, to: to}
	}
	mk := func(conn net.Conn, outbound bool) (network.MuxedConn, error) {
		if c.Rwc {
			return srpc.NewMuxedConnWithRwc(ctx, conn, outbound, nil)
		}
		return srpc.NewMuxedConn(conn, outbound, nil)
	}
	mc, err := mk(a, true)
	if err != nil {
		return err
	}
	defer mc.Close()
	ms, err := mk(b, false)
	if err != nil {
		return err
	}
	defer ms.Close()
	srv := srpc.NewServer(srpc.InvokerFunc(func(_, _ string, s srpc.Stream) (bool, error) {
		m, err := recv(s)
		if err != nil {
			return true, err
		}
		return true, send(s, m)
	}))
	go func() { _ = srv.AcceptMuxedConn(ctx, ms) }()
	client := srpc.NewClientWithMuxedConn(mc)
	var es errs
	var wg sync.WaitGroup
	for i, at := range c.Calls {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(at) * time.Millisecond)
			req := bytes.Repeat([]byte{byte('a' + i)}, c.Len[i%len(c.Len)])
			out := srpc.NewRawMessage(nil, true)
			if err := client.ExecCall(ctx, "s", "m", raw(req), out); err != nil {
				es.add(fmt.Errorf("call %d at %d ms (%d bytes): the connection stalled at %d ms for %d ms; %w", i, at, len(req), c.At, c.For, err))
			} else if !bytes.Equal(out.GetData(), req) {
				es.add(fmt.Errorf("call %d at %d ms: the response is %s", i, at, show(out.GetData())))
			}
		}()
	}
	nd := done(wg.Wait)
	select {
	case <-nd:
	case <-time.After(time.Minute):
		return fmt.Errorf("calls at %v ms have not ended, the connection stalled at %d ms for %d ms", c.Calls, c.At, c.For)
	}
	return es.get()
}

func TestC06_Stall(t *testing.T) {
	vt.Check(t, vt.Prop[stallCase]{
		Rule:  "1-8 unary calls on a connection of which one end reads nothing for 0.2 to 8 s (the muxer's configuration allows 10 s): each ends as it would without; non-trivial: a call starts before the end of the stall",
		Quick: 3000, Thorough: 40000,
		Gen: func(t *rapid.T) stallCase {
			return stallCase{
				Client: rapid.Bool().Draw(t, "client"),
				At:     pick(t, "at", 0, 0, 1, 500),
				For:    pick(t, "for", 200, 900, 1500, 3000, 6000, 8000),
				Calls:  rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 1, 400, 600, 2000, 7000, 9000}), 1, 8).Draw(t, "calls"),
				Len:    rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 10, 3000, 70000, 400000}), 1, 4).Draw(t, "len"),
				Rwc:    pick(t, "rwc", false, false, true),
			}
		},
		Run: func(t *testing.T, c stallCase, in *vt.Info) error {
			for _, at := range c.Calls {
				in.NonTrivial = in.NonTrivial || at < c.At+c.For
			}
			in.LabelIf(c.Client, "the client stalls")
			in.LabelIf(c.Rwc, "rwc")
			return vt.Bubble(t, true, func() error {
				err := runStall(c)
				time.Sleep(time.Minute)
				return err
			})
		},
	})
}
