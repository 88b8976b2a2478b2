package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/coder/websocket"
	"github.com/libp2p/go-libp2p/core/network"
	"pgregory.net/rapid"
	"verif/harness/vt"
	"verif/harness/wire"
)

// hReq is a HTTP request that is no WebSocket client of the server.
type hReq struct {
	Path    string `json:"path"`
	Method  string `json:"method"`
	Upgrade string `json:"upgrade,omitempty"` // ws: a correct WebSocket request; else: an incorrect one
	Body    []byte `json:"body,omitempty"`
	Start   int    `json:"start,omitempty"`
}

type c22Case struct {
	T       TCfg      `json:"t"`
	Path    string    `json:"path"`  // the configured path
	Query   []string  `json:"query"` // the request URIs the clients use
	Sub     bool      `json:"sub,omitempty"`
	Foreign int       `json:"foreign,omitempty"` // bit i: client i is not this package's, as a browser
	Clients []mClient `json:"clients"`
	Reqs    []hReq    `json:"reqs,omitempty"`
}

// memHTTP serves a handler over an in-memory listener.
type memHTTP struct {
	lis *wire.Listener
	srv *http.Server
	cfg TCfg

	mu    sync.Mutex
	n     uint64
	conns []*wire.Conn
}

func newMemHTTP(cfg TCfg, h http.Handler) *memHTTP {
	s := &memHTTP{lis: wire.NewListener(), srv: &http.Server{Handler: h}, cfg: cfg}
	go func() { _ = s.srv.Serve(s.lis) }()
	return s
}

func (s *memHTTP) close() {
	_ = s.srv.Close()
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, c := range s.conns {
		_ = c.Close()
	}
}

// client returns a HTTP client with its own connection.
func (s *memHTTP) client() (*http.Client, func() *wire.Conn) {
	var last *wire.Conn
	return &http.Client{
			CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse },
			Transport: &http.Transport{DisableKeepAlives: true, DialContext: func(context.Context, string, string) (net.Conn, error) {
				s.mu.Lock()
				defer s.mu.Unlock()
				s.n++
				out, in := s.cfg.Out, s.cfg.In
				out.Seed += s.n
				in.Seed += s.n
				c, err := s.lis.Dial(out, in)
				if err != nil {
					return nil, err
				}
				s.conns = append(s.conns, c)
				last = c
				return c, nil
			}},
		}, func() *wire.Conn {
			s.mu.Lock()
			defer s.mu.Unlock()
			return last
		}
}

// pathOf returns the path of a request URI.
func pathOf(uri string) string {
	p, _, _ := strings.Cut(uri, "?")
	return strings.ReplaceAll(p, "%20", " ")
}

func runReq(s *memHTTP, r hReq, c *c22Case) error {
	sleepUs(r.Start)
	hc, _ := s.client()
	match := c.Path == "" || pathOf(r.Path) == c.Path
	if r.Upgrade == "ws" {
		if match {
			return nil
		}
		ws, _, err := websocket.Dial(context.Background(), "ws://mem"+r.Path, &websocket.DialOptions{HTTPClient: hc})
		if err == nil {
			_ = ws.CloseNow()
			return fmt.Errorf("a WebSocket connection was accepted on %q, the path is %q", r.Path, c.Path)
		}
		return nil
	}
	req, err := http.NewRequest(r.Method, "http://mem"+r.Path, bytes.NewReader(r.Body))
	if err != nil {
		return vt.Infra(err)
	}
	key := "dGhlIHNhbXBsZSBub25jZQ=="
	switch r.Upgrade {
	case "nokey":
		key = ""
	case "badkey":
		key = "x"
	}
	if r.Upgrade != "" {
		req.Header.Set("Connection", "Upgrade")
		req.Header.Set("Upgrade", "websocket")
		req.Header.Set("Sec-WebSocket-Version", "13")
		if key != "" {
			req.Header.Set("Sec-WebSocket-Key", key)
		}
		switch r.Upgrade {
		case "version":
			req.Header.Set("Sec-WebSocket-Version", "7")
		case "origin":
			req.Header.Set("Origin", "http://elsewhere.example")
		case "post":
			req.Method = "POST"
		}
	}
	resp, err := hc.Do(req)
	if err != nil {
		return fmt.Errorf("HTTP request %s %s %s: %w", req.Method, r.Path, r.Upgrade, err)
	}
	defer resp.Body.Close()
	if resp.StatusCode == http.StatusSwitchingProtocols {
		return fmt.Errorf("HTTP request %s %s with %q headers was upgraded", req.Method, r.Path, r.Upgrade)
	}
	_, _ = io.Copy(io.Discard, resp.Body)
	return nil
}

func runC22(c c22Case) error {
	m := newMServer(append([]mClient{}, c.Clients...))
	var opts *websocket.AcceptOptions
	if c.Sub {
		opts = &websocket.AcceptOptions{Subprotocols: []string{"proto-a", "proto-b"}}
	}
	hs, err := srpc.NewHTTPServer(m.mux, c.Path, opts)
	if err != nil {
		return fmt.Errorf("NewHTTPServer: %w", err)
	}
	s := newMemHTTP(c.T, hs)
	defer s.close()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	connect := func(i int, cl *mClient) (*mConn, error) {
		hc, last := s.client()
		uri := c.Query[i%len(c.Query)]
		opts := &websocket.DialOptions{HTTPClient: hc}
		if c.Sub {
			opts.Subprotocols = []string{"proto-b"}
		}
		ws, _, err := websocket.Dial(ctx, "ws://mem"+uri, opts)
		if err != nil {
			return nil, fmt.Errorf("path %q, server path %q: %w", uri, c.Path, err)
		}
		if c.Sub && ws.Subprotocol() != "proto-b" {
			return nil, fmt.Errorf("the accept options are not used: subprotocol %q", ws.Subprotocol())
		}
		con := &mConn{Raw: func(b []byte) {
			switch b[0] % 3 {
			case 0:
				_ = ws.Write(ctx, websocket.MessageBinary, b)
			case 1:
				_ = ws.Write(ctx, websocket.MessageText, b)
			default:
				_, _ = last().Write(b)
			}
		}}
		if cl.Kind == "garbage" {
			return con, nil
		}
		var mc network.MuxedConn
		if c.Foreign>>(i%8)&1 == 1 {
			// binary messages which carry the multiplexer's bytes.
			mc, err = srpc.NewMuxedConn(websocket.NetConn(ctx, ws, websocket.MessageBinary), true, nil)
		} else {
			mc, err = srpc.NewWebSocketConn(ctx, ws, false, nil)
		}
		if err != nil {
			return nil, fmt.Errorf("NewWebSocketConn: %w", err)
		}
		con.Client = srpc.NewClientWithMuxedConn(mc)
		con.Kill = func(how string) {
			switch how {
			case "close":
				_ = mc.Close()
			case "bye":
				_ = ws.Close(websocket.StatusGoingAway, "bye")
			case "now":
				_ = ws.CloseNow()
			case "cut":
				_ = last().Close()
			default:
				last().Fail(io.ErrUnexpectedEOF)
			}
		}
		return con, nil
	}
	var es errs
	var wg sync.WaitGroup
	for _, r := range c.Reqs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			es.add(runReq(s, r, &c))
		}()
	}
	if err := m.runAll(connect); err != nil {
		return err
	}
	if err := vt.AwaitFor("the end of the HTTP requests", done(wg.Wait), time.Hour); err != nil {
		return errors.Join(err, es.get())
	}
	return es.get()
}

func TestC22_WebSocket(t *testing.T) {
	vt.Check(t, vt.Prop[c22Case]{
		Rule:  "1-7 WebSocket clients (some not of this package) of a srpc.HTTPServer (net/http over an in-memory listener with drawn chunking and delays, drawn path) make 1-4 checked streaming calls each, stay idle, send what is no multiplexer data, or go away (normally, with a close frame, or abruptly) while 1-4 handlers wait; 0-4 plain, incorrect or wrong-path requests run next to them; every call's messages and end are checked, handlers of a client that went away must end, wrong requests must not be upgraded, one more client must be served; non-trivial: more than one client, with calls",
		Quick: 8000, Thorough: 200000,
		Gen: func(t *rapid.T) c22Case {
			var c c22Case
			var m int
			c.Clients, m = genMClients(t, rare(t, "big", 20), []string{"close", "bye", "now", "cut", "fail"}, "calls", "calls", "calls", "idle", "silent", "garbage", "drop", "drop")
			c.T = genTCfg(t, max(m, 2000), "ws")
			paths := []string{"/", "/srpc", "/a/b", "/a%20b"}
			c.Path = pick(t, "path", "", "/", "/srpc", "/a/b", "/a b")
			at := strings.ReplaceAll(c.Path, " ", "%20")
			if at == "" {
				at = pick(t, "at", paths...)
				c.Query = []string{at, pick(t, "at2", paths...)}
			} else {
				c.Query = []string{at, at + "?x=/other&y=1", at + "?"}
			}
			c.Sub = rapid.IntRange(0, 3).Draw(t, "sub") == 0
			c.Foreign = rapid.IntRange(0, 255).Draw(t, "foreign")
			other := []string{"/", "/srpc", "/srpc/", "/srpc/x", "/SRPC", "/x/srpc", "/srp", "/a/b", "/a", "/other?p=/srpc", at, at + "?q=1", at + "/", at + "x"}
			for range pick(t, "reqs", 0, 1, 2, 4) {
				r := hReq{
					Path: pick(t, "rpath", other...), Method: pick(t, "method", "GET", "POST", "PUT", "HEAD", "OPTIONS"),
					Upgrade: pick(t, "upgrade", "", "ws", "ws", "nokey", "badkey", "version", "origin", "post"),
					Start:   pick(t, "rstart", 0, 100, 5000),
				}
				if r.Upgrade == "" && r.Method != "HEAD" {
					r.Body = rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(t, "body")
				} else {
					r.Method = "GET"
				}
				c.Reqs = append(c.Reqs, r)
			}
			return c
		},
		Run: func(t *testing.T, c c22Case, in *vt.Info) error {
			mLabels(in, c.Clients)
			in.LabelIf(c.T.Sched.Prob > 0, "schedule perturbed")
			in.LabelIf(c.Path == "", "any path")
			in.LabelIf(c.Foreign != 0, "foreign clients")
			for _, r := range c.Reqs {
				if r.Upgrade == "ws" {
					in.LabelIf(c.Path != "" && pathOf(r.Path) != c.Path, "WebSocket request to another path")
				} else {
					in.Label("request: " + r.Upgrade)
				}
			}
			return bubble(t, c.T.Sched, true, func() error { return runC22(c) })
		},
	})
}
