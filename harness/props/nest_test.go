package props

import (
	"context"
	"fmt"
	"strings"
	"sync"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
	"pgregory.net/rapid"
)

// rstrm makes a stream a rpcstream.RpcStream.
type rstrm struct{ srpc.Stream }

func (s rstrm) Send(p *rpcstream.RpcStreamPacket) error { return s.MsgSend(p) }
func (s rstrm) Recv() (*rpcstream.RpcStreamPacket, error) {
	p := &rpcstream.RpcStreamPacket{}
	if err := s.MsgRecv(p); err != nil {
		return nil, err
	}
	return p, nil
}

// Nest says how a call is nested in other calls.
type Nest struct {
	// Depth is the number of nested streams (0: direct).
	Depth int `json:"depth,omitempty"`
	// Proxies is the number of proxies in front of the first nested stream.
	Proxies int `json:"proxies,omitempty"`
	// Ack waits for acknowledgements.
	Ack bool `json:"ack,omitempty"`
	// Slow delays what the opening end of each nested stream receives.
	Slow int `json:"slow,omitempty"`
}

// slowRecv is a stream whose receives take a while.
type slowRecv struct {
	rpcstream.RpcStream
	us int
}

func (s slowRecv) Recv() (*rpcstream.RpcStreamPacket, error) {
	p, err := s.RpcStream.Recv()
	sleepUs(s.us)
	return p, err
}

func genNest(t *rapid.T, min int) Nest {
	n := Nest{Depth: max(min, pick(t, "depth", 0, 1, 1, 1, 2, 3)), Ack: rapid.Bool().Draw(t, "ack")}
	if n.Depth > 0 {
		n.Proxies = pick(t, "proxies", 0, 0, 0, 1, 2)
		n.Slow = pick(t, "slow", 0, 0, 0, 300, 5000)
	}
	return n
}

// nester serves nested streams: component "x/y/z" is found through one nested
// stream for each of its names.
type nester struct {
	mu       sync.Mutex
	leaf     map[string]srpc.Invoker // by path
	lookups  int
	releases int
	back     srpc.Client // for the proxies
}

// mux returns the services at a path: the leaf services and the nested streams.
func (n *nester) mux(path string) srpc.Invoker {
	m := srpc.NewMux(func() []srpc.Invoker {
		if l := n.leaf[path]; l != nil {
			return []srpc.Invoker{l}
		}
		return nil
	}()...)
	_ = m.Register(&handler{svc: "nest", mets: []string{"rpc", "proxy1", "proxy2"}, fn: func(_, met string, s srpc.Stream) (bool, error) {
		if met != "rpc" {
			next := "rpc"
			if met == "proxy2" {
				next = "proxy1"
			}
			return true, rpcstream.HandleProxyRpcStream(rstrm{s}, func(ctx context.Context, id string) (rpcstream.RpcStreamCaller[rpcstream.RpcStream], string, func(), error) {
				want := "p:"
				if !strings.HasPrefix(id, want) {
					return nil, "", nil, fmt.Errorf("proxy asked for %q", id)
				}
				n.count(&n.lookups)
				return n.caller(n.back, next, 0), strings.TrimPrefix(id, want), func() { n.count(&n.releases) }, nil
			})
		}
		return true, rpcstream.HandleRpcStream(rstrm{s}, func(ctx context.Context, id string) (srpc.Invoker, func(), error) {
			p := path + "/" + id
			found := false
			for k := range n.leaf {
				found = found || k == p || strings.HasPrefix(k, p+"/")
			}
			if !found {
				return nil, nil, nil
			}
			n.count(&n.lookups)
			return n.mux(p), func() { n.count(&n.releases) }, nil
		})
	}})
	return m
}

func (n *nester) count(c *int) {
	n.mu.Lock()
	*c++
	n.mu.Unlock()
}

func (n *nester) caller(cl srpc.Client, met string, slow int) rpcstream.RpcStreamCaller[rpcstream.RpcStream] {
	return func(ctx context.Context) (rpcstream.RpcStream, error) {
		s, err := cl.NewStream(ctx, "nest", met, nil)
		if err != nil {
			return nil, err
		}
		if slow > 0 {
			return slowRecv{rstrm{s}, slow}, nil
		}
		return rstrm{s}, nil
	}
}

// client returns a client for the component at the path.
func (n *nester) client(base srpc.Client, c Nest, path string) srpc.Client {
	cl := base
	for i, id := range strings.Split(strings.TrimPrefix(path, "/"), "/") {
		if path == "" {
			break
		}
		met := "rpc"
		if i == 0 && c.Proxies > 0 {
			met = fmt.Sprintf("proxy%d", c.Proxies)
			id = strings.Repeat("p:", c.Proxies) + id
		}
		cl = rpcstream.NewRpcStreamClient(n.caller(cl, met, c.Slow), id, c.Ack)
	}
	return cl
}

func (n *nester) open(base srpc.Client, c Nest, path string) srpc.OpenStreamFunc {
	i := strings.LastIndexByte(path, '/')
	id, met := path[i+1:], "rpc"
	if i <= 0 && c.Proxies > 0 {
		met = fmt.Sprintf("proxy%d", c.Proxies)
		id = strings.Repeat("p:", c.Proxies) + id
	}
	return rpcstream.NewRpcStreamOpenStream(n.caller(n.client(base, c, path[:i]), met, c.Slow), id, c.Ack)
}

// counts returns the numbers of successful lookups and of releases.
func (n *nester) counts() (int, int) {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.lookups, n.releases
}

func nestPath(depth int, leaf string) string {
	p := ""
	for i := 1; i < depth; i++ {
		p += fmt.Sprintf("/l%d", i)
	}
	if depth > 0 {
		p += "/" + leaf
	}
	return p
}

// NewNestWorld builds a world whose client calls the services of inv as a
// component reached through nested streams.
func NewNestWorld(cfg TCfg, c Nest, inv srpc.Invoker) (*World, error) {
	if c.Depth == 0 {
		return NewWorld(cfg, inv)
	}
	path := nestPath(c.Depth, "leaf")
	w, n, err := newNested(cfg, map[string]srpc.Invoker{path: inv})
	if err != nil {
		return nil, err
	}
	base := w.Client
	w.Client, w.Open = n.client(base, c, path), n.open(base, c, path)
	return w, nil
}

// newNested builds a world with components.
func newNested(cfg TCfg, leaf map[string]srpc.Invoker) (*World, *nester, error) {
	n := &nester{leaf: leaf}
	top := n.mux("")
	w, err := NewWorld(cfg, top)
	if err != nil {
		return nil, nil, err
	}
	bw, err := NewWorld(TCfg{Kind: "fake"}, top)
	if err != nil {
		return nil, nil, err
	}
	n.back = bw.Client
	w.closers = append(w.closers, bw.Close)
	return w, n, nil
}
