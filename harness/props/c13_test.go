package props

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"testing"

	"github.com/aperturerobotics/starpc/srpc"
	"pgregory.net/rapid"
	"verif/harness/sched"
	"verif/harness/vt"
)

type c13Client struct {
	What string `json:"what"`
	Real bool   `json:"real,omitempty"` // a client of a real server instead of a stub
	Text string `json:"text,omitempty"`
}

type c13Case struct {
	Clients []c13Client  `json:"clients"`
	Calls   []bool       `json:"calls"`            // unary or stream
	Cancel  bool         `json:"cancel,omitempty"` // the context is cancelled before
	Nested  int          `json:"nested,omitempty"` // the last clients are in a set of their own
	Sched   sched.Config `json:"sched"`
}

// c13Stub answers as told.
type c13Stub struct {
	i      int
	c      c13Client
	log    *[]int
	cancel func()
}

// c13Errs are errors with a meaning elsewhere.
var c13Errs = map[string]error{
	"eof":         io.EOF, // of a real client: the call ended without a response
	"half":        io.ErrUnexpectedEOF,
	"closed":      io.ErrClosedPipe,
	"netclosed":   net.ErrClosed,
	"timeout":     os.ErrDeadlineExceeded,
	"noclients":   srpc.ErrNoAvailableClients,
	"completed":   srpc.ErrCompleted,
	"invalid":     srpc.ErrInvalidMessage,
	"nilwriter":   srpc.ErrNilWriter,
	"emptymethod": srpc.ErrEmptyMethodID,
	"wrapcancel":  fmt.Errorf("other: %w", context.Canceled),
}

var errWrapped = fmt.Errorf("other: %w", srpc.ErrUnimplemented)

func (s *c13Stub) answer() error {
	*s.log = append(*s.log, s.i)
	switch s.c.What {
	case "unimpl":
		return srpc.ErrUnimplemented
	case "unimpltext":
		return errors.New("unimplemented")
	case "canceled":
		return context.Canceled
	case "cancelcaller":
		s.cancel()
		return context.Canceled
	case "error":
		return errors.New(s.c.Text)
	case "wrapped":
		return errWrapped
	case "deadline":
		return context.DeadlineExceeded
	}
	return c13Errs[s.c.What]
}

func (s *c13Stub) ExecCall(ctx context.Context, service, method string, in, out srpc.Message) error {
	err := s.answer()
	if service != "svc" || method != "met" {
		return errors.New("wrong service or method")
	}
	if b, _ := in.MarshalVT(); string(b) != "request" {
		return errors.New("wrong request")
	}
	if err == nil {
		_ = out.UnmarshalVT([]byte(fmt.Sprint("answer of ", s.i)))
	}
	return err
}

func (s *c13Stub) NewStream(ctx context.Context, service, method string, firstMsg srpc.Message) (srpc.Stream, error) {
	err := s.answer()
	if service != "svc" || method != "met" {
		return nil, errors.New("wrong service or method")
	}
	if b, _ := firstMsg.MarshalVT(); string(b) != "request" {
		return nil, errors.New("wrong first message")
	}
	if err != nil {
		return nil, err
	}
	return &stubStream{s.i}, nil
}

func TestC13_Model(t *testing.T) {
	vt.Check(t, vt.Prop[c13Case]{
		Rule:  "a set of 0-6 clients (missing, succeeding, unimplemented by identity or text, cancelled with or without the caller's context, failing; stubs or clients of real servers; possibly nested sets), called with unary calls and streams; a model says which clients are contacted in which order and what comes back; non-trivial: at least two clients were contacted",
		Quick: 40000, Thorough: 800000,
		Gen: func(t *rapid.T) c13Case {
			c := c13Case{Sched: genSched(t)}
			real := rapid.IntRange(0, 3).Draw(t, "real") == 0
			for range rapid.IntRange(0, 6).Draw(t, "n") {
				x := c13Client{What: pick(t, "what", "nil", "ok", "unimpl", "unimpl", "unimpl", "unimpltext", "canceled", "canceled", "error", "wrapped", "deadline", "cancelcaller")}
				if x.What == "error" && rapid.Bool().Draw(t, "sentinel") {
					x.What = pick(t, "which", "eof", "eof", "half", "closed", "netclosed", "timeout", "noclients", "completed", "invalid", "nilwriter", "emptymethod", "wrapcancel")
				}
				if x.What == "error" {
					x.Text = pick(t, "text", "boom", "unimplemented method", "Unimplemented", "no available rpc clients", " unimplemented", "")
				}
				if real && (x.What == "ok" || x.What == "unimpl" || x.What == "eof" || x.What == "error" && x.Text != "" || x.What == "unimpltext") {
					x.Real = true
				}
				c.Clients = append(c.Clients, x)
			}
			for range rapid.IntRange(1, 3).Draw(t, "ncalls") {
				c.Calls = append(c.Calls, rapid.Bool().Draw(t, "unary"))
			}
			if len(c.Clients) > 1 && rapid.IntRange(0, 3).Draw(t, "nest") == 0 {
				c.Nested = rapid.IntRange(1, len(c.Clients)-1).Draw(t, "nested")
			}
			c.Cancel = rapid.IntRange(0, 5).Draw(t, "cancel") == 0
			return c
		},
		Run: func(t *testing.T, c c13Case, in *vt.Info) error {
			return bubble(t, c.Sched, false, func() error { return runC13(c, in) })
		},
	})
}

func runC13(c c13Case, in *vt.Info) error {
	var log []int
	var cancel context.CancelFunc
	var clients []srpc.Client
	for i, x := range c.Clients {
		switch {
		case x.What == "nil":
			clients = append(clients, nil)
		case x.Real:
			mux := srpc.NewMux()
			if x.What != "unimpl" {
				_ = mux.Register(&handler{svc: "svc", mets: []string{"met"}, fn: func(_, _ string, s srpc.Stream) (bool, error) {
					switch x.What {
					case "error":
						return true, errors.New(x.Text)
					case "eof":
						return true, nil
					case "unimpltext":
						return true, errors.New("unimplemented")
					}
					if b, err := recv(s); err != nil || string(b) != "request" {
						return true, fmt.Errorf("wrong request %q %v", b, err)
					}
					return true, send(s, []byte(fmt.Sprint("answer of ", i)))
				}})
			}
			open := srpc.NewServerPipe(srpc.NewServer(mux))
			clients = append(clients, srpc.NewClient(func(ctx context.Context, mh srpc.PacketDataHandler, ch srpc.CloseHandler) (srpc.PacketWriter, error) {
				log = append(log, i)
				return open(ctx, mh, ch)
			}))
		default:
			clients = append(clients, &c13Stub{i: i, c: x, log: &log, cancel: func() { cancel() }})
		}
	}
	all := clients
	if c.Nested > 0 {
		k := len(clients) - c.Nested
		all = append(append([]srpc.Client{}, clients[:k]...), srpc.NewClientSet(clients[k:]))
	}
	cs := srpc.NewClientSet(all)
	for _, unary := range c.Calls {
		if len(c.Clients) > 0 && !unary && hasReal(c.Clients) {
			unary = true // a stream is opened before the server answers
		}
		var ctx context.Context
		ctx, cancel = context.WithCancel(context.Background())
		cancelled := c.Cancel && !hasReal(c.Clients)
		if cancelled {
			cancel()
		}
		// the model
		var want []int
		var wantErr error
		wantText := ""
		answered := -1
		any := false
		for i, x := range c.Clients {
			if x.What == "nil" {
				continue
			}
			any = true
			want = append(want, i)
			if x.What == "unimpl" || x.What == "unimpltext" {
				continue
			}
			if x.What == "canceled" && !cancelled {
				continue
			}
			answered = i
			switch x.What {
			case "canceled", "cancelcaller":
				wantErr = context.Canceled
			case "error":
				wantText = x.Text
				wantErr = errors.New(x.Text)
			case "wrapped":
				wantErr = errWrapped
			case "deadline":
				wantErr = context.DeadlineExceeded
			default:
				wantErr = c13Errs[x.What]
			}
			break
		}
		if answered < 0 {
			wantErr = srpc.ErrUnimplemented
			if !any {
				wantErr = srpc.ErrNoAvailableClients
			}
			if c.Nested > 0 && wantErr == srpc.ErrNoAvailableClients {
				// the inner set is a client and fails with this error
				any = true
			}
		}
		if c.Nested > 0 && answered < 0 && noneIn(c.Clients[len(c.Clients)-c.Nested:]) {
			wantErr = srpc.ErrNoAvailableClients
		}
		if c.Nested > 0 && answered > len(c.Clients)-c.Nested && wantText == "" {
			in.Label("answer from a nested set")
		}
		log = nil
		out := raw(nil)
		var err error
		var strm srpc.Stream
		if unary {
			err = cs.ExecCall(ctx, "svc", "met", raw([]byte("request")), out)
		} else {
			strm, err = cs.NewStream(ctx, "svc", "met", raw([]byte("request")))
		}
		cancel()
		if fmt.Sprint(log) != fmt.Sprint(want) {
			return fmt.Errorf("contacted the clients %v, want %v", log, want)
		}
		if cancelled && answered < 0 && len(want) > 0 {
			// declined although cancelled: either may be reported.
			if err != context.Canceled && err != wantErr {
				return fmt.Errorf("returned %v, want %v", err, wantErr)
			}
			continue
		}
		if errText(err) != errText(wantErr) {
			return fmt.Errorf("returned %q, want %q", errText(err), errText(wantErr))
		}
		if err == nil {
			if unary && string(out.GetData()) != fmt.Sprint("answer of ", answered) {
				return fmt.Errorf("got %q from client %d", out.GetData(), answered)
			}
			if s, ok := strm.(*stubStream); !unary && (!ok || s.id != answered) {
				return fmt.Errorf("got the stream %v from client %d", strm, answered)
			}
		}
		in.NonTrivial = in.NonTrivial || len(want) > 1
		in.LabelIf(answered >= 0, "answered")
		in.LabelIf(answered < 0, "declined by all")
		in.LabelIf(hasReal(c.Clients), "real servers")
	}
	return nil
}

func hasReal(cs []c13Client) bool {
	for _, c := range cs {
		if c.Real {
			return true
		}
	}
	return false
}

func noneIn(cs []c13Client) bool {
	for _, c := range cs {
		if c.What != "nil" {
			return false
		}
	}
	return true
}
