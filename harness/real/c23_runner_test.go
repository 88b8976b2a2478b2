package real

// runnerCommon is the constant part of the program that calls generated code.
const runnerCommon = `package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
)

type method struct {
	id, name string
	in, out  bool // the messages have a body
	unary    func(ctx context.Context, s string) (string, error)
	wire     func(ctx context.Context, svc, met, s string) (string, error)
	cstream  func(ctx context.Context) (clientStream, error)
	sstream  func(ctx context.Context, s string) (clientStream, error)
	bidi     func(ctx context.Context) (clientStream, error)
}

type clientStream struct {
	srpc.Stream
	send      func(string) error
	recv      func() (string, error)
	closeRecv func() (string, error)
}

type service struct {
	full, id string
	register func(srpc.Mux) error
	handler  func(string) srpc.Handler
	clients  func(cc srpc.Client, id string, has bool) []method
}

var bad = false

func check(ok bool, f string, a ...any) {
	if !ok {
		bad = true
		fmt.Println("FAIL", fmt.Sprintf(f, a...))
	}
}

var mu sync.Mutex
var runs = map[string]int{}

func note(id string) {
	mu.Lock()
	runs[id]++
	mu.Unlock()
}

func count(id string) int {
	mu.Lock()
	defer mu.Unlock()
	return runs[id]
}

// recvF receives with Recv and RecvTo in turn.
func recvF[M any](recv func() (M, error), recvTo func(M) error, mk func() M, get func(M) string) func() (string, error) {
	n := seed
	return func() (string, error) {
		n++
		if n%2 == 0 {
			m := mk()
			err := recvTo(m)
			return get(m), err
		}
		m, err := recv()
		if err != nil {
			return "", err
		}
		return get(m), nil
	}
}

func alive(ctx context.Context) error {
	if ctx == nil {
		return errors.New("no context")
	}
	return ctx.Err()
}

func unary(ctx context.Context, id, s string) (string, error) {
	note(id)
	if err := alive(ctx); err != nil {
		return "", err
	}
	if s == "fail" {
		return "", errors.New("fail " + id)
	}
	return id + "<" + s, nil
}

func collect(strm srpc.Stream, id string, recv func() (string, error)) (string, error) {
	note(id)
	if err := alive(strm.Context()); err != nil {
		return "", err
	}
	acc := id
	n := 0
	for {
		s, err := recv()
		if err == io.EOF {
			return fmt.Sprintf("%s=%d", acc, n), nil
		}
		if err != nil {
			return "", err
		}
		if s == "fail" {
			return "", errors.New("fail " + id)
		}
		acc += "|" + s
		n++
	}
}

func produced(id, s string) (out []string) {
	for i := range 1 + len(s)%4 {
		out = append(out, fmt.Sprintf("%s<%s>%d", id, s, i))
	}
	return out
}

func produce(strm srpc.Stream, id, s string, send, sendAndClose func(string) error) error {
	note(id)
	if err := alive(strm.Context()); err != nil {
		return err
	}
	all := produced(id, s)
	for i, m := range all {
		if i == len(all)-1 && len(s)%2 == 1 {
			return sendAndClose(m)
		}
		if err := send(m); err != nil {
			return err
		}
	}
	if s == "fail" {
		return errors.New("fail " + id)
	}
	return nil
}

func converse(strm srpc.Stream, id string, recv func() (string, error), send, sendAndClose func(string) error) error {
	note(id)
	if err := alive(strm.Context()); err != nil {
		return err
	}
	for {
		s, err := recv()
		if err == io.EOF {
			return sendAndClose("end " + id)
		}
		if err != nil {
			return err
		}
		if s == "fail" {
			return errors.New("fail " + id)
		}
		if err := send(id + "<" + s); err != nil {
			return err
		}
	}
}

func text(err error) string {
	if err == nil {
		return "<nil>"
	}
	return err.Error()
}

// runMethod calls one method in all ways.
func runMethod(m method, what, svc string, wire bool) {
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Minute)
	defer cancel()
	// a message without a body carries nothing.
	i := func(s string) string {
		if !m.in {
			return ""
		}
		return s
	}
	o := func(s string) string {
		if !m.out {
			return ""
		}
		return s
	}
	bodies := []string{"", "x", "ab", "abc", "fail", strings.Repeat("long", 700)}
	drain := func(st clientStream) (out []string, end error) {
		for {
			s, err := st.recv()
			if err != nil {
				_, err2 := st.recv()
				check(text(err2) == text(err), "%s: the end changes from %v to %v", what, err, err2)
				return out, err
			}
			out = append(out, s)
		}
	}
	before := count(m.id)
	calls := 0
	called := func() {
		calls++
		check(count(m.id) == before+calls, "%s: the implementation of method %s ran %d times for %d calls", what, m.name, count(m.id)-before, calls)
	}
	same := func(got, want []string, how string) {
		check(strings.Join(got, "\n") == strings.Join(want, "\n"), "%s: method %s: %s: got %q, want %q", what, m.name, how, got, want)
	}
	switch {
	case m.unary != nil:
		for _, s := range bodies {
			wantS, wantE := o(m.id+"<"+i(s)), "<nil>"
			if i(s) == "fail" {
				wantS, wantE = "", "fail "+m.id
			}
			got, err := m.unary(ctx, s)
			called()
			check(got == wantS && text(err) == wantE, "%s: method %s(%.10q) returned %.40q, %v, want %.40q, %s", what, m.name, s, got, err, wantS, wantE)
			if wire {
				got, err = m.wire(ctx, svc, m.name, s)
				called()
				check((got == wantS || err != nil) && text(err) == wantE, "%s: calling %s/%s(%.10q) returned %.40q, %v, want %.40q, %s", what, svc, m.name, s, got, err, wantS, wantE)
			}
		}
	case m.cstream != nil:
		for n := range len(bodies) + 1 {
			st, err := m.cstream(ctx)
			if err != nil {
				check(false, "%s: method %s: %v", what, m.name, err)
				return
			}
			acc, fail := m.id, false
			for _, s := range bodies[:n] {
				if err := st.send(s); err != nil && !fail {
					check(false, "%s: method %s: sending: %v", what, m.name, err)
				}
				fail = fail || i(s) == "fail"
				acc += "|" + i(s)
			}
			got, err := st.closeRecv()
			if fail {
				check(err != nil, "%s: method %s returned %q, want an error", what, m.name, got)
			} else {
				check(err == nil && got == o(fmt.Sprintf("%s=%d", acc, n)), "%s: method %s returned %.40q, %v", what, m.name, got, err)
			}
			called()
			_ = st.Close()
		}
	case m.sstream != nil:
		for _, s := range bodies {
			st, err := m.sstream(ctx, s)
			if err != nil {
				check(false, "%s: method %s: %v", what, m.name, err)
				continue
			}
			got, end := drain(st)
			var want []string
			for _, x := range produced(m.id, i(s)) {
				want = append(want, o(x))
			}
			wantE := "EOF"
			if i(s) == "fail" {
				wantE = "fail " + m.id
			}
			same(got, want, "messages")
			check(text(end) == wantE, "%s: method %s ended with %v, want %s", what, m.name, end, wantE)
			called()
			_ = st.Close()
		}
	case m.bidi != nil:
		for n := range len(bodies) + 1 {
			st, err := m.bidi(ctx)
			if err != nil {
				check(false, "%s: method %s: %v", what, m.name, err)
				continue
			}
			fail := false
			for _, s := range bodies[:n] {
				if err := st.send(s); err != nil {
					check(false, "%s: method %s: sending: %v", what, m.name, err)
				}
				got, err := st.recv()
				if i(s) == "fail" {
					check(text(err) == "fail "+m.id, "%s: method %s ended with %v", what, m.name, err)
					fail = true
					break
				}
				check(err == nil && got == o(m.id+"<"+i(s)), "%s: method %s answered %.40q, %v", what, m.name, got, err)
			}
			if !fail {
				check(st.CloseSend() == nil, "%s: method %s: CloseSend", what, m.name)
				got, end := drain(st)
				same(got, []string{o("end " + m.id)}, "messages after the end")
				check(end == io.EOF, "%s: method %s ended with %v", what, m.name, end)
			}
			called()
			_ = st.Close()
		}
	}
}

func main() {
	time.AfterFunc(4*time.Minute, func() {
		fmt.Println("FAIL: blocked")
		os.Exit(1)
	})
	mux, cmux := srpc.NewMux(), srpc.NewMux()
	for k, s := range services {
		check(s.id == s.full, "service ID is %q, want %q", s.id, s.full)
		check(s.register(mux) == nil, "registering %s", s.full)
		check(cmux.Register(s.handler(fmt.Sprintf("custom/%d", k))) == nil, "registering %s", s.full)
		h := s.handler("")
		check(h.GetServiceID() == s.full, "GetServiceID is %q, want %q", h.GetServiceID(), s.full)
		check(s.handler("other").GetServiceID() == "other", "GetServiceID of a custom ID")
	}
	cc := srpc.NewClient(srpc.NewServerPipe(srpc.NewServer(mux)))
	ccc := srpc.NewClient(srpc.NewServerPipe(srpc.NewServer(cmux)))
	for k, s := range services {
		var want []string
		for _, m := range s.clients(cc, "", false) {
			want = append(want, m.name)
			runMethod(m, s.full, s.full, true)
		}
		for _, m := range s.clients(cc, "", true) {
			runMethod(m, s.full+" with an empty custom ID", s.full, false)
		}
		id := fmt.Sprintf("custom/%d", k)
		for _, m := range s.clients(ccc, id, true) {
			runMethod(m, s.full+" with a custom ID", id, true)
		}
		h := s.handler("")
		got := append([]string{}, h.GetMethodIDs()...)
		sort.Strings(got)
		sort.Strings(want)
		check(strings.Join(got, ",") == strings.Join(want, ","), "GetMethodIDs of %s: %v, want %v", s.full, got, want)
		for _, m := range []string{"Missing", "", "missing_method"} {
			ok, err := h.InvokeMethod(s.full, m, nil)
			check(!ok && err == nil, "invoking method %q of %s: %v %v", m, s.full, ok, err)
		}
		for _, m := range want {
			ok, err := h.InvokeMethod("another.Service", m, nil)
			check(!ok && err == nil, "invoking method %q of another service: %v %v", m, ok, err)
			ok, err = s.handler("my-id").InvokeMethod(s.full, m, nil)
			check(!ok && err == nil, "invoking method %q by the default ID on a handler with a custom ID: %v %v", m, ok, err)
		}
		err := cc.ExecCall(context.Background(), s.full, "Missing", srpc.NewRawMessage(nil, true), srpc.NewRawMessage(nil, true))
		check(text(err) == "unimplemented", "calling a missing method of %s: %v", s.full, err)
		if len(want) > 0 {
			err = cc.ExecCall(context.Background(), id, want[0], srpc.NewRawMessage(nil, true), srpc.NewRawMessage(nil, true))
			check(text(err) == "unimplemented", "calling an unregistered service ID: %v", err)
		}
	}
	if bad {
		os.Exit(1)
	}
	fmt.Println("ALL OK")
}
`
