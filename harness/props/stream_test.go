package props

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sync"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
	"pgregory.net/rapid"
	"verif/harness/vt"
)

// sSend is a message sent after a delay (us).
type sSend struct {
	M Msg `json:"m"`
	D int `json:"d,omitempty"`
}

// sCall is one streaming call.
type sCall struct {
	Back   bool    `json:"back,omitempty"`  // called from the accepting end
	First  *Msg    `json:"first,omitempty"` // sent along with the start of the call
	CSends []sSend `json:"csends,omitempty"`
	CHalf  bool    `json:"chalf,omitempty"` // the caller half-closes after its sends
	// the caller half-closes CHalfD after it has received CHalfAt messages (or the end).
	CHalfAt int     `json:"chalfat,omitempty"`
	CHalfD  int     `json:"chalfd,omitempty"`
	SSends  []sSend `json:"ssends,omitempty"` // messages of the handler
	SHalf   bool    `json:"shalf,omitempty"`  // the handler half-closes after its sends
	SReads  int     `json:"sreads"`           // messages read by the handler (-1: until the end)
	Mode    string  `json:"mode"`             // conc, readfirst, sendfirst, pingpong
	Err     string  `json:"err,omitempty"`    // final status of the handler
	Linger  int     `json:"linger,omitempty"` // the handler waits before returning
	Start   int     `json:"start,omitempty"`
	// delays before the first receive and between receives.
	CDelay int `json:"cdelay,omitempty"`
	CGap   int `json:"cgap,omitempty"`
	SDelay int `json:"sdelay,omitempty"`
	SGap   int `json:"sgap,omitempty"`
}

func (c *sCall) csent() [][]byte {
	var out [][]byte
	if c.First != nil {
		out = append(out, c.First.Bytes())
	}
	for _, s := range c.CSends {
		out = append(out, s.M.Bytes())
	}
	return out
}

// halfAt is the number of messages after which the caller half-closes.
func (c *sCall) halfAt() int {
	switch {
	case c.SReads >= 0:
		return c.CHalfAt
	case c.Mode == "conc" || c.Mode == "sendfirst":
		return min(c.CHalfAt, len(c.SSends))
	}
	return 0 // the handler waits for it first
}

func (c *sCall) ssent() [][]byte {
	var out [][]byte
	for _, s := range c.SSends {
		out = append(out, s.M.Bytes())
	}
	return out
}

func (c *sCall) maxMsg() int {
	n := 0
	for _, b := range append(c.csent(), c.ssent()...) {
		n = max(n, len(b))
	}
	return n
}

func genSends(t *rapid.T, big bool, label string) []sSend {
	n := pick(t, label+"N", 0, 0, 1, 1, 2, 3, 5, 9, 20)
	if big {
		n = min(n, 5)
	}
	gaps := pick(t, label+"Gap", 0, 0, 100, 3000)
	var out []sSend
	for range n {
		s := sSend{M: genMsg(t, big, label)}
		if gaps > 0 {
			s.D = rapid.IntRange(0, gaps).Draw(t, label+"D")
		}
		out = append(out, s)
	}
	return out
}

func genSCall(t *rapid.T, big bool) sCall {
	c := sCall{
		CSends: genSends(t, big, "c"),
		SSends: genSends(t, big, "s"),
		CHalf:  rapid.IntRange(0, 3).Draw(t, "chalf") != 0,
		SHalf:  rapid.IntRange(0, 5).Draw(t, "shalf") == 0,
		Mode:   pick(t, "mode", "conc", "conc", "conc", "readfirst", "sendfirst", "pingpong"),
		Start:  pick(t, "start", 0, 0, 50),
		Linger: pick(t, "linger", 0, 0, 0, 1000, 30000),
		CDelay: pick(t, "cdelay", 0, 0, 0, 100, 5000, 50000),
		SDelay: pick(t, "sdelay", 0, 0, 0, 100, 5000, 50000),
		CGap:   pick(t, "cgap", 0, 0, 0, 200, 5000),
		SGap:   pick(t, "sgap", 0, 0, 0, 200, 5000),
	}
	if rapid.IntRange(0, 2).Draw(t, "hasFirst") == 0 {
		m := genMsg(t, big, "first")
		c.First = &m
	}
	n := len(c.csent())
	if c.CHalf && rapid.IntRange(0, 3).Draw(t, "readAll") != 0 {
		c.SReads = -1
	} else {
		c.SReads = rapid.IntRange(0, n).Draw(t, "sreads")
	}
	if c.CHalf && rapid.IntRange(0, 2).Draw(t, "halfLater") == 0 {
		c.CHalfAt = rapid.IntRange(0, len(c.SSends)+1).Draw(t, "halfAt")
		c.CHalfD = pick(t, "halfD", 0, 0, 1, 50, 500, 3000)
	}
	if rapid.IntRange(0, 2).Draw(t, "hasErr") == 0 {
		c.Err = genErrText(t, "err")
	}
	return c
}

// sRec records what the two sides of a streaming call observed.
type sRec struct {
	mu       sync.Mutex
	Runs     int
	SGot     [][]byte
	SEnds    []error // results of receiving at and after the end (handler)
	SSendErr []error
	SCtx     context.Context
	CtxDead  string // when the context of the handler was found dead while it was running
	SDone    chan struct{}

	Cancel   context.CancelFunc
	Strm     srpc.Stream
	OpenErr  error
	CGot     [][]byte
	CEnds    []error
	CSendErr []error
	HalfErr  error
}

func newRec() *sRec { return &sRec{SDone: make(chan struct{})} }

func (r *sRec) lock(f func()) {
	r.mu.Lock()
	f()
	r.mu.Unlock()
}

// serve is the handler of the call.
func (r *sRec) serve(c *sCall, strm srpc.Stream) error {
	runs := 0
	sctx := strm.Context()
	r.lock(func() { r.Runs++; runs = r.Runs; r.SCtx = sctx })
	if runs > 1 {
		return errors.New("handler ran twice")
	}
	defer close(r.SDone)
	alive := func(when string) {
		if err := strm.Context().Err(); err != nil {
			r.lock(func() {
				if r.CtxDead == "" {
					r.CtxDead = when
				}
			})
		}
	}
	sendOne := func(s sSend) bool {
		sleepUs(s.D)
		err := send(strm, s.M.Bytes())
		r.lock(func() {
			if err != nil {
				r.SSendErr = append(r.SSendErr, err)
			}
		})
		return err == nil
	}
	sendAll := func() {
		for _, s := range c.SSends {
			if !sendOne(s) {
				return
			}
		}
		if c.SHalf {
			if err := strm.CloseSend(); err != nil {
				r.lock(func() { r.SSendErr = append(r.SSendErr, err) })
			}
		}
	}
	ended := false
	readOne := func() bool {
		sleepUs(c.SGap)
		b, err := recv(strm)
		if err != nil {
			ended = true
			_, err2 := recv(strm)
			sleepUs(500)
			_, err3 := recv(strm)
			r.lock(func() { r.SEnds = append(r.SEnds, err, err2, err3) })
			return false
		}
		r.lock(func() { r.SGot = append(r.SGot, b) })
		return true
	}
	readAll := func() {
		sleepUs(c.SDelay)
		for i := 0; c.SReads < 0 || i < c.SReads; i++ {
			if ended || !readOne() {
				return
			}
		}
	}
	switch c.Mode {
	case "readfirst":
		readAll()
		sendAll()
	case "sendfirst":
		sendAll()
		readAll()
	case "pingpong":
		for i, s := range c.SSends {
			if (c.SReads < 0 || i < c.SReads) && !ended {
				readOne()
			}
			if !sendOne(s) {
				break
			}
		}
		for i := len(c.SSends); c.SReads < 0 || i < c.SReads; i++ {
			if ended || !readOne() {
				break
			}
		}
		if c.SHalf {
			_ = strm.CloseSend()
		}
	default:
		d := done(sendAll)
		readAll()
		<-d
	}
	alive("after its sends and receives")
	if c.Linger > 0 {
		sleepUs(c.Linger)
		alive("before returning")
	}
	if c.Err != "" {
		return errors.New(c.Err)
	}
	return nil
}

// call makes the call and reads until the end.
func (r *sRec) call(ctx context.Context, cl srpc.Client, svc, met string, c *sCall) error {
	sleepUs(c.Start)
	var first srpc.Message
	if c.First != nil {
		first = raw(c.First.Bytes())
	}
	strm, err := cl.NewStream(ctx, svc, met, first)
	if err != nil {
		r.lock(func() { r.OpenErr = err })
		return nil
	}
	r.lock(func() { r.Strm = strm })
	at := c.halfAt()
	half := make(chan struct{})
	d := done(func() {
		for _, s := range c.CSends {
			sleepUs(s.D)
			if err := send(strm, s.M.Bytes()); err != nil {
				r.lock(func() { r.CSendErr = append(r.CSendErr, err) })
				return
			}
		}
		if c.CHalf {
			if at > 0 {
				<-half
			}
			sleepUs(c.CHalfD)
			err := strm.CloseSend()
			r.lock(func() { r.HalfErr = err })
		}
	})
	rd := done(func() {
		sleepUs(c.CDelay)
		for n := 1; ; n++ {
			b, err := recv(strm)
			if n == at || err != nil && n < at {
				close(half)
			}
			if err != nil {
				_, err2 := recv(strm)
				sleepUs(500)
				_, err3 := recv(strm)
				r.lock(func() { r.CEnds = append(r.CEnds, err, err2, err3) })
				return
			}
			r.lock(func() { r.CGot = append(r.CGot, b) })
			sleepUs(c.CGap)
		}
	})
	defer strm.Close()
	if err := vt.Await("the end of the stream at the caller", rd); err != nil {
		return err
	}
	if err := vt.Await("the end of sending at the caller", d); err != nil {
		return err
	}
	if c.SHalf {
		// the end was only the end of the handler's messages.
		_ = vt.AwaitFor("", r.SDone, 10*time.Minute)
	}
	return nil
}

// wantServer is what the handler must have received.
func (c *sCall) wantServer() [][]byte {
	s := c.csent()
	if c.SReads >= 0 && c.SReads < len(s) {
		s = s[:c.SReads]
	}
	return s
}

// checkMsgs checks the messages of a call that was not cut short.
func (r *sRec) checkMsgs(c *sCall) error {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.OpenErr != nil {
		return fmt.Errorf("opening the stream failed: %w", r.OpenErr)
	}
	if r.Runs != 1 {
		return fmt.Errorf("the handler ran %d times", r.Runs)
	}
	if w := c.wantServer(); !sameMsgs(r.SGot, w) {
		return fmt.Errorf("caller sent %s, handler received %s (then %v)", showAll(w), showAll(r.SGot), r.SEnds)
	}
	if w := c.ssent(); !sameMsgs(r.CGot, w) {
		return fmt.Errorf("handler sent %s, caller received %s (then %v)", showAll(w), showAll(r.CGot), r.CEnds)
	}
	if r.HalfErr != nil {
		return fmt.Errorf("half-closing failed at the caller: %w", r.HalfErr)
	}
	return nil
}

// checkPrefix checks the messages of a call that may have been cut short.
func (r *sRec) checkPrefix(c *sCall) error {
	r.mu.Lock()
	defer r.mu.Unlock()
	if w := c.csent(); !isPrefix(r.SGot, w) {
		return fmt.Errorf("caller sent %s, handler received %s (not a prefix)", showAll(w), showAll(r.SGot))
	}
	if w := c.ssent(); !isPrefix(r.CGot, w) {
		return fmt.Errorf("handler sent %s, caller received %s (not a prefix)", showAll(w), showAll(r.CGot))
	}
	return nil
}

// checkSame checks that the end which was reported stays.
func (r *sRec) checkSame() error {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, e := range []struct {
		who  string
		ends []error
	}{{"caller", r.CEnds}, {"handler", r.SEnds}} {
		for _, err := range e.ends {
			if errText(err) != errText(e.ends[0]) {
				return fmt.Errorf("after the end %q a receive of the %s reported %q", errText(e.ends[0]), e.who, errText(err))
			}
		}
	}
	return nil
}

// cutShort ends calls in the middle.
func cutShort(how string, at int, w *World, recs []*sRec) {
	sleepUs(at)
	switch how {
	case "cancel":
		for _, r := range recs {
			r.Cancel()
		}
	case "close":
		for _, r := range recs {
			for range 100000 {
				var s srpc.Stream
				var err error
				r.lock(func() { s, err = r.Strm, r.OpenErr })
				if s != nil {
					_ = s.Close()
				}
				if s != nil || err != nil {
					break
				}
				sleepUs(1000)
			}
		}
	case "eof":
		w.Cut(nil)
	case "srvctx":
		w.SrvCtx.Cancel()
		sleepUs(1000000)
		w.Cut(nil)
	default:
		w.Cut(errCut)
	}
}

// checkEnds checks the ends of both directions of a call that was not cut short.
func (r *sRec) checkEnds(c *sCall) error {
	r.mu.Lock()
	defer r.mu.Unlock()
	for i, e := range r.SEnds {
		if e != io.EOF {
			return fmt.Errorf("receive %d at the end of the caller's messages reported %q at the handler, want EOF", i+1, errText(e))
		}
	}
	want := "EOF"
	if c.Err != "" && !c.SHalf {
		want = c.Err
	}
	for i, e := range r.CEnds {
		if errText(e) != want || (want == "EOF" && c.Err != "EOF" && e != io.EOF) {
			return fmt.Errorf("receive %d at the end of the handler's messages reported %q at the caller, want %q", i+1, errText(e), want)
		}
	}
	if len(r.CEnds) == 0 {
		return errors.New("the caller did not see an end")
	}
	return nil
}

// checkHalf checks that half-closing did not harm the other direction.
func (r *sRec) checkHalf(c *sCall) error {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.CtxDead != "" {
		return fmt.Errorf("the context of the handler was cancelled %s although the call was going on", r.CtxDead)
	}
	if len(r.SSendErr) != 0 {
		return fmt.Errorf("handler failed to send: %w", r.SSendErr[0])
	}
	return nil
}

// streamServer returns a handler that serves the calls: method "m<i>".
func streamServer(svc string, calls []sCall, recs []*sRec) *handler {
	h := &handler{svc: svc}
	idx := map[string]int{}
	for i := range calls {
		m := fmt.Sprintf("m%d", i)
		h.mets = append(h.mets, m)
		idx[m] = i
	}
	h.fn = func(_, met string, strm srpc.Stream) (bool, error) {
		i, ok := idx[met]
		if !ok {
			return false, nil
		}
		return true, recs[i].serve(&calls[i], strm)
	}
	return h
}

// runStreams runs the calls concurrently over a world of this transport.
// during runs concurrently if it is set.
func runStreams(cfg TCfg, calls []sCall, during func(w *World, recs []*sRec) error, check func(i int, r *sRec, c *sCall) error) error {
	recs := make([]*sRec, len(calls))
	for i := range recs {
		recs[i] = newRec()
	}
	mux := srpc.NewMux()
	if err := mux.Register(streamServer("s", calls, recs)); err != nil {
		return vt.Infra(err)
	}
	w, err := NewWorld(cfg, mux)
	if err != nil {
		return err
	}
	defer w.Close()
	return runStreamsOn(w, calls, recs, func(i int) (srpc.Client, string) { return w.Client, fmt.Sprintf("m%d", i) }, during, check)
}

// runStreamsOn runs the calls concurrently. client returns the client and the
// method for a call.
func runStreamsOn(w *World, calls []sCall, recs []*sRec, client func(i int) (srpc.Client, string), during func(w *World, recs []*sRec) error, check func(i int, r *sRec, c *sCall) error) error {
	var es errs
	var wg sync.WaitGroup
	for i := range calls {
		wg.Add(1)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		recs[i].Cancel = cancel
		go func() {
			defer wg.Done()
			cl, met := client(i)
			if err := recs[i].call(ctx, cl, "s", met, &calls[i]); err != nil {
				es.add(fmt.Errorf("call %d: %w", i, err))
			}
		}()
	}
	if during != nil {
		if err := during(w, recs); err != nil {
			es.add(err)
		}
	}
	if err := vt.AwaitFor("the end of all calls", done(wg.Wait), 3*time.Hour); err != nil {
		return errors.Join(es.get(), err)
	}
	for i := range calls {
		if recs[i].OpenErr == nil && during == nil {
			if err := vt.Await(fmt.Sprintf("the end of handler %d", i), recs[i].SDone); err != nil {
				es.add(err)
				continue
			}
		}
		if err := check(i, recs[i], &calls[i]); err != nil {
			es.add(fmt.Errorf("call %d: %w", i, err))
		}
	}
	return es.get()
}

func streamLabels(in *vt.Info, cfg TCfg, calls []sCall) {
	in.Label("transport:" + cfg.Kind)
	in.LabelIf(cfg.Sched.Prob > 0, "schedule perturbed")
	in.LabelIf(len(calls) > 1, "concurrent calls")
	bidi, empty, half, shalf, errEnd := false, false, false, false, false
	for _, c := range calls {
		bidi = bidi || (len(c.csent()) > 1 && len(c.SSends) > 1 && c.SReads != 0)
		for _, b := range append(c.csent(), c.ssent()...) {
			empty = empty || len(b) == 0
		}
		half = half || (c.CHalf && c.SReads < 0)
		shalf = shalf || c.SHalf
		errEnd = errEnd || c.Err != ""
	}
	in.LabelIf(bidi, "both directions")
	in.LabelIf(empty, "empty message")
	in.LabelIf(half, "caller half-closes, handler reads to the end")
	in.LabelIf(shalf, "handler half-closes")
	in.LabelIf(errEnd, "ends with an error")
}
