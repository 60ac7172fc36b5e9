package clientsim

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"syscall"
	"time"

	"verif/sim/internal/core"
)

type callKey struct{}

// call is one operation of a task: what really happened.
type call struct {
	task, op int
	spec     *Op
	req      *Req
	n        int
	ctx      context.Context
	cancel   context.CancelFunc
	start    int64
	end      int64
	cancelAt int64 // when its context was cancelled; -1 if it wasn't
	finished bool
	panicked string
	resp     any // reflect.Value of the response
	respNil  bool
	err      error
	exs      []*exchange
	preds    []predCall
	values   map[string]any // response parameters read at the end of the call
	status   int
	header   http.Header
	bad      *bad // something inconsistent seen while reading the response
	respErr  any
}

type predCall struct {
	ex   int
	at   int64
	end  int64
	diff string
}

// exchange is one use of the transport.
type exchange struct {
	spec    *Exch
	method  string
	url     url.URL
	header  http.Header
	body    []byte
	bodyEnd bool // the request body was read completely
	hasBody bool
	ctxErr  string // what is wrong with the context
	start   int64
	end     int64
	err     error // returned by the transport
	resp    *body
	closed  bool // the request body was closed
}

type simError struct{ text string }

func (e *simError) Error() string   { return e.text }
func (e *simError) Timeout() bool   { return false }
func (e *simError) Temporary() bool { return true }

type transport struct {
	w *run
}

// RoundTrip is the simulated network.
func (tr *transport) RoundTrip(req *http.Request) (*http.Response, error) {
	w := tr.w
	s := w.s
	if t := s.current(); t != nil {
		t.in++
		defer func() { t.in-- }()
	}
	c := w.callOf(req.Context())
	if c == nil {
		w.strange = append(w.strange, "a request was sent that belongs to no call")
		return nil, &simError{"request of no call"}
	}
	k := len(c.exs)
	if k >= len(c.spec.Ex) {
		k = len(c.spec.Ex) - 1
	}
	x := &exchange{spec: c.spec.Ex[k], method: req.Method, start: s.now()}
	c.exs = append(c.exs, x)
	if req.URL != nil {
		x.url = *req.URL
	}
	x.header = req.Header.Clone()
	x.ctxErr = c.checkCtx(req.Context())
	s.note(s.current(), "request %d of call %d: %s %s", len(c.exs), c.n, req.Method, x.url.String())
	spec := x.spec
	ctx := req.Context()
	read := func(n int) {
		if req.Body == nil || x.bodyEnd {
			return
		}
		p := make([]byte, n)
		m, err := req.Body.Read(p)
		x.body = append(x.body, p[:m]...)
		if err == io.EOF {
			x.bodyEnd = true
		}
	}
	x.hasBody = req.Body != nil && req.Body != http.NoBody
	if req.Body == nil {
		x.bodyEnd = true
	}
	for _, n := range spec.Take {
		s.park("send body", 0, nil)
		read(n)
	}
	rest := func() {
		for i := 0; !x.bodyEnd && i < 10000; i++ {
			read(512)
		}
		if req.Body != nil && !x.closed {
			x.closed = true
			req.Body.Close()
		}
	}
	if !spec.Late {
		rest()
	}
	if spec.Mutate {
		if req.Header != nil {
			for _, vs := range req.Header {
				for i := range vs {
					vs[i] = "changed"
				}
			}
			req.Header.Add("X-One", "added")
			req.Header.Set("X-Transport", fmt.Sprint(c.n))
			req.Header.Del("Accept")
		}
		if req.URL != nil {
			req.URL.Path += "/changed"
			req.URL.RawQuery = "changed=1"
		}
	}
	dead := ctx.Err() != nil
	if s.park("exchange", time.Duration(spec.Delay), ctx) || dead {
		rest()
		x.err = ctx.Err()
		w.count("cancelled exchange")
	} else if spec.TErr != "" {
		rest()
		switch spec.TErr {
		case "url":
			x.err = &url.Error{Op: "Get", URL: x.url.String(), Err: &simError{"connection refused"}}
		default:
			x.err = namedError(spec.TErr, spec.TErr)
		}
		w.count("transport error")
	}
	x.end = s.now()
	if x.err != nil {
		s.note(s.current(), "transport fails: %v", x.err)
		return nil, x.err
	}
	if spec.Serve != nil {
		spec = w.serve(c, x, spec)
		x.spec = spec
		x.end = s.now()
	}
	x.resp = &body{w: w, c: c, nth: len(c.exs), x: x, ctx: ctx, spec: spec, late: rest}
	h := http.Header{}
	for _, kv := range spec.Header {
		h.Add(kv[0], kv[1])
	}
	if len(spec.Header) == 0 {
		h = nil
	}
	length := int64(-1)
	if f := spec.Fault; spec.Len && (f == nil || f.Kind != "eof") {
		length = int64(len(spec.Body))
	}
	return &http.Response{
		Status: fmt.Sprintf("%d %s", spec.Status, http.StatusText(spec.Status)), StatusCode: spec.Status,
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Body: x.resp, ContentLength: length, Request: req,
	}, nil
}

func (c *call) checkCtx(got context.Context) string {
	if c.spec.Kind == "poll" || c.spec.How == "" {
		if got.Value(callKey{}) != c {
			return "the request doesn't carry the context of the caller"
		}
		d1, ok1 := c.ctx.Deadline()
		d2, ok2 := got.Deadline()
		if ok1 != ok2 || !d1.Equal(d2) {
			return fmt.Sprintf("the deadline of the request is %v (%v) instead of %v (%v)", d2, ok2, d1, ok1)
		}
		if (c.ctx.Err() != nil) && got.Err() == nil {
			return "the context of the caller is done but that of the request isn't"
		}
		if c.ctx.Err() == nil && got.Err() != nil {
			return "the context of the request is done but that of the caller isn't"
		}
	} else {
		if got.Done() != nil && got.Err() != nil {
			return "the context of the request is done without any reason"
		}
		if _, ok := got.Deadline(); ok {
			return "the context of the request has a deadline without any reason"
		}
	}
	return ""
}

var errReadAfterClose = errors.New("http: read on closed response body")

// body of a response.
type body struct {
	w       *run
	x       *exchange
	ctx     context.Context
	spec    *Exch
	late    func()
	pos     int
	chunk   int
	zero    int
	err     error // reported to the reader
	errAt   int64
	reads   int
	closed  bool
	closeAt int64
	closes  int
	after   bool // read after close
	c       *call
	nth     int
	tardy   bool // closed when the call had returned or sent another request already
}

func (b *body) limit() int {
	if f := b.spec.Fault; f != nil && f.At < len(b.spec.Body) {
		return f.At
	}
	return len(b.spec.Body)
}

func (b *body) finish(err error, what string) {
	b.err = err
	b.errAt = b.w.s.now()
	b.w.s.note(b.w.s.current(), "body of %d bytes ends at %d: %s", len(b.spec.Body), b.pos, what)
}

// maxChunks is how many pieces of a body arrive as the scenario says; then the rest arrives as fast as it is read, so
// that polling something big doesn't take forever.
const maxChunks = 3000

// Read delivers the next bytes as the network does.
func (b *body) Read(p []byte) (n int, err error) {
	s := b.w.s
	if t := s.current(); t != nil {
		t.in++
		defer func() { t.in-- }()
	}
	b.reads++
	if b.closed {
		b.after = true
		return 0, errReadAfterClose
	}
	if b.err != nil {
		return 0, b.err
	}
	c := Chunk{N: len(p)}
	if len(b.spec.Chunks) > 0 && b.chunk < maxChunks {
		c = b.spec.Chunks[b.chunk%len(b.spec.Chunks)]
		b.chunk++
	}
	if s.park("body", time.Duration(c.D), b.ctx) {
		b.finish(b.ctx.Err(), "cancelled")
		b.w.count("cancelled body")
		return 0, b.err
	}
	if b.closed { // closed while waiting
		b.after = true
		return 0, errReadAfterClose
	}
	limit := b.limit()
	n = c.N
	if n > len(p) {
		n = len(p)
	}
	if n > limit-b.pos {
		n = limit - b.pos
	}
	if n == 0 && limit > b.pos && len(p) > 0 {
		b.zero++
		b.w.count("empty read")
		if b.zero < 20 {
			return 0, nil
		}
		n = 1
	}
	b.zero = 0
	copy(p, b.spec.Body[b.pos:b.pos+n])
	if n < limit-b.pos {
		b.w.count("partial read")
	}
	b.pos += n
	if b.pos < limit || (n > 0 && !b.spec.EOF) {
		return n, nil
	}
	if f := b.spec.Fault; f != nil {
		b.w.count("body " + f.Kind)
		switch f.Kind {
		case "error":
			b.finish(namedError(f.Err, "connection reset by peer"), "error")
		case "reset":
			b.finish(io.ErrUnexpectedEOF, "unexpected end")
		case "stall":
			if s.park("stall", horizon, b.ctx) {
				b.finish(b.ctx.Err(), "stalled till cancelled")
			} else {
				b.finish(&simError{"stalled"}, "stalled")
			}
		default:
			b.finish(io.EOF, "early end")
		}
	} else {
		if b.spec.EOF {
			b.w.count("end with data")
		}
		b.finish(io.EOF, "end")
	}
	return n, b.err
}

// Close closes the body.
func (b *body) Close() error {
	b.closes++
	if !b.closed {
		b.closed = true
		b.closeAt = b.w.s.now()
		b.tardy = b.c.finished || len(b.c.exs) > b.nth
		b.late()
	}
	if b.spec.CErr {
		b.w.count("close error")
		return &simError{"close failed"}
	}
	return nil
}

// namedErrors are errors that code may be tempted to take for something else than a failure.
var namedErrors = map[string]error{
	"eof":        io.EOF,
	"unexpected": io.ErrUnexpectedEOF,
	"short":      io.ErrShortWrite,
	"pipe":       io.ErrClosedPipe,
	"noprogress": io.ErrNoProgress,
	"closed":     net.ErrClosed,
	"canceled":   context.Canceled,
	"deadline":   context.DeadlineExceeded,
	"timeout":    os.ErrDeadlineExceeded,
	"epipe":      syscall.EPIPE,
	"econnreset": syscall.ECONNRESET,
	"eintr":      syscall.EINTR,
	"handler":    http.ErrHandlerTimeout,
	"body":       http.ErrBodyReadAfterClose,
}

// namedError returns a well known error, or else one with the given text.
func namedError(name, text string) error {
	if err, ok := namedErrors[name]; ok {
		return err
	}
	return &simError{text}
}

// errorName picks one of the well known errors, or none.
func errorName(r *core.Rng) string {
	if r.Bool() {
		return ""
	}
	return core.Pick(r, []string{"unexpected", "short", "pipe", "noprogress", "closed", "timeout", "epipe", "econnreset", "eintr", "handler", "body"})
}
