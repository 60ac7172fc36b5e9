package clientsim

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"mime"
	"net/http"
	"net/url"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"

	"verif/sim/internal/core"
)

// answer is what a server sent: the simulated http.ResponseWriter.
type answer struct {
	w       *run
	spec    *Send
	header  http.Header
	sent    http.Header // when the status was sent
	codes   []int
	implied bool
	out     sink
	bad     *bad
	late    bool // another status after a failure
	over    bool // more than the declared length
	before  string
	after   string
	length  int // declared length of the body, or a negative number
}

// Header of the answer.
func (a *answer) Header() http.Header { return a.header }

// WriteHeader sends the status.
func (a *answer) WriteHeader(code int) {
	if code < 100 || code > 999 {
		panic(fmt.Sprintf("invalid WriteHeader code %v", code)) // this is what the server of Go does
	}
	if a.out.err != nil {
		a.late = true
	}
	a.codes = append(a.codes, code)
	if a.sent == nil {
		a.sent = a.header.Clone()
		a.length = -1
		if n, err := strconv.Atoi(a.sent.Get("Content-Length")); err == nil {
			a.length = n
		}
	}
}

// Write sends a part of the body.
func (a *answer) Write(p []byte) (int, error) {
	if a.sent == nil {
		a.implied = true
		a.WriteHeader(200)
	}
	if a.length >= 0 && len(a.out.got)+len(p) > a.length {
		a.over = true
		return 0, http.ErrContentLength // this is what the server of Go does
	}
	return a.out.Write(p)
}

var sendNames = map[string]string{"error": "SendError", "notfound": "SendNotFound", "method": "SendMethodNotAllowed", "internal": "SendInternalServerError", "panic": "SendPanic"}

// send uses one of the helpers.
func (w *run) send(t *task, c *Send) {
	a := &answer{w: w, spec: c, header: http.Header{}}
	a.out = sink{w: w, chunks: c.Chunks, fault: c.Fault}
	w.sent = append(w.sent, a)
	w.used = true
	req := &http.Request{Method: c.Method, URL: &url.URL{Path: c.Path}, Header: http.Header{}}
	args := []reflect.Value{reflect.ValueOf(a), reflect.ValueOf(req)}
	name := sendNames[c.How]
	p := &Part{Type: "#error", Value: c.Err}
	var v reflect.Value
	if c.How == "error" {
		t.in++
		v = w.object(p)
		a.before = fmt.Sprint(w.tree(p, v))
		t.in--
		args = append(args, v)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				a.bad = panicked(r, string(debug.Stack()))
				t.in = 0
			}
		}()
		w.errFn(name).Call(args)
	}()
	if c.How == "error" {
		t.in++
		a.after = fmt.Sprint(w.tree(p, v))
		t.in--
	}
	w.keys = append(w.keys, fmt.Sprint(c.How, a.codes, a.out.writes, a.out.err != nil))
	w.s.note(t, "%s: statuses %v, %d bytes, %v", name, a.codes, len(a.out.got), a.out.err)
	w.s.digest = core.MixStr(w.s.digest, string(a.out.got))
	if a.out.err != nil {
		w.notes["failed answer"]++
	} else {
		w.notes["complete answer"]++
	}
}

// checkSend is C20.
func (w *run) checkSend(a *answer) *bad {
	c := a.spec
	who := fmt.Sprintf("sending an error (%s) for %s %s", c.How, c.Method, c.Path)
	if a.bad != nil {
		if a.bad.class == "infra" {
			return a.bad
		}
		return sayBad("panic", "%s: %s", who, a.bad.text)
	}
	if a.before != a.after {
		return sayBad("changed", "%s changes the error from %s to %s", who, a.before, a.after)
	}
	code, id := 0, ""
	switch c.How {
	case "error":
		id, _ = c.Err["ID"].(string)
		var n int
		if _, err := fmt.Sscanf(id, "%d", &n); err == nil && fmt.Sprint(n) == id && n >= 100 && n <= 999 {
			code = n
		}
	case "notfound":
		code, id = 404, "404"
	case "method":
		code, id = 405, "405"
	case "internal":
		code, id = 500, "500"
	}
	generic := code == 0
	if generic {
		code = 500
	}
	if a.implied || len(a.codes) != 1 || a.codes[0] != code {
		return sayBad("status", "%s: statuses %v were sent (implied: %v) instead of %d", who, a.codes, a.implied, code)
	}
	mt, _, err := mime.ParseMediaType(a.sent.Get("Content-Type"))
	if err != nil || mt != "application/json" || len(a.sent.Values("Content-Type")) != 1 {
		return sayBad("type", "%s: the content type is %q", who, a.sent.Values("Content-Type"))
	}
	if a.late {
		return sayBad("late", "%s: another status was sent after the connection failed", who)
	}
	if a.over || a.out.err == nil && a.length >= 0 && a.length != len(a.out.got) {
		return sayBad("length", "%s: the declared length is %d, but %d bytes were accepted", who, a.length, len(a.out.got))
	}
	if a.out.err != nil {
		var x any
		err := json.NewDecoder(bytes.NewReader(a.out.got)).Decode(&x)
		if err == io.EOF || err == io.ErrUnexpectedEOF {
			return nil
		}
		// What the connection refused once may have been written again, but nothing else.
	}
	p := &Part{Type: "#error"}
	doc, err := w.fromDoc(p, a.out.got)
	if err != nil {
		return sayBad("body", "%s: the body isn't an error document: %v", who, err)
	}
	v, err := w.unmarshal(p, reflect.ValueOf(string(a.out.got)))
	if err != nil {
		return sayBad("back", "%s: the body can't be read: %v", who, err)
	}
	got := w.tree(p, v).(tree)
	if d := diffError(doc.(tree), got); d != "" {
		return sayBad("back", "%s: the body is read as something else: %s", who, d)
	}
	if generic {
		if got["ID"] == nil || got["Reason"] == nil {
			return sayBad("body", "%s: the generic error has no identifier or reason", who)
		}
		return nil
	}
	if c.How == "error" {
		if d := diffError(c.Err, got); d != "" {
			return sayBad("body", "%s: the body is a different error: %s", who, d)
		}
		return nil
	}
	reason, _ := got["Reason"].(string)
	if got["ID"] != id || !strings.Contains(reason, c.Path) || (c.How != "notfound" && !strings.Contains(reason, c.Method)) {
		return sayBad("body", "%s: the body is a different error: %s", who, short(got))
	}
	return nil
}

// sends generates a scenario with errors sent by servers.
func (g *maker) sends(sc *Scenario) {
	r := g.r
	tasks := 1
	if r.Chance(1, 2) {
		tasks = 2 + r.Intn(3)
	}
	for t := 0; t < tasks; t++ {
		for n := 1 + r.Intn(4); n > 0; n-- {
			c := &Send{Task: t, How: core.Pick(r, []string{"error", "error", "error", "notfound", "method", "internal", "panic"})}
			c.Method = core.Pick(r, []string{"GET", "POST", "PATCH", "DELETE", "PUT", "OPTIONS"})
			c.Path = "/api/" + core.Pick(r, []string{"v1", "x%y", "quo\"te", "ünï", "a b", "%s%d", "back\\slash", "<b>", "line\nbreak"}) + fmt.Sprint(r.Intn(100))
			if c.How == "error" {
				x := &Exch{}
				g.errorDoc(x)
				c.Err = x.Err
				switch r.Intn(6) {
				case 0:
					c.Err["ID"] = core.Pick(r, []string{"", "abc", "1000", "99", "0", "-1", "7", "12345", "99999999999999999999", "4 04", "0x194", " 404", "404 ", "404\n", "404.0", "4_04", "four"})
				case 1:
					delete(c.Err, "ID")
				default:
					c.Err["ID"] = fmt.Sprint(core.Pick(r, []int{400, 401, 403, 404, 409, 412, 429, 500, 501, 503, 599, 200, 299, 600, 999}))
				}
			}
			if r.Chance(2, 5) {
				b, _ := json.Marshal(c.Err)
				at := r.Intn(len(b) + 120)
				if r.Chance(1, 4) {
					at = 0
				}
				c.Fault = &Fault{At: at, Kind: core.Pick(r, []string{"short", "zero", "once"}), Err: errorName(r)}
			}
			if r.Chance(1, 3) {
				c.Chunks = []Chunk{{D: g.delay()}}
			}
			sc.Send = append(sc.Send, c)
		}
	}
	if tasks > 1 {
		sc.Yield = core.Pick(r, []int{0, 30, 150, 500})
	}
}
