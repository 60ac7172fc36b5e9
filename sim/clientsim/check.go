package clientsim

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"path"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"verif/sim/internal/mm"
)

// bad is a violation: a stable class and a description.
type bad struct{ class, text string }

func sayBad(class, format string, args ...any) *bad { return &bad{class, fmt.Sprintf(format, args...)} }

func (w *run) describe(c *call) string {
	e := w.eps[c.spec.Req]
	name := "metadata"
	if e.Method != nil {
		name = e.Resource.Name + "." + e.Method.Name
	}
	if c.spec.Kind == "poll" {
		name += " poll"
	}
	return fmt.Sprintf("call %d (%s of %s/%s)", c.n, name, w.sc.Svc, w.sc.Ver)
}

// ---------------------------------------------------------------- requests

func (w *run) wantPath(e *Endpoint, r *Req) string {
	p := path.Join(basePath, w.b.V.V.Name)
	for i, l := range e.Locators {
		if len(l.Vars) > 0 {
			p = path.Join(p, r.Path[i].ID)
		} else {
			p = path.Join(p, httpName(l.Anns, l.Name))
		}
	}
	if e.Method != nil && isAction(e.Method) {
		p = path.Join(p, httpName(e.Method.Anns, e.Method.Name))
	}
	return p
}

func queryText(t mm.TypeRef, x any) string {
	switch v := x.(type) {
	case json.Number:
		if t.Name == "Float" {
			f, _ := num(v)
			return fmt.Sprintf("%v", f)
		}
		return string(v)
	case string:
		if t.Name == "Date" {
			d, _ := time.Parse(time.RFC3339, v)
			return d.UTC().Format(time.RFC3339)
		}
		if t.Name == "Float" {
			f, _ := num(json.Number(v))
			return fmt.Sprintf("%v", f)
		}
		return v
	}
	return fmt.Sprintf("%v", plain(x))
}

func sameValues(a, b map[string][]string) string {
	var keys []string
	for k := range a {
		keys = append(keys, k)
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		if len(a[k]) != len(b[k]) || strings.Join(a[k], "\x00") != strings.Join(b[k], "\x00") {
			return fmt.Sprintf("'%s' is %q instead of %q", k, b[k], a[k])
		}
	}
	return ""
}

// checkRequest compares a request that was sent with what the caller described.
func (w *run) checkRequest(c *call, x *exchange) *bad {
	e, r := w.eps[c.spec.Req], c.req
	who := w.describe(c)
	wantMethod := "GET"
	if e.Method != nil {
		wantMethod = httpMethod(e.Method)
	}
	if x.method != wantMethod {
		return sayBad("method", "%s sends %s instead of %s", who, x.method, wantMethod)
	}
	if p := w.wantPath(e, r); x.url.Path != p {
		return sayBad("path", "%s sends path '%s' instead of '%s'", who, x.url.Path, p)
	}
	if x.url.Scheme != "" || x.url.Host != "" || x.url.User != nil || x.url.Fragment != "" || x.url.Opaque != "" {
		return sayBad("url", "%s sends URL %q", who, x.url.String())
	}
	want := url.Values{}
	for _, kv := range r.Query {
		_, text := looseValue(kv[1])
		want.Add(kv[0], text)
	}
	if e.Method != nil && !isAction(e.Method) {
		for _, p := range ins(e.Method) {
			if y, ok := r.Params[p.Name]; ok && w.b.V.isScalar(p.Type) {
				want.Add(queryName(p.Anns, p.Name), queryText(p.Type, y))
			}
		}
	}
	got, err := url.ParseQuery(x.url.RawQuery)
	if err != nil {
		return sayBad("query", "%s sends a query that can't be parsed: %v", who, err)
	}
	if d := sameValues(want, got); d != "" {
		return sayBad("query", "%s sends a different query: %s", who, d)
	}
	wh := http.Header{}
	for _, kv := range r.Headers {
		_, text := looseValue(kv[1])
		wh.Add(kv[0], text)
	}
	if r.User != "" {
		wh.Add("Impersonate-User", r.user())
	}
	if d := sameValues(wh, x.header); d != "" {
		return sayBad("header", "%s sends different headers: %s", who, d)
	}
	if !x.bodyEnd {
		return nil
	}
	return w.checkBody(who, e, r, x)
}

func (w *run) checkBody(who string, e *Endpoint, r *Req, x *exchange) *bad {
	var bp *mm.Param
	action := false
	if e.Method != nil {
		bp = w.b.V.bodyIn(e.Method)
		action = isAction(e.Method) && len(ins(e.Method)) > 0
	}
	if bp == nil && !action {
		if len(x.body) > 0 {
			return sayBad("body", "%s sends a body of %d bytes", who, len(x.body))
		}
		return nil
	}
	j, err := ParseJSON(x.body)
	if err != nil {
		return sayBad("body", "%s sends a body that isn't one JSON value: %v", who, err)
	}
	if bp != nil {
		got, err := FromJSON(w.b.V, bp.Type, false, j)
		if err != nil {
			return sayBad("body", "%s sends a body that isn't a %s: %v", who, bp.Type, err)
		}
		if d := Diff(w.b.V, bp.Type, false, r.Params[bp.Name], got, false); d != "" {
			return sayBad("body", "%s sends a different body: %s%s", who, bp.Name, d)
		}
		return nil
	}
	o, ok := j.(tree)
	if !ok {
		return sayBad("body", "%s sends a body that isn't an object", who)
	}
	seen := map[string]bool{}
	for _, p := range ins(e.Method) {
		n := jsonName(p.Anns, p.Name)
		y, ok1 := r.Params[p.Name]
		z, ok2 := o[n]
		seen[n] = true
		if ok1 != ok2 {
			return sayBad("body", "%s: presence of '%s' in the body is %v instead of %v", who, n, ok2, ok1)
		}
		if ok1 {
			got, err := FromJSON(w.b.V, p.Type, false, z)
			if err != nil {
				return sayBad("body", "%s: parameter %s: %v", who, p.Name, err)
			}
			if d := Diff(w.b.V, p.Type, false, y, got, false); d != "" {
				return sayBad("body", "%s sends a different body: %s%s", who, p.Name, d)
			}
		}
	}
	for _, k := range sorted(o) {
		if !seen[k] {
			return sayBad("body", "%s: unexpected '%s' in the body", who, k)
		}
	}
	return nil
}

// ---------------------------------------------------------------- outcomes

// outcome tells how a call has to end after its exchange, given what the client really received:
//
//	transport: the error of the transport and no response
//	ok: no error, and the values sent
//	empty: no error and no values
//	fail: some error
//	structured: the error that the server sent
//	okany: no error with the values sent, or some error
//	any: nothing is required
func (w *run) outcome(e *Endpoint, x *exchange) string {
	if x.err != nil {
		return "transport"
	}
	s, b := x.spec, x.resp
	noOuts := e.Method != nil && len(outs(e.Method)) == 0
	failed := b.err != nil && b.err != io.EOF
	early := b.err != nil && b.pos < s.End
	switch {
	case s.Kind == "empty":
		if failed {
			return "fail"
		}
		if s.Status >= 400 || e.Method == nil {
			return "any"
		}
		return "empty"
	case s.Status >= 400:
		switch {
		case b.limit() == 0 && b.err == io.EOF && b.pos == 0:
			return "any" // same as an empty body
		case s.Kind == "broken", early:
			return "fail"
		case failed:
			return "structany"
		}
		return "structured"
	case noOuts:
		if failed && b.pos == 0 {
			return "fail"
		}
		if failed {
			return "any"
		}
		return "empty"
	case b.limit() == 0 && b.err == io.EOF && b.pos == 0:
		if e.Method == nil {
			return "any"
		}
		return "empty"
	case s.Kind == "broken", early:
		return "fail"
	case failed:
		return "okany"
	}
	return "ok"
}

func isNilErr(err error) bool {
	if err == nil {
		return true
	}
	v := reflect.ValueOf(err)
	return v.Kind() == reflect.Ptr && v.IsNil()
}

func (w *run) last(c *call) *exchange {
	if len(c.exs) == 0 {
		return nil
	}
	return c.exs[len(c.exs)-1]
}

func (w *run) basic(c *call) *bad {
	if c.bad != nil {
		return sayBad(c.bad.class, "%s: reading the response: %s", w.describe(c), c.bad.text)
	}
	if c.panicked != "" && c.panicked != "panic of the predicate" {
		return sayBad("panic", "%s panics: %s", w.describe(c), c.panicked)
	}
	if c.err != nil && isNilErr(c.err) {
		return sayBad("nilerror", "%s returns an error that is a nil pointer", w.describe(c))
	}
	return nil
}

// checkSuccess is C09: what a successful call returns.
func (w *run) checkSuccess(c *call) *bad {
	x := w.last(c)
	if x == nil || c.spec.Kind == "poll" || c.panicked != "" {
		return nil
	}
	e := w.eps[c.spec.Req]
	who := w.describe(c)
	o := w.outcome(e, x)
	switch o {
	case "ok", "empty", "okany":
	default:
		return nil
	}
	if c.err != nil {
		if o == "okany" {
			return nil
		}
		return sayBad("spurious", "%s fails with '%v' but the server sent a complete answer with status %d", who, c.err, x.spec.Status)
	}
	if c.respNil {
		return sayBad("noresponse", "%s returns neither an error nor a response", who)
	}
	if c.status != x.spec.Status {
		return sayBad("status", "%s returns status %d instead of %d", who, c.status, x.spec.Status)
	}
	wh := http.Header{}
	for _, kv := range x.spec.Header {
		wh.Add(kv[0], kv[1])
	}
	if d := sameValues(wh, c.header); d != "" {
		return sayBad("header", "%s returns different headers: %s", who, d)
	}
	want := x.spec.Values
	if o == "empty" {
		want = nil
	}
	if d := w.diffValues(e, want, c.values); d != "" {
		return sayBad("value", "%s returns something else than the server sent: %s", who, d)
	}
	return nil
}

// checkBroken is C10.
func (w *run) checkBroken(c *call) *bad {
	x := w.last(c)
	if x == nil || c.spec.Kind == "poll" || c.panicked != "" {
		return nil
	}
	who := w.describe(c)
	switch w.outcome(w.eps[c.spec.Req], x) {
	case "transport":
		if c.err == nil {
			return sayBad("lost", "%s reports success but the transport failed with '%v'", who, x.err)
		}
		if !errors.Is(c.err, x.err) {
			return sayBad("other", "%s reports '%v' but the transport failed with '%v'", who, c.err, x.err)
		}
		if !c.respNil {
			return sayBad("response", "%s returns a response but the transport failed with '%v'", who, x.err)
		}
	case "fail":
		if c.err == nil {
			return sayBad("partial", "%s reports success with status %d but its body was not usable (%s, %d of %d bytes received, reader reported %v)", who, c.status, x.spec.Kind, x.resp.pos, len(x.spec.Body), x.resp.err)
		}
	}
	return nil
}

func (w *run) errorFields(err any) (map[string]any, *bad) {
	v := reflect.ValueOf(err)
	out := map[string]any{}
	for _, f := range []string{"Status", "ID", "HREF", "Code", "Reason", "OperationID", "Details", "Timestamp"} {
		m := method(v, "Get"+f)
		if !m.IsValid() {
			return nil, sayBad("unstructured", "the error is a %T", err)
		}
		r := m.Call(nil)
		if s := method(v, f); !s.IsValid() || !reflect.DeepEqual(s.Call(nil)[0].Interface(), r[0].Interface()) || (!r[1].Bool() && !r[0].IsZero()) {
			return nil, sayBad("getter", "%s and Get%s of the error don't agree", f, f)
		}
		if !r[1].Bool() {
			continue
		}
		switch f {
		case "Status":
			out[f] = json.Number(fmt.Sprint(r[0].Int()))
		case "Details":
			out[f] = unplain(r[0].Interface())
		case "Timestamp":
			t, _ := r[0].Interface().(*time.Time)
			if t == nil {
				return nil, sayBad("timestamp", "the timestamp of the error is present but nil")
			}
			out[f] = t.Format(time.RFC3339Nano)
		default:
			out[f] = r[0].String()
		}
	}
	return out, nil
}

func diffError(want, got map[string]any) string {
	for _, k := range []string{"Status", "ID", "HREF", "Code", "Reason", "OperationID", "Details", "Timestamp"} {
		x, ok1 := want[k]
		y, ok2 := got[k]
		if ok1 != ok2 {
			return fmt.Sprintf("%s: present is %v instead of %v", k, ok2, ok1)
		}
		if !ok1 {
			continue
		}
		same := false
		switch k {
		case "Timestamp":
			same = sameScalar("Date", x, y)
		case "Details":
			same = sameAny(x, y)
		case "Status":
			same = fmt.Sprint(x) == fmt.Sprint(y)
		default:
			same = x == y
		}
		if !same {
			return fmt.Sprintf("%s: %s instead of %s", k, short(y), short(x))
		}
	}
	return ""
}

// checkError is C11.
func (w *run) checkError(c *call) *bad {
	x := w.last(c)
	if x == nil || x.err != nil || c.panicked != "" || c.spec.Kind == "poll" {
		return nil
	}
	who := w.describe(c)
	if x.spec.Status < 400 {
		if c.respErr != nil {
			return sayBad("below", "%s has a structured error but the status is %d", who, x.spec.Status)
		}
		if c.err != nil {
			if _, b := w.errorFields(c.err); b == nil {
				return sayBad("below", "%s returns a structured error but the status is %d", who, x.spec.Status)
			}
		}
		return nil
	}
	o := w.outcome(w.eps[c.spec.Req], x)
	if o == "any" {
		return nil
	}
	if c.err == nil {
		return sayBad("lost", "%s reports no error but the server answered with status %d and a body (%s)", who, x.spec.Status, x.spec.Kind)
	}
	if c.respNil || c.status != x.spec.Status {
		return sayBad("status", "%s: the status of the response is %d instead of %d", who, c.status, x.spec.Status)
	}
	if o != "structured" {
		return nil
	}
	want := map[string]any{}
	for k, v := range x.spec.Err {
		want[k] = v
	}
	want["Status"] = json.Number(fmt.Sprint(x.spec.Status))
	for i, e := range []any{c.err, c.respErr} {
		if e == nil {
			return sayBad("missing", "%s: the response has no structured error", who)
		}
		got, b := w.errorFields(e)
		if b != nil {
			return sayBad(b.class, "%s: %s (%v)", who, b.text, e)
		}
		if d := diffError(want, got); d != "" {
			return sayBad("details", "%s: %s differs from what the server sent: %s", who, []string{"the error", "the error of the response"}[i], d)
		}
	}
	return nil
}

// checkClosed is C12.
func (w *run) checkClosed(c *call) *bad {
	for i, x := range c.exs {
		b := x.resp
		if b == nil {
			continue
		}
		who := w.describe(c)
		if !b.closed {
			return sayBad("open", "%s never closed the body of response %d (status %d, %s)", who, i+1, x.spec.Status, x.spec.Kind)
		}
		if b.closeAt > c.end {
			return sayBad("late", "%s closed the body of response %d after it returned", who, i+1)
		}
		if b.tardy {
			return sayBad("late", "%s closed the body of response %d only after the call went on", who, i+1)
		}
		if i+1 < len(c.exs) && b.closeAt > c.exs[i+1].start {
			return sayBad("late", "%s closed the body of response %d after it sent the next request", who, i+1)
		}
		if b.after {
			return sayBad("after", "%s reads the body of response %d after closing it", who, i+1)
		}
	}
	return nil
}

// checkContext is C13.
func (w *run) checkContext(c *call) *bad {
	who := w.describe(c)
	end := int64(-1)
	if c.cancelAt >= 0 {
		end = c.cancelAt
	}
	if c.spec.Limit > 0 {
		if d := c.start + c.spec.Limit; end < 0 || d < end {
			end = d
		}
	}
	if c.spec.How != "" {
		end = -1
	}
	for _, x := range c.exs {
		if x.ctxErr != "" {
			return sayBad("context", "%s: %s", who, x.ctxErr)
		}
		if end >= 0 && x.start <= end && x.end > end {
			return sayBad("deaf", "%s: its context ended at %v but the exchange went on until %v", who, time.Duration(end), time.Duration(x.end))
		}
		if x.resp != nil && end >= 0 && x.resp.err != nil && x.resp.errAt > end && x.start <= end {
			return sayBad("deaf", "%s: its context ended at %v but the body was read until %v", who, time.Duration(end), time.Duration(x.resp.errAt))
		}
		ended := (x.err != nil && isCtxErr(x.err)) || (x.resp != nil && x.resp.err != nil && isCtxErr(x.resp.err))
		if ended && end < 0 {
			return sayBad("foreign", "%s ended because of the context of something else", who)
		}
	}
	x := w.last(c)
	if x == nil || c.panicked != "" || c.spec.Kind == "poll" {
		return nil
	}
	if x.err != nil && isCtxErr(x.err) {
		if c.err == nil {
			return sayBad("success", "%s reports success but its context ended before the answer arrived", who)
		}
		if !errors.Is(c.err, x.err) {
			return sayBad("other", "%s reports '%v' instead of '%v'", who, c.err, x.err)
		}
		if c.end != x.end {
			return sayBad("slow", "%s returned %v after the exchange was cancelled", who, time.Duration(c.end-x.end))
		}
	}
	if b := x.resp; b != nil && b.err != nil && isCtxErr(b.err) {
		cut := w.outcome(w.eps[c.spec.Req], x) == "fail" && x.spec.Kind != "broken"
		if c.err == nil && cut {
			return sayBad("success", "%s reports success but its context ended after %d of %d bytes of the body", who, b.pos, len(x.spec.Body))
		}
		if cut && !errors.Is(c.err, b.err) && !strings.Contains(fmt.Sprint(c.err), b.err.Error()) {
			return sayBad("other", "%s reports '%v' instead of '%v'", who, c.err, b.err)
		}
		if c.end != b.errAt {
			return sayBad("slow", "%s returned %v after the body was cancelled", who, time.Duration(c.end-b.errAt))
		}
	}
	return nil
}

func isCtxErr(err error) bool {
	return errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded)
}

// ---------------------------------------------------------------- polls

func (w *run) attemptEnd(c *call, i int) int64 {
	x := c.exs[i]
	end := x.end
	if b := x.resp; b != nil {
		if b.closed && b.closeAt > end {
			end = b.closeAt
		}
	}
	for _, p := range c.preds {
		if p.ex == i && p.end > end {
			end = p.end
		}
	}
	return end
}

// attempt classifies an attempt of a poll: lowlevel, satisfied, unsatisfied.
func (w *run) attempt(c *call, i int) (satisfied, lowlevel bool) {
	x := c.exs[i]
	if x.err != nil {
		return false, true
	}
	statuses := c.req.Poll.Statuses
	if len(statuses) == 0 {
		statuses = []int{200}
	}
	for _, s := range statuses {
		if s == x.spec.Status {
			satisfied = true
		}
	}
	for k := 0; k < c.req.Poll.Preds; k++ {
		if k < len(x.spec.Preds) && !x.spec.Preds[k] {
			satisfied = false
		}
	}
	return satisfied, false
}

// checkPoll is C14.
func (w *run) checkPoll(c *call) *bad {
	if c.spec.Kind != "poll" || c.panicked != "" {
		return nil
	}
	who := w.describe(c)
	e := w.eps[c.spec.Req]
	for _, p := range c.preds {
		if p.diff != "" {
			return sayBad("predicate", "%s: a predicate was given something else than response %d: %s", who, p.ex+1, p.diff)
		}
	}
	for i := range c.exs {
		sat, low := w.attempt(c, i)
		if i+1 < len(c.exs) {
			if o := w.outcome(e, c.exs[i]); sat && o != "fail" && o != "any" && o != "okany" && o != "structany" {
				return sayBad("skipped", "%s: response %d satisfies the condition but another request was sent", who, i+1)
			}
			if low {
				return sayBad("retried", "%s: attempt %d failed with '%v' but another request was sent", who, i+1, c.exs[i].err)
			}
			continue
		}
		x := c.exs[i]
		if low {
			if c.err == nil {
				return sayBad("lost", "%s reports success but the last attempt failed with '%v'", who, x.err)
			}
			if !errors.Is(c.err, x.err) {
				return sayBad("other", "%s reports '%v' but the last attempt failed with '%v'", who, c.err, x.err)
			}
			continue
		}
		o := w.outcome(e, x)
		if c.err == nil {
			if !sat {
				return sayBad("unsatisfied", "%s reports success but the last response (status %d) doesn't satisfy the condition", who, x.spec.Status)
			}
			if o == "fail" || o == "structured" {
				return sayBad("broken", "%s reports success but the last response is an error or can't be used", who)
			}
			if c.respNil {
				return sayBad("noresponse", "%s returns neither an error nor a response", who)
			}
			if c.status != x.spec.Status {
				return sayBad("stale", "%s returns a response with status %d but the last one had %d", who, c.status, x.spec.Status)
			}
			if o == "ok" || o == "empty" {
				want := x.spec.Values
				if o == "empty" {
					want = nil
				}
				if d := w.diffValues(e, want, c.values); d != "" {
					return sayBad("stale", "%s returns something else than the last response: %s", who, d)
				}
			}
		} else if sat && (o == "ok" || o == "empty") {
			return sayBad("refused", "%s fails with '%v' but the last response satisfies the condition", who, c.err)
		} else if next := w.attemptEnd(c, i) + c.req.Poll.Interval; !sat && o != "fail" && c.req.Poll.Interval > 0 && c.spec.Limit > 0 && next < c.start+c.spec.Limit && (c.cancelAt < 0 || c.cancelAt > next) {
			return sayBad("gaveup", "%s gives up with '%v' after a response with status %d that doesn't satisfy the condition, the next attempt was due at %v and the deadline is %v", who, c.err, x.spec.Status, time.Duration(next), time.Duration(c.start+c.spec.Limit))
		}
	}
	if len(c.exs) == 0 && c.err == nil {
		return sayBad("nothing", "%s reports success without having sent anything", who)
	}
	return nil
}

// checkPace is C15.
func (w *run) checkPace(c *call) *bad {
	if c.spec.Kind != "poll" || c.panicked != "" {
		return nil
	}
	who := w.describe(c)
	interval := c.req.Poll.Interval
	if c.spec.Limit == 0 || interval <= 0 {
		if len(c.exs) > 0 {
			return sayBad("refuse", "%s has no deadline or no interval but sends requests", who)
		}
		if c.err == nil {
			return sayBad("refuse", "%s has no deadline or no interval but reports success", who)
		}
		if c.end != c.start {
			return sayBad("refuse", "%s has no deadline or no interval but takes %v", who, time.Duration(c.end-c.start))
		}
		return nil
	}
	deadline := c.start + c.spec.Limit
	cancelled := c.cancelAt
	if len(c.exs) == 0 {
		if cancelled < 0 {
			return sayBad("never", "%s sends nothing: %v", who, c.err)
		}
		return nil
	}
	if c.exs[0].start != c.start {
		return sayBad("first", "%s sends the first request after %v", who, time.Duration(c.exs[0].start-c.start))
	}
	for i := range c.exs {
		x := c.exs[i]
		if x.start > deadline {
			return sayBad("late", "%s sends request %d %v after its deadline", who, i+1, time.Duration(x.start-deadline))
		}
		end := w.attemptEnd(c, i)
		if i+1 < len(c.exs) {
			d := c.exs[i+1].start - end
			if d < interval && cancelled >= 0 && c.exs[i+1].start >= cancelled && c.exs[i+1].err != nil {
				continue // It only finds out that the context has ended.
			}
			if d != interval {
				return sayBad("pace", "%s sends request %d %v after the previous response instead of %v", who, i+2, time.Duration(d), time.Duration(interval))
			}
			continue
		}
		// The end.
		sat, low := w.attempt(c, i)
		o := w.outcome(w.eps[c.spec.Req], x)
		stop := sat || low
		over := end+interval > deadline
		switch {
		case stop || over:
			if c.end != end {
				return sayBad("lingers", "%s ends %v after there was nothing more to do", who, time.Duration(c.end-end))
			}
		case cancelled >= 0 && cancelled <= end+interval:
			// Cancelled: it may notice immediately or with the next attempt.
		case end+interval == deadline:
		case c.err != nil && o == "fail":
			// Gave up because of an answer that it can't use.
		default:
			return sayBad("early", "%s gives up with '%v' at %v, the next attempt was due at %v and the deadline is %v", who, c.err, time.Duration(c.end), time.Duration(end+interval), time.Duration(deadline))
		}
	}
	if cancelled >= 0 {
		// The attempt in progress may complete, and it may notice only when it tries again.
		from := cancelled
		for i, x := range c.exs {
			if end := w.attemptEnd(c, i); x.start <= cancelled && end > from {
				from = end
			}
		}
		if c.end > from+interval {
			return sayBad("deaf", "%s ends %v after it was cancelled, with an interval of %v", who, time.Duration(c.end-cancelled), time.Duration(interval))
		}
	}
	if c.end > deadline && w.attemptEnd(c, len(c.exs)-1) < c.end {
		return sayBad("after", "%s waits %v after its deadline", who, time.Duration(c.end-deadline))
	}
	return nil
}

// ---------------------------------------------------------------- all

// check evaluates the property of the scenario.
func (w *run) check() *bad {
	for _, s := range w.strange {
		return sayBad("strange", "%s", s)
	}
	for _, t := range w.s.tasks {
		if t.bad != nil {
			return sayBad(t.bad.class, "%s: %s", t.name, t.bad.text)
		}
	}
	if w.s.stuck != "" {
		return sayBad("stuck", "%s", w.s.stuck)
	}
	for _, c := range w.calls {
		if b := w.basic(c); b != nil {
			return b
		}
		if b := w.checkCall(c); b != nil {
			return b
		}
	}
	return w.checkOther()
}

func (w *run) checkCall(c *call) *bad {
	switch w.sc.Prop {
	case "C08":
		return w.checkSent(c)
	case "C09":
		return w.checkSuccess(c)
	case "C10":
		return w.checkBroken(c)
	case "C11":
		return w.checkError(c)
	case "C12":
		return w.checkClosed(c)
	case "C13":
		return w.checkContext(c)
	case "C14":
		return w.checkPoll(c)
	case "C15":
		return w.checkPace(c)
	case "C16":
		for _, f := range []func(*call) *bad{w.checkSent, w.checkBroken, w.checkSuccess, w.checkError, w.checkContext, w.checkPoll, w.checkPace, w.unchanged} {
			if b := f(c); b != nil {
				return b
			}
		}
	case "C21":
		for _, f := range []func(*call) *bad{w.checkBroken, w.checkSuccess, w.checkError} {
			if b := f(c); b != nil {
				return b
			}
		}
	case "C19":
		return w.unchanged(c)
	}
	return nil
}

// hopeless tells if the body of a request can't be encoded.
func (w *run) hopeless(e *Endpoint, r *Req) bool {
	for _, p := range ins(e.Method) {
		if hopeless(r.Params[p.Name]) {
			return true
		}
	}
	return false
}

func (w *run) checkSent(c *call) *bad {
	who := w.describe(c)
	if e := w.eps[c.spec.Req]; e.Method != nil && w.hopeless(e, c.req) {
		w.notes["unencodable value"]++
		if len(c.exs) > 0 {
			return sayBad("count", "%s sends a body that can't be complete", who)
		}
		if c.err == nil || !c.respNil {
			return sayBad("unencodable", "%s doesn't fail although its body can't be written as JSON", who)
		}
		return nil
	}
	if c.spec.Kind == "send" && len(c.exs) != 1 {
		return sayBad("count", "%s makes %d exchanges", who, len(c.exs))
	}
	for _, x := range c.exs {
		if b := w.checkRequest(c, x); b != nil {
			return b
		}
	}
	return nil
}

// unchanged compares a response with what it was when it was returned.
func (w *run) unchanged(c *call) (b *bad) {
	if c.respNil || c.panicked != "" || c.bad != nil {
		return nil
	}
	who := w.describe(c)
	defer func() {
		if r := recover(); r != nil {
			p := panicked(r, string(debug.Stack()))
			b = sayBad(p.class, "%s: reading the response again: %v", who, p.text)
		}
	}()
	resp := c.resp.(reflect.Value)
	if s := int(must(resp, "Status").Call(nil)[0].Int()); s != c.status {
		return sayBad("changed", "%s: the status of the response changed from %d to %d", who, c.status, s)
	}
	if d := sameValues(c.header, must(resp, "Header").Call(nil)[0].Interface().(http.Header)); d != "" {
		return sayBad("changed", "%s: the headers of the response changed: %s", who, d)
	}
	if d := w.diffValues(w.eps[c.spec.Req], c.values, w.readResponse(w.eps[c.spec.Req], resp)); d != "" {
		return sayBad("changed", "%s: the response changed after it was returned: %s", who, d)
	}
	return nil
}
