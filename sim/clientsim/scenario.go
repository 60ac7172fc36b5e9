package clientsim

// Scenario is one simulated execution; together with the code under test it decides everything that happens.
type Scenario struct {
	Prop  string `json:"prop"`
	MSeed uint64 `json:"mseed"` // of the random models
	Model string `json:"model"`
	Svc   string `json:"svc"`
	Ver   string `json:"ver"`
	Seed  uint64 `json:"seed"`            // schedule
	Hash  uint64 `json:"hash"`            // iteration order of maps
	Yield int    `json:"yield,omitempty"` // chance in 1000 to switch tasks at a statement of the generated code

	Reqs  []*Req  `json:"reqs,omitempty"`
	Tasks [][]*Op `json:"tasks,omitempty"`

	Codec []*Codec `json:"codec,omitempty"` // C17, C18
	Hist  *Hist    `json:"hist,omitempty"`  // C19
	Send  []*Send  `json:"send,omitempty"`  // C20

	Note string `json:"note,omitempty"`
}

// Loc is one step of the path to a resource.
type Loc struct {
	Name string `json:"name"`
	ID   string `json:"id,omitempty"`
}

// Req describes a request object.
type Req struct {
	Path    []Loc          `json:"path,omitempty"`
	Res     string         `json:"res,omitempty"`
	Method  string         `json:"method,omitempty"` // empty: metadata of the version
	Params  map[string]any `json:"params,omitempty"`
	Query   [][2]string    `json:"query,omitempty"`
	Headers [][2]string    `json:"headers,omitempty"`
	User    string         `json:"user,omitempty"`
	Lazy    bool           `json:"lazy,omitempty"` // created by the task that uses it instead of before
	Poll    *Poll          `json:"poll,omitempty"`
}

// Poll describes a polling request.
type Poll struct {
	Interval int64 `json:"interval"`
	Statuses []int `json:"statuses,omitempty"`
	Preds    int   `json:"preds,omitempty"`
}

// Op is one thing that a task does.
type Op struct {
	Kind   string  `json:"kind"` // send, poll, wait
	Req    int     `json:"req"`
	How    string  `json:"how,omitempty"`   // "": SendContext; "send": Send; "nil": SendContext(nil)
	Plain  bool    `json:"plain,omitempty"` // the context can't be cancelled, it only has values
	Cancel int64   `json:"cancel"`          // when the context is cancelled, after the start of the operation; negative: never
	Limit  int64   `json:"limit"`           // deadline of the context, after the start of the operation; 0: none
	Wait   int64   `json:"wait,omitempty"`
	Ex     []*Exch `json:"ex,omitempty"`
	Change *Req    `json:"change,omitempty"` // what the caller adds to the request object before sending it again
}

// Exch is what the simulated network and server do with a request.
type Exch struct {
	Delay  int64       `json:"delay,omitempty"`
	Take   []int       `json:"take,omitempty"`   // sizes of the reads of the request body, before the delay
	Late   bool        `json:"late,omitempty"`   // the rest of the request body is read after the answer is complete
	Mutate bool        `json:"mutate,omitempty"` // the transport changes the request that it was given
	TErr   string      `json:"terr,omitempty"`   // error of the transport
	Status int         `json:"status,omitempty"`
	Header [][2]string `json:"header,omitempty"`
	Body   string      `json:"body,omitempty"`
	Chunks []Chunk     `json:"chunks,omitempty"`
	EOF    bool        `json:"eof,omitempty"` // the end of the body is reported together with the last bytes
	Fault  *Fault      `json:"fault,omitempty"`
	Len    bool        `json:"len,omitempty"`  // the response says how long the body is
	CErr   bool        `json:"cerr,omitempty"` // closing the body fails
	Serve  *Serve      `json:"serve,omitempty"`
	// What the body is: value, empty, broken, error.
	Kind   string         `json:"kind,omitempty"`
	Values map[string]any `json:"values,omitempty"`
	Err    map[string]any `json:"err,omitempty"`
	End    int            `json:"end,omitempty"` // where the JSON value of the body ends
	// Polls: results of the predicates, and how long they take; "panic" in PredPanic.
	Preds     []bool `json:"preds,omitempty"`
	PredDelay int64  `json:"pred_delay,omitempty"`
	PredPanic bool   `json:"pred_panic,omitempty"`
}

// Chunk is one read of a body.
type Chunk struct {
	N int   `json:"n"`
	D int64 `json:"d,omitempty"`
}

// Fault of a stream.
type Fault struct {
	At   int    `json:"at"`
	Kind string `json:"kind"`          // error, reset (unexpected EOF), eof (ends early), stall (no more data until cancelled)
	Err  string `json:"err,omitempty"` // name of the error
}

// Codec is one use of the read or write functions (C17, C18).
type Codec struct {
	Task   int    `json:"task"`
	Parts  []Part `json:"parts"`
	Source string `json:"source,omitempty"` // reader, bytes, string, iterator (all the parts with one iterator over a reader)
	Text   string `json:"text,omitempty"`   // what is read
	// The reader, or the writer:
	Chunks []Chunk `json:"chunks,omitempty"`
	EOF    bool    `json:"eof,omitempty"`
	Fault  *Fault  `json:"fault,omitempty"` // of a writer: short, zero, once
	Broken bool    `json:"broken,omitempty"`
	Decode bool    `json:"decode,omitempty"` // what is written comes from a read function instead of a builder
	Hash2  uint64  `json:"hash2,omitempty"`
}

// Part is a value.
type Part struct {
	Type   string `json:"type"` // name of the type; "#error", "#metadata"
	List   bool   `json:"list,omitempty"`
	Value  any    `json:"value,omitempty"`
	End    int    `json:"end,omitempty"`    // where it ends in the text
	Status int    `json:"status,omitempty"` // of errors
}

// Hist is a history of operations with builders and objects (C19).
type Hist struct {
	Steps   []Step `json:"steps"`
	Readers []int  `json:"readers,omitempty"` // how many times each of the concurrent readers looks at objects
}

// Step of a history. Builders and objects are numbered in order of creation; steps that don't make sense are skipped.
type Step struct {
	Op   string `json:"op"`
	T    string `json:"t,omitempty"`
	List bool   `json:"list,omitempty"`
	B    int    `json:"b,omitempty"`
	O    int    `json:"o,omitempty"`
	Attr string `json:"attr,omitempty"`
	Val  any    `json:"val,omitempty"`
	Use  []int  `json:"use,omitempty"`
}

// Send is one use of the helpers that send errors (C20).
type Send struct {
	Task   int            `json:"task"`
	How    string         `json:"how"` // error, notfound, method, internal, panic
	Err    map[string]any `json:"err,omitempty"`
	Method string         `json:"method"`
	Path   string         `json:"path"`
	Chunks []Chunk        `json:"chunks,omitempty"`
	Fault  *Fault         `json:"fault,omitempty"`
}

// noName marks requests that impersonate a user without a name.
const noName = "-"

func (r *Req) user() string {
	if r.User == noName {
		return ""
	}
	return r.User
}
