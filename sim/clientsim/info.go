package clientsim

import (
	"time"

	"verif/sim/harness"
)

var rules = map[string]string{
	"C08": "Every request given to the transport is compared with what the caller put in the request object (method, path, query, headers, impersonation, body parsed strictly); each send makes one exchange; request objects are sent again after successes, failures and cancellations by the same and by other tasks, while the transport modifies the requests that it is given.",
	"C09": "The server's answers are generated values written as JSON with shuffled fields, unknown fields and white space, delivered in seeded pieces; the status, headers and every attribute read from the response object must be the generated ones.",
	"C10": "Transport errors, bodies that end or fail at seeded bytes, stalls until cancellation, and documents of the wrong shape; whether the body could be used is decided from the bytes really delivered, and every unusable exchange has to be an error.",
	"C11": "Error documents with status of 400 or more, complete, cut off, failing or broken; error and response must carry exactly what was sent.",
	"C12": "Every body delivered by the transport records its reads and closes in virtual time.",
	"C13": "Contexts are cancelled or expire at seeded moments before, during and after the exchange and the body; values, deadlines and the moment of the return are compared.",
	"C14": "Polls against seeded sequences of answers, errors, broken bodies and predicates; the exchange history decides what the poll had to return.",
	"C15": "Polls in virtual time with seeded delays of server, body and predicates, cancellations and deadlines; start times of the requests and the return are compared with the exact ones.",
	"C16": "Two to four tasks use the same client, locators and request objects, switching before any statement of the generated code; all the oracles of single calls are applied to every call, and responses are read again at the end.",
	"C17": "Values, lists, metadata and errors are read from simulated readers that divide, delay, fail or end at seeded bytes; several values with one iterator; concurrent tasks. Compared with the generated value.",
	"C18": "Values, lists, metadata and errors, built or decoded, are written to simulated writers that fail at seeded bytes; the bytes taken by the writer are parsed strictly and compared with the value, read back, and written again with other hash seeds.",
	"C19": "Seeded histories of builders and objects (set, share builders, build, build again, copy, copy into, decode, modify arguments, modify returned copies), with concurrent readers; every object is compared with what it was when it was created after every step, and with what was asked for when that is known.",
	"C20": "The helpers write to a simulated response writer that records statuses, headers and bytes and fails at seeded bytes; the answer is parsed strictly and read back with the client's reader.",
	"C21": "Conversations between generated clients and simulated servers that use the generated code to read the requests (query parsers, path segments, readers) and to write the answers (writers, error helpers), over a network that divides, delays, repeats, garbles and loses; both sides are compared with the generated values.",
}

// Info describes the property for the evidence.
func (s *Sim) Info() harness.Info {
	return harness.Info{
		Level:    "exploration",
		Rule:     rules[s.id],
		Distinct: "different sequences of scheduling choices, methods called, outcomes and injected faults",
		Real: []string{
			"the metamodel command of /repo's working tree, which generates the code in every check",
			"the generated Go code (clients, builders, JSON readers and writers, errors, helpers), compiled with a switch point before each statement",
			"json-iterator, net/http types, context, time, goroutines, channels and locks of the Go runtime",
		},
		Stub: []string{
			"the network and the server (an http.RoundTripper that follows the scenario), readers, writers and response writers",
			"the clock (virtual time), the choice of the next goroutine, select choices, map iteration and hash seeds (seeded)",
		},
		Assumptions: []string{
			"goroutines switch only where they block, in the simulated network, or before a statement of the generated code; data races inside of one statement are not explored",
			"one fixed model that uses every feature of the language and two seeded random models stand for all models",
		},
		Quick:    harness.Budget{Episodes: 8000, Wall: 75 * time.Second},
		Thorough: harness.Budget{Episodes: 1 << 30, Wall: 10 * time.Minute},
	}
}
