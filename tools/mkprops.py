#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})

GEN = "pkg/generators/golang/"
# ---------------------------------------------------------------- tool
prop("C01", "Exit status 0 means the whole output is on disk, correct and formatted",
 "Whenever 'metamodel generate go', 'docs' or 'openapi' exits with status 0, every file that belongs to that model is present under the output directory with its complete content (for Go: also accepted and rewritten by the formatter, and with the embedded OpenAPI text equal to what 'generate openapi' writes), and no error was reported. "
 "If any file could not be created, written in full, closed, read back or formatted, the command reports an error and exits with a non-zero status. Interruptions that the operating system allows to be retried (short writes, short reads, EINTR) never change the result, and with nothing failing a well formed model within the supported limits is generated with status 0.",
 ["fault_sequences", "inputs", "configurations"],
 "every model the tool accepts, every kind of generation, every placement of create/mkdir/write/close/read-back/remove/formatter failures (EIO, ENOSPC, EDQUOT, EMFILE, EACCES, short write, EINTR, formatter missing, failing or killed), sticky or transient",
 "The existing tests run the generators against a healthy file system only and never look at the exit status under a failing write, a full disk or a failing formatter.",
 [GEN + "buffer.go", GEN + "openapi_generator.go", "pkg/markdown/buffer.go", "pkg/generators/openapi/buffer.go", "cmd/metamodel/generate/golang/cmd.go", "cmd/metamodel/generate/docs/cmd.go", "cmd/metamodel/generate/openapi/cmd.go"],
 [("every buffer returns the error of creating/writing/closing its file and the commands exit 1 on any generator error", GEN + "buffer.go Write; pkg/markdown/buffer.go Write; pkg/generators/openapi/buffer.go Write; cmd/*/cmd.go run"),
  ("formatter failure ends the command with status 1", "cmd/metamodel/generate/golang/cmd.go")],
 ["exit status of the command", "error lines on stderr/stdout", "contents of the output directory"])
prop("C02", "A model that cannot be read completely is never used",
 "If any part of the model cannot be read completely (a model, service or version directory or a file of it cannot be listed, inspected, opened or read to its end), or the model has an error, then 'metamodel check' and every 'metamodel generate' command report an error and exit with a non-zero status, and nothing in the output directory is created, changed or removed. "
 "'metamodel check' exits 0 only for a model that was read completely and has no errors.",
 ["fault_sequences", "inputs"],
 "every accepted model, every placement of a stat/open/readdir/read/close failure (EIO, EACCES, ENOENT, EMFILE, EINTR, short reads, file vanishing between listing and opening, early end of file) while the model is being read, for every command and previous content of the output directory",
 "Unit tests feed healthy files; no test makes a directory listing or a read fail, so nothing distinguishes 'the file was empty' from 'the file could not be read'.",
 ["pkg/language/reader.go", "pkg/language/errors.go", "cmd/metamodel/check/cmd.go", "cmd/metamodel/generate/golang/cmd.go", "cmd/metamodel/generate/docs/cmd.go", "cmd/metamodel/generate/openapi/cmd.go"],
 [("every load function returns the I/O error and Read fails when the reporter has counted errors", "pkg/language/reader.go"),
  ("commands read the whole model before creating the generators", "cmd/metamodel/generate/*/cmd.go run")],
 ["exit status", "error lines", "output directory before and after"])
prop("C03", "Damaged model files are rejected or used in full, never in part",
 "When the text of a model file was damaged on its way to the tool (cut off at any byte, a block lost, zeroed, duplicated or overwritten, bytes flipped) and the result is not a complete well formed model text, or refers to something its own service version does not define (or with a reference to another service, something that version does not define), every command rejects it: an error is reported, the exit status is non-zero and the output is untouched. "
 "When the damaged text is still a well formed model and the command succeeds, the result contains every declaration of the text; no declaration is silently dropped.",
 ["inputs", "fault_sequences"],
 "every model, every stored-byte fault: truncation at any offset, loss/zeroing/duplication/reordering of blocks, flipped or overwritten bytes, in any subset of the files of the model, for every command",
 "Language tests contain a few dozen hand written valid snippets and about ten semantic errors; the position of a tear and the state of the parser at that position are sampled by none of them.",
 ["pkg/language/reader.go", "pkg/language/errors.go", "pkg/language/checks.go", "pkg/language/ModelParser.g4", "pkg/language/model_parser.go"],
 [("syntax errors are counted by the error listener and make Read fail", "pkg/language/errors.go, pkg/language/reader.go loadFile"),
  ("references are recorded as undefined until the definition is seen, and reported at the end", "pkg/language/reader.go, checks.go")],
 ["exit status", "error lines", "output directory"],
 state=[("undefined types/resources/errors", "names that were referenced and not yet defined", "pkg/language/reader.go")])
prop("C04", "Generated output is a function of the model and the options only",
 "For a given model and given options, every run of a generate command produces byte for byte the same set of files and the same exit status. "
 "Nothing else influences it: not the iteration order of hash maps, the order in which the file system lists directories, the clock, the process id, the environment, the location of the model or output directories, the name of temporary directories, nor files left in the output directory by earlier runs.",
 ["configurations", "schedules", "histories", "inputs"],
 "every model, every hash seed and map iteration order, directory enumeration order, clock value (including jumps during the run), temporary name, working directory, model and output location, environment, and prior content of the output directory",
 "Tests generate once and compile the result; two runs that differ in import order, in declaration order or in a time stamp both compile.",
 [GEN + "buffer.go", GEN + "metrics_generator.go", GEN + "openapi_generator.go", "pkg/generators/openapi/openapi_generator.go", "pkg/generators/openapi/buffer.go", "pkg/generators/docs/docs_generator.go", "pkg/concepts/version.go", "pkg/concepts/model.go", "pkg/concepts/resource.go", "pkg/concepts/type.go", "cmd/metamodel/generate/golang/cmd.go"],
 [("concepts are returned sorted by name, sources are sorted before formatting, JSON objects are encoded from sorted maps", "pkg/concepts/*.go, cmd/metamodel/generate/golang/cmd.go")],
 ["bytes of every output file", "exit status"])
prop("C05", "Running again after a crash gives the same output as a clean run",
 "If a generate command is killed at an arbitrary point, or the machine loses power and unsynced data with it, running the same command again succeeds without any manual cleaning and leaves in every file that belongs to the model exactly the content that a first run into an empty directory gives. "
 "The same holds after any number of interrupted or failed runs, and after a successful run over older output of a smaller model.",
 ["crash_points", "histories", "fault_sequences", "inputs"],
 "every model, every command, every crash point (before, in the middle of or after any system call), kill or power loss with any subset of unsynced writes kept, torn or lost, any number of interrupted runs before the final one",
 "No test interrupts the generator; the tests delete the output directory before generating.",
 [GEN + "buffer.go", "pkg/markdown/buffer.go", "pkg/generators/openapi/buffer.go", GEN + "openapi_generator.go", "cmd/metamodel/generate/golang/cmd.go"],
 [("files are opened with truncation and rewritten as a whole on every run; nothing is skipped because it already exists", GEN + "buffer.go Write"),
  ("temporary directory has a fresh name on every run", GEN + "openapi_generator.go")],
 ["exit status of the final run", "contents of the output directory"])
prop("C06", "A run changes only its output directory and removes its temporary files",
 "A run of the tool creates, changes, renames or deletes nothing outside the directory given with --output and temporary directories that the run itself created; model files are never changed, 'check' changes nothing at all, and nothing that existed before in the output directory is deleted. "
 "When the command ends, successfully or with an error, every temporary file or directory it created is gone, unless the operating system refused to remove it, in which case that is reported.",
 ["fault_sequences", "inputs", "histories"],
 "every command, every model, every placement of I/O failures, formatter failures and of foreign files in the output, model and temporary directories",
 "Tests never look at the temporary directory or outside the output directory, and never on a failing path.",
 [GEN + "openapi_generator.go", "cmd/metamodel/generate/golang/cmd.go", GEN + "buffer.go", "pkg/markdown/buffer.go", "pkg/generators/openapi/buffer.go"],
 [("MkdirTemp plus deferred RemoveAll around the nested OpenAPI generation", GEN + "openapi_generator.go"),
  ("all output paths are joined to the output directory", GEN + "buffer.go, packages_calculator.go")],
 ["every path the process modifies", "temporary directory after exit"])
prop("C07", "Simultaneous runs of the tool do not affect one another",
 "Runs of the tool that overlap in time, with different output directories and the same or different models, each produce exactly the exit status and the files they produce when run alone, whichever way their operations interleave and even if one of them is killed halfway. "
 "A run never reads, overwrites or removes the temporary files of another one.",
 ["schedules", "crash_points", "inputs"],
 "every pair of commands and models, every interleaving of their system calls, kill of either of them at any point, any left over temporary file of dead runs",
 "Tests run one generator at a time.",
 [GEN + "openapi_generator.go", "cmd/metamodel/generate/golang/cmd.go"],
 [("temporary directories get unique names from the operating system", GEN + "openapi_generator.go")],
 ["exit status and files of each run"])
# ---------------------------------------------------------------- clients
CL = GEN + "clients_generator.go"; HL = GEN + "helpers_generator.go"; JS = GEN + "json_generator.go"; ER = GEN + "errors_generator.go"
BI = "pkg/http/binding_calculator.go"
prop("C08", "One call of a generated client sends exactly one, faithful request",
 "Every send of a generated request makes exactly one exchange with the transport, whatever the outcome, with the HTTP method, URL path, query parameters, headers and JSON body that correspond to the method, the locators and the values given by the caller, and nothing else. "
 "Sending does not change the request object: sending it again, after success, failure or cancellation, sends the same request again, and headers or parameters never accumulate or leak between sends. (A body that has no representation in JSON, like one with a not-a-number, is reported as an error and nothing is sent.)",
 ["histories", "schedules", "fault_sequences", "inputs"],
 "every method of every resource, every combination and order of setters, headers, parameters and sends, every outcome of earlier sends (success, transport error, error status, broken body, cancellation), transports that modify the request they are given",
 "Tests send a request once to a healthy server and look at one header or parameter at a time.",
 [CL, HL, JS, BI],
 [("per send copies of query and headers, body marshalled into a fresh buffer, a single RoundTrip call", CL + " SendContext; " + HL)],
 ["requests seen by the transport"])
prop("C09", "A successful call returns exactly what the server sent",
 "When a generated client call returns without error, its status, headers and every response parameter are exactly those of the response that the server sent for that request, with presence and absence of each attribute preserved. "
 "This does not depend on how the network split, delayed or paced the bytes of the response, nor on unknown extra fields or on the order of the fields.",
 ["schedules", "inputs", "fault_sequences"],
 "every method kind and response type, every division of the response body in chunks of any size and delay, end of file delivered with or after the last byte, any order of fields and unknown fields, values larger than the internal buffers",
 "Tests deliver small bodies in one piece.",
 [CL, JS, GEN + "types_generator.go"],
 [("responses are decoded with an iterator that refills its buffer from the body reader", JS + "; " + HL)],
 ["values returned by the getters of the response"])
prop("C10", "A broken exchange is never reported as a success",
 "If the transport fails, or the response body ends before its JSON value is complete, or reading it fails at any byte, or it is not the JSON value expected, the generated client call returns an error; it never returns a nil error with a partial, empty or default result. "
 "(A body of no bytes at all that ends normally is an answer without content, and methods without response parameters do not interpret the body of a successful answer.) "
 "When the transport failed the error is the one that the transport gave, and the call returns no response.",
 ["fault_sequences", "inputs", "schedules"],
 "every method kind with a response body, every response, every byte position at which the body is cut, fails or is damaged, transport failures before and after the server processed the request",
 "Tests use a healthy HTTP server; no test cuts a body.",
 [CL, JS],
 [("errors of RoundTrip, of the JSON iterator and of reading the body are returned", CL + ", " + JS)],
 ["error and response returned by the call"])
prop("C11", "Error responses always surface with the server's status and details",
 "When the server answers with an HTTP status of 400 or more and a body, the call returns a non-nil error together with a response whose status is the HTTP status; if the body is an error document the error is the structured error with exactly the identifier, code, reason, operation identifier, details and timestamp that the server sent and the HTTP status of the response, also available from the response; if the body is cut off, unreadable or not JSON an error is returned too. "
 "A response below 400 never produces a structured error.",
 ["fault_sequences", "inputs", "schedules"],
 "every method kind, every status, every error document, every chunking, truncation, read failure and damage of the error body",
 "Tests try a couple of statuses with complete JSON bodies.",
 [CL, ER],
 [("status check before decoding and UnmarshalErrorStatus", CL + "; " + ER)],
 ["error and response returned by the call"])
prop("C12", "Every response body is closed exactly by the time the call returns",
 "For every response that the transport delivers to a generated client, the body has been closed when the call returns, on every path: success, error status, empty body, broken body, decoding error, cancelled context, panic of a user callback, and every iteration of a poll. "
 "The body is never read after it was closed.",
 ["fault_sequences", "schedules", "histories"],
 "every method kind and poll, every status, body, fault and cancellation point",
 "Connections leak silently; no test counts open bodies.",
 [CL],
 [("deferred Close right after a successful RoundTrip", CL)],
 ["Close calls seen by the response body", "number of open bodies over a history"])
prop("C13", "The caller's context governs the exchange",
 "The exchange made by a generated client carries the context given by the caller (values, deadline and cancellation); when that context is cancelled or its deadline passes before or during the exchange, including while the body is being received, the call ends with the error that the transport or the body reports, without waiting for anything else and without a success. "
 "A call never ends early because of the cancellation of some other call's context.",
 ["schedules", "fault_sequences"],
 "every method kind, cancellation or deadline at any instant before, during and after the exchange, any delay of transport and body, concurrent calls with different contexts",
 "Tests use the background context or a single deadline.",
 [CL, HL],
 [("request.WithContext(ctx); bodies and transport of net/http observe the context", CL)],
 ["context seen by the transport", "time and error of the return"])
prop("C14", "Polling ends with success only when its condition is satisfied",
 "When a poll returns without error, the response it returns has one of the requested statuses (200 if none was given), satisfies all the predicates, and is the last response received; no request is sent after a response that satisfies the condition, and no usable response that satisfies it is ever skipped. "
 "A low level failure (no status) ends the poll at once with that failure; error statuses that are not requested are retried; every way of giving up, including running out of time, returns an error.",
 ["histories", "schedules", "fault_sequences"],
 "every sequence of responses and failures, every set of statuses and predicates, every interval, deadline and latency",
 "poll_test.go samples eight fixed histories with 10 ms real deadlines and is excluded as flaky.",
 [HL, CL],
 [("PollContext loop evaluating status and predicates", HL)],
 ["requests seen by the server", "predicate calls", "result of the poll"])
prop("C15", "Polling keeps its pace and ends before its deadline",
 "Consecutive requests of a poll are separated by the interval: the next one starts exactly one interval after the previous response was evaluated, never earlier (unless the context has already ended, and the request only finds that out) and (on an unloaded system) not later; the first one is immediate. "
 "A poll without a deadline or without a positive interval is refused without sending anything; no request starts after the deadline, a poll never keeps waiting for an attempt that could only start after the deadline, and after cancellation it ends within one interval plus the duration of the exchange in progress.",
 ["schedules", "fault_sequences", "configurations"],
 "every interval, deadline, latency distribution and cancellation instant, in simulated time",
 "Real sleeps of milliseconds cannot distinguish one interval from none, and long deadlines cannot be waited for.",
 [HL, CL],
 [("deadline check before sleeping one interval", HL)],
 ["instants of requests and of the return in simulated time"])
prop("C16", "Concurrent use of generated clients does not mix up calls",
 "Clients, locators and finished request objects can be used from several callers at once: each call receives the response to its own request, sends exactly the request its caller described, and has the result it would have had alone, for every interleaving of the exchanges. "
 "Response objects stay unchanged after they were returned, whatever other calls do.",
 ["schedules", "histories", "fault_sequences"],
 "any number of concurrent callers sharing transports, clients, locators, requests, builders' results and poll requests, every interleaving of request sending, chunk delivery, faults and cancellation",
 "Tests make one call at a time.",
 [CL, HL, JS],
 [("no shared mutable state: requests copy their query and headers, every call decodes with its own iterator", CL + ", " + HL + ", " + JS)],
 ["association of requests, responses and results by unique values"])
prop("C17", "Decoding from a stream does not depend on how the stream behaves",
 "Reading a value of any model type, a list of them, the version metadata or an error from a reader gives the same value as reading it from the complete text, for every way in which the reader divides the bytes, including one byte at a time, reads that return no data, and end of file reported together with the last byte. "
 "If the reader fails or ends before the value is complete, the read function returns an error, and the reader's own error when that is what happened.",
 ["inputs", "fault_sequences", "schedules"],
 "every generated type with any value, every chunking and every failing or ending position",
 "Tests decode complete strings; the reader path is never interrupted.",
 [JS, ER],
 [("iterator with a 4096 byte buffer refilled from the reader, iterator.Error returned", JS)],
 ["value and error returned by the Unmarshal functions"])
prop("C18", "Encoding writes the complete document or reports the failure",
 "Writing a value of any model type, list, metadata or error to a writer returns nil only after the complete JSON document that represents exactly the attributes present in the value has been accepted by the writer; if the writer fails so that it does not get the complete document, at any point, the writer's error is returned, and a value that has no representation in JSON is reported as an error. "
 "The document does not depend on map iteration order (except inside of opaque Interface values), and reading it back gives a value equal to the original (the href and kind of a list of links belong to what was received and are not written).",
 ["inputs", "fault_sequences", "schedules"],
 "every generated type with any value, writers that fail at any byte, transiently or permanently, or accept only part of the data",
 "Tests write to memory buffers that never fail.",
 [JS, ER],
 [("stream.Flush and stream.Error are returned", JS)],
 ["bytes accepted by the writer", "error returned by the Marshal functions"])
prop("C19", "Built objects are immutable snapshots",
 "An object obtained from a builder, from a response or from a read function never changes afterwards: not when the builder it came from is modified, reused or built again, not when builders copied from it are changed, not when slices or maps that the caller passed in are modified, and not by sending, encoding or reading it from any number of concurrent tasks. "
 "Building twice gives equal and independent objects, and building from a copy of an object gives an object equal to it. "
 "(Opaque Interface values, timestamps of errors and the internal slices and maps that getters return belong to the object and are not copied; Slice of a list is. A builder is used by one task at a time.)",
 ["histories", "schedules"],
 "every generated type, every interleaving of set, build, copy, read, encode and send operations of several tasks that share builders and objects",
 "Tests build each object once and read it immediately.",
 [GEN + "builders_generator.go", GEN + "types_generator.go"],
 [("Build and Copy create new slices, maps and nested objects", GEN + "builders_generator.go")],
 ["values of the getters over time", "JSON text of the object over time"])
prop("C20", "Server side error helpers send one complete error answer",
 "The generated helpers that send errors write exactly one answer: the content type is JSON, the status is the one the error denotes (404, 405, 500 for the fixed ones, the numeric identifier for a given error, 500 with a generic error if the identifier is not an HTTP status), written once and before the body, and the body is the complete error document that the client's reader turns back into the same error. "
 "If the connection fails at any point while the answer is written they return without panicking and without sending another status or another document.",
 ["fault_sequences", "inputs", "schedules"],
 "every error value, every failing position of the response writer, concurrent use for several requests",
 "One test per helper with a healthy recorder.",
 [ER],
 [("headers, status, body order in SendError, write errors only logged", ER)],
 ["calls received by the response writer"])
prop("C21", "Generated clients and servers that use the generated code agree on values",
 "When a server uses the generated code to read requests (query parameter parsers, path segments, readers of bodies) and to write answers (writers, error helpers), it gets exactly the values that the caller gave to the generated client, and the client gets exactly what the server wrote, for all values and however the network divides or delays the bytes and the conversations interleave. "
 "A parameter that the caller did not give is reported as absent; a parameter that arrives more than once, or with a text that isn't a value of its type, and a body that doesn't arrive completely, are reported to the server as an error, never as absent, partial or as some default. Leading and trailing slashes of a path add no segments.",
 ["inputs", "fault_sequences", "schedules"],
 "every method, parameter type and value, every division and loss of bytes, repeated and malformed parameters, several conversations at once",
 "The tests use fixed strings for a few parameters and never connect both sides.",
 [JS, HL, CL, ER],
 [("typed parameters are written by AddValue and read by the Parse functions", HL + "; " + JS), ("both sides share the readers and writers of each type", JS), ("errors are sent by SendError and read by UnmarshalErrorStatus", ER)],
 ["what the parsers and readers return at the server", "results of the client's calls"])
# ---------------------------------------------------------------- not applicable
prop("C30", "Code generated from an accepted model always compiles",
 "For every model that the tool accepts, the Go code it generates compiles and passes vet.",
 ["inputs", "programs"], "every accepted model",
 "The tests compile the code of one model.", [GEN + "types_generator.go", GEN + "builders_generator.go", CL, JS],
 [("templates and import calculation", GEN + "buffer.go")], ["go build of the output"])
prop("C31", "OpenAPI, documentation and Go client describe the same API",
 "For every accepted model, the paths, methods, parameters and types of the OpenAPI document and of the documentation are those that the Go client uses.",
 ["inputs", "programs"], "every accepted model",
 "The tests only validate that generation exits with 0.", ["pkg/generators/openapi/openapi_generator.go", CL, BI],
 [("shared binding calculator", BI)], ["OpenAPI document", "requests of the client"])
prop("C32", "Semantic mistakes in a model are always reported",
 "Every model that breaks a rule of the language (method shapes, parameter directions, defaults, locator loops, duplicated definitions) is rejected.",
 ["inputs", "programs"], "every model text",
 "The tests contain about ten invalid models.", ["pkg/language/checks.go"],
 [("semantic checks after reading", "pkg/language/checks.go")], ["exit status of check"])
prop("C33", "Name translation is consistent and collision free",
 "For every model name the Go, JSON, HTTP and file names calculated in different generators agree with each other and distinct concepts get distinct names.",
 ["inputs"], "every name and annotation",
 "The tests sample a few names.", ["pkg/names/parser.go", "pkg/names/name.go", GEN + "names_calculator.go", BI],
 [("names.Name and calculators", "pkg/names")], ["generated identifiers"])
prop("C34", "Documentation comments reach the output unchanged",
 "Every documentation comment of the model appears, attached to the right concept, in the generated Go code, documentation and OpenAPI.",
 ["inputs"], "every comment text and position",
 "The tests look at one or two comments.", ["pkg/language/reader.go", GEN + "buffer.go", "pkg/markdown/buffer.go"],
 [("comments collected by the lexer and assigned to declarations", "pkg/language/reader.go")], ["generated text"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
