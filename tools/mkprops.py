#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as Python so that it stays readable)."""
import json, os
CL = "progenitor-client/src/progenitor_client.rs"
ME = "progenitor-impl/src/method.rs"
TE = "progenitor-impl/src/template.rs"
LI = "progenitor-impl/src/lib.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "A typed response is the server's whole document, or an error",
  "When a call with a typed (JSON) response succeeds, or reports a documented error with a typed body, the value handed over is the decoding of exactly the complete body the server sent for that call, however its bytes were fragmented, delayed or framed. If the connection fails or the time limit expires after the response head but before the body is complete, the call reports a response-body error and hands over no value. If the body is complete but is not exactly one document of the documented type, the call reports an invalid-payload error that carries the received bytes unaltered and untruncated.",
  ["inputs", "schedules", "fault_sequences"],
  "every body (empty to megabytes), framing (length, chunked, close-delimited), fragmentation, delivery schedule, and every point at which the stream is cut, reset or stalled",
  "The existing tests never produce a response: they only encode requests. Truncation at each byte, resets between chunks and slow delivery are schedules and faults no sampled unit test reaches.",
  [CL, ME],
  [("whole-body read, then decode", CL + ": ResponseValue::from_response"), ("decode arm of generated code", ME + ": method_sig_body")],
  [("response body", "bytes between head and end of framing", "reqwest::Response")],
  ["value or error returned by the operation", "server log of bytes sent and delivered"])

p("C02", "A raw response stream yields the exact body and never ends early silently",
  "The byte stream handed over for an untyped response (success or documented error) yields exactly the bytes of the body the server sent, in order, without loss, duplication or alteration, and makes bytes available as they arrive rather than only once the body is complete. It ends cleanly only if the whole body was received; if the connection fails or the time limit expires earlier, what it yields is a prefix of the body followed by an error.",
  ["inputs", "schedules", "fault_sequences"],
  "every body, framing and fragmentation, every delivery schedule and consumer pace, every cut, reset or stall position",
  "No existing test reads a response stream at all; silent truncation only shows under a fault in mid-body.",
  [CL, ME],
  [("ByteStream over the response's chunk stream", CL + ": ResponseValue<ByteStream>::stream, ByteStream"), ("raw arm of generated code", ME + ": method_sig_body")],
  [("undelivered body", "bytes not yet yielded", "ByteStream")],
  ["items of the stream", "simulated arrival time of each byte"])

p("C03", "An upgraded connection is lossless both ways; a refusal stays a response",
  "When the server accepts a protocol upgrade with status 101, the call returns a connection on which every byte either side writes is received by the other exactly once and in order, including server bytes that arrived together with the acceptance, and end-of-stream or failure is seen only after the bytes before it; the acceptance's status and headers are reported. A response with any other status is never handed over as an upgraded connection: an undocumented one is returned as an unexpected response with status, headers and body intact.",
  ["inputs", "schedules", "fault_sequences"],
  "every split of the 101 head and following bytes into packets, every interleaving of reads and writes, every status other than 101, every cut position",
  "There is no upgrade test; the coalesced-bytes case and partial reads/writes depend on packet boundaries.",
  [CL, ME],
  [("101 check and upgrade hand-over", CL + ": ResponseValue<reqwest::Upgraded>::upgrade"), ("websocket headers and 101 arm", ME + ": method_sig_body, process_operation")],
  [("read-ahead buffer", "server bytes received with the head", "hyper upgrade")],
  ["bytes read from and written to the upgraded connection", "server byte log"])

p("C04", "Each call has one outcome, and it is what happened on the wire",
  "Every call ends in exactly one outcome determined by the exchange: a response whose status the API description documents as a success yields a success (also when only a status range or a default is documented, and for every 2xx of an operation that documents no success), one documented as an error yields a documented-error response with that status, and any other status yields an unexpected-response error still carrying the status, headers and readable body. If no complete response head was received (connection refused, reset, closed, malformed or timed out) the outcome is a communication error and never a response. Whatever the faults, no call panics and no failure is turned into a success or a success into a failure.",
  ["inputs", "schedules", "fault_sequences"],
  "every status code, body, operation kind and interface style, and every fault position from connection set-up to the end of the response",
  "Status routing of generated calls is not executed by any test that runs (only compared as text), and connection faults are never injected.",
  [CL, ME],
  [("status match in generated code", ME + ": method_sig_body, extract_responses"), ("error conversion", CL + ": impl From<reqwest::Error> for Error")],
  [], ["Ok/Err variant and its status"])

p("C05", "Status and headers reach the caller unchanged",
  "The status code and header fields reported with a success value, a documented error, a raw stream, an empty response, an upgraded connection or an unexpected response are exactly those of the server's final response to that call: every field, repeated fields in their order, values byte for byte. The content-length accessor returns the value of a valid Content-Length header (up to the 64-bit maximum) and nothing otherwise, and transforming the value or discarding an error's typed body leaves status and headers unchanged.",
  ["inputs", "schedules", "fault_sequences"],
  "every header multiset (repeated, empty, opaque bytes, large), interim 1xx responses before the final one, head split at any byte, faults in the body after the head",
  "No test reads response metadata.",
  [CL],
  [("metadata captured before the body is consumed", CL + ": from_response, stream, empty, upgrade, map, into_untyped, content_length")],
  [("headers, status", "copied from the response", CL + ": struct ResponseValue")],
  ["status(), headers(), content_length()"])

p("C06", "The server sees exactly the target, query and headers the caller asked for",
  "For every call, the server receives the operation's method and a target whose path is the operation's path template with each path argument in its own place: split at '/' and percent-decoded, each segment equals the caller's argument whatever characters it contains, and no argument can add, remove or alter path segments or reach the query. The query decodes to exactly the name/value pairs of the arguments (a scalar one pair under the parameter's name, an array one pair per element in order, an object or map one pair per field, an absent optional none), header arguments arrive under their documented names with their exact values (apart from surrounding blanks, which HTTP does not preserve), and each call carries the API version header. An argument that cannot be represented is rejected locally as an error, never sent mangled.",
  ["inputs", "schedules", "fault_sequences"],
  "every argument value and shape, every fragmentation of the request, connection reuse, server close races and concurrent calls on a shared client",
  "Ten unit tests sample a dozen values of the query encoder and one path value; none looks at what a server receives, or at reserved characters that the URL layer reinterprets.",
  [CL, TE, ME],
  [("percent-encoding set", CL + ": PATH_SET, encode_path"), ("query serializer", CL + ": QueryParam, QuerySerializer, QuerySeq"), ("URL and header assembly in generated code", TE + ": compile; " + ME + ": method_sig_body")],
  [], ["request line and headers in the server log"])

p("C07", "Request bodies arrive whole and byte-exact, or the call fails",
  "The body the server receives for a call is exactly the caller's: a JSON body decodes to the caller's value, a form body decodes to exactly its name/value pairs, and a text or binary body is byte-identical, with the documented content type, however slowly the server reads and however the writes are split. A streaming body that fails part-way, or a connection that fails while the body is being sent, never leaves the server with a request that looks complete; a body that cannot be serialized is rejected before anything is sent.",
  ["inputs", "schedules", "fault_sequences"],
  "every body value and size, chunking and failure point of a streaming body, socket buffer size and server reading pace, early responses, cut positions",
  "No test sends a request; back-pressure, partial writes and mid-body failures are schedules and faults.",
  [CL, ME],
  [("form encoding", CL + ": RequestBuilderExt::form_urlencoded"), ("body arms of generated code", ME + ": method_sig_body")],
  [], ["request body in the server log"])

p("C08", "A call sends at most one request, and none when it is rejected locally",
  "Each call causes at most one complete request to be accepted by the server, exactly one if the call returns a response, even when connections are reused, closed between requests, reset or timed out. A call rejected before sending (missing or unconvertible builder argument, invalid header value, unserializable query or body, failing pre-request hook) causes none, and reports an error that names the cause (an invalid-request error for an argument, a pre-hook error for a hook).",
  ["inputs", "schedules", "fault_sequences"],
  "every race between a keep-alive close and the next request, every fault in the exchange, every subset of missing or invalid arguments",
  "Requires a server that counts requests under connection faults; nothing in the test suite does.",
  [ME, CL],
  [("single execute per call", ME + ": method_sig_body"), ("deferred builder errors", ME + ": builder_struct"), ("local rejection", CL + ": From<InvalidHeaderValue>, form_urlencoded")],
  [], ["number of requests in the server log per call"])

p("C09", "A paginated stream yields every item once, in order, and surfaces errors",
  "The stream over a paginated operation yields exactly the items of the server's pages, in page order, each once, ending cleanly exactly when a page carries no next-page token (also when pages are empty). The first request carries the caller's arguments and no page token; every later request carries the token of the page before, the caller's limit, path, header and body arguments, and no other query argument. If fetching a page fails, the items before it are yielded, then that one error, and nothing more is requested; a page is not requested before its predecessor has been consumed.",
  ["inputs", "schedules", "fault_sequences"],
  "every division of a collection into pages, consumer pace, interleaving of several streams, and every fault at every page",
  "Pagination is only compared as generated text; the loop is never executed against a server, let alone one that fails between pages.",
  [ME],
  [("first page then unfold over tokens", ME + ": positional_method (stream_impl), builder_struct (stream_impl)"), ("pagination detection", ME + ": dropshot_pagination_data")],
  [("next_page", "token that seeds the next request", "generated stream state")],
  ["items of the stream", "requests in the server log"])

p("C10", "Hooks run once per request, in order, and a failing one stops the call",
  "With hooks configured, each request runs the pre-request hooks exactly once before any byte of it is sent and the post-request hooks exactly once after the outcome of sending is known and before the call returns, on success and on communication failure alike, with the client's own ancillary data. What an asynchronous pre-hook changes in the request is what the server receives. A failing pre-hook ends the call with a pre-hook error and no request; a failing post-hook ends it with a post-hook error.",
  ["schedules", "fault_sequences", "configurations"],
  "every interleaving of concurrent calls with suspended hooks, cancellation during a hook, every fault of the exchange, both interface styles, with and without ancillary data",
  "Hooks are never executed by a test that runs.",
  [ME, CL],
  [("hook calls around execute", ME + ": method_sig_body")],
  [], ["hook log, server log and outcome"])

p("C11", "Concurrent, cancelled and repeated calls do not disturb each other",
  "When many calls run concurrently on one client or its clones, each gets the outcome of its own exchange and never a value, body, status or header belonging to another. Dropping a call, a response stream or a paginated stream at any point affects no other call, and the client stays usable. Repeating a call from a cloned builder sends an equivalent request.",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving of concurrent calls over pooled connections, every cancellation point, any of the exchanges failing",
  "Tests are single-threaded, sequential and never issue a call.",
  [CL, ME, LI],
  [("client is shared by reference, state per call", LI + ": struct Client; " + ME + ": builder_struct")],
  [], ["outcome of each call against its own exchange"])

p("C12", "Every call finishes in bounded time and the client recovers after faults",
  "With the default client configuration, a call, including reading its typed body, ends within its 15 second limit, and a raw response stream yields its last item or error by then, even if the peer never answers, stalls in mid-body, trickles, or the connection cannot be established. The time the caller's own hooks take is not counted. Once faults stop (and connections they broke have been reported to the client), the next call on the same client to a healthy server succeeds.",
  ["schedules", "fault_sequences"],
  "every stall and blackhole position, every order of faults, slow consumers, process pauses",
  "Needs minutes of (simulated) waiting at every point of an exchange.",
  [LI, CL],
  [("default timeouts", LI + ": generate_tokens (Client::new)"), ("no own waiting", CL)],
  [], ["simulated time at which each call ends"])

p("C13", "Errors keep their cause, status and text through every conversion",
  "For an error produced by any fault or response, the status accessor reports the response's status for a documented-error and for an unexpected response, and nothing for a failure without one; converting the error to the untyped form keeps its kind, status, headers, payload bytes and cause; its text names its kind and content, the alternate text form adds each deeper cause once in order, and the source chain starts with the underlying failure where there is one.",
  ["inputs", "fault_sequences"],
  "every error kind produced by every fault, status, header set and payload",
  "Transport errors cannot be constructed in a unit test; they only come out of real faults.",
  [CL],
  [("conversions", CL + ": Error::status, into_untyped, Display, Debug, source")],
  [], ["accessors and text of each error before and after conversion"])

p("C14", "Generation is reproducible",
  "Generating a client from the same API description with the same settings always gives the same code, whatever the process's hash seeds, clock, environment, thread or earlier generations, and whatever the order in which order-free settings were given.",
  ["schedules", "configurations"],
  "every hash-seed assignment, clock value, setting insertion order and history of the process",
  "The golden-file tests compare one execution, with one hash seed, per document.",
  [LI, ME, "progenitor-impl/src/cli.rs", "progenitor-impl/src/httpmock.rs", "progenitor-impl/src/util.rs"],
  [("ordered collections; unordered ones only looked up", LI + ": Generator; " + ME), ("path rename map is only looked up", TE + ": compile")],
  [("settings.patch, settings.replace, opids", "hash maps and sets", LI)],
  ["generated token text"])

p("C15", "A stand-alone crate is complete on disk, or the command reports failure",
  "When the crate-generating command reports success, the output directory holds the complete manifest, client code and (if included) support code, whatever the directory held before and however short the individual writes were. If creating a directory or opening or writing a file fails, the command reports failure; running it again after any failure or crash gives the same files as an undisturbed run.",
  ["crash_points", "fault_sequences", "configurations"],
  "every failing or short file-system call and every crash point of a run, every earlier content of the output directory, each interface, tag and include-client setting",
  "The command's only test prints its help text.",
  ["cargo-progenitor/src/main.rs", "progenitor-client/src/lib.rs"],
  [("create, truncate, write all, flush, propagate errors", "cargo-progenitor/src/main.rs: save, main"), ("support code text", "progenitor-client/src/lib.rs: code")],
  [], ["exit status and directory content"])

p("C16", "A generated command line reports the outcome of its operation truthfully",
  "Running a generated command runs the configuration's own step for it once, issues the operation with exactly the arguments given and what that step changed (nothing at all if it refuses), and reports success exactly when the operation succeeded. For a paginated operation it starts the listing, reports each item once in order up to the given limit, then ends the listing with success, or with that error and a failure result if a page could not be fetched; it requests no page it does not need.",
  ["inputs", "schedules", "fault_sequences"],
  "every argument combination, page division, limit and fault position",
  "The generated command line is only compared as text.",
  ["progenitor-impl/src/cli.rs", ME],
  [("execute functions", "progenitor-impl/src/cli.rs: cli_method")],
  [], ["calls on the output configuration", "server log"])

p("C17", "Every way of packaging a client behaves the same",
  "The client obtained from the macro, from a build script with the support crate, and as a stand-alone crate with the support code included behave identically: the same calls under the same server behaviour and faults produce the same requests and the same outcomes, in both interface styles.",
  ["configurations", "schedules", "fault_sequences"],
  "every packaging and interface style, under the same seeded schedule and faults",
  "No test that runs executes more than the support crate's encoders.",
  ["progenitor-client/src/lib.rs", "progenitor-macro/src/lib.rs", LI, ME],
  [("included support source", "progenitor-client/src/lib.rs: code"), ("shared generator", "progenitor-macro/src/lib.rs: do_generate_api")],
  [], ["request log and outcomes per packaging"])

p("C18", "Path templates are parsed faithfully",
  "A path template is accepted exactly when it starts with a slash and its braces are balanced and enclose plain names; printing an accepted template gives it back with runs of slashes reduced to one, and its parameter names are those between the braces in order.",
  ["inputs"], "every template string",
  "Samples only.", [TE], [("state machine", TE + ": parse")])
p("C19", "Schema conversion keeps every constraint",
  "Converting a schema of the API description to the type generator's schema language keeps every constraint: a JSON value is valid against the one exactly if it is valid against the other.",
  ["inputs"], "every schema and every value",
  "Golden files for a few documents.", ["progenitor-impl/src/to_schema.rs"], [("Convert impls", "progenitor-impl/src/to_schema.rs")])
p("C20", "Generated names are valid and distinct",
  "Every operation, parameter and internal variable of a generated client has a valid Rust identifier, and internal variables never collide with parameters.",
  ["inputs"], "every name occurring in a document",
  "Samples only.", ["progenitor-impl/src/util.rs", ME], [("sanitize, unique_ident_from", "progenitor-impl/src/util.rs")])
p("C21", "Unsupported descriptions are refused, not mis-generated",
  "A description with a version other than 3.0.x, an operation without or with a repeated operation ID, or a referenced path item is refused with an error and no code is generated.",
  ["inputs"], "every document",
  "Samples only.", [LI], [("validate_openapi", LI)])
p("C22", "Mock helpers and the client agree",
  "The mock helper of an operation, configured with some argument values, matches every request the generated client sends for those values (also when it is sent again after a fault) and no request for other values or of other operations; an answer set up with a response helper reaches the caller of the client as that response, with that status and value, however it is delivered.",
  ["inputs", "schedules", "fault_sequences"],
  "every operation, argument value, response and delivery",
  "The helpers are only compared as text.", ["progenitor-impl/src/httpmock.rs", TE], [("when/then helpers", "progenitor-impl/src/httpmock.rs: httpmock_method")],
  [], ["request log", "call outcomes"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
