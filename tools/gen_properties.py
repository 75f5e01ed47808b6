#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The text lives here so that it can be edited readably."""
import json, os
S = "bsp-server/src/"
T = "bsp-types/src/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

NOTEST = "No existing test starts a transport, a connection or a thread; the 14 tests only (de)serialize single fixed messages in memory."
CODEC = "The existing tests (de)serialize about a dozen fixed literals; the statement quantifies over every method, member combination and value."

prop("P01", "Incoming messages reach the application once, in order, unaltered",
 "On a stdio or socket connection, the messages the application receives are exactly the messages the peer wrote, each once, in the order written and with the same content, up to and including the first exit notification. This holds however the byte stream is cut into reads and however the peer, the library's threads and the application are scheduled against each other. A message the peer has completely sent is delivered without waiting for the peer to send anything more.",
 ["schedules", "inputs"], "all interleavings of peer, reader, writer and application; all message sequences and all cuts of the byte stream into reads up to the stated bounds",
 NOTEST, [S+"transporter.rs", S+"message.rs", S+"lib.rs"],
 [("single reader thread handing over messages through a rendezvous channel", S+"transporter.rs:28"), ("frame reader", S+"message.rs")],
 ["Connection::receiver"])
prop("P02", "Accepted messages reach the peer once, in order, unaltered",
 "On a stdio or socket connection, the bytes the peer reads are exactly the frames of the messages whose send succeeded, each once, unaltered and never interleaved with one another. Messages sent one after another (by one thread, or by threads ordered by synchronisation) appear in that order. This holds under every schedule of sending threads, the library's threads and the peer, and every way the operating system splits the writes.",
 ["schedules", "inputs"], "all interleavings of one or two sending threads, the writer and a peer reading at its own pace; all short-write patterns up to the stated bounds",
 NOTEST, [S+"transporter.rs", S+"message.rs", S+"lib.rs"],
 [("single writer thread fed through a rendezvous channel", S+"transporter.rs:18"), ("whole frame written with write_all", S+"message.rs")],
 ["bytes on stdout or the socket"])
prop("P03", "Incoming frames are cut exactly as their headers say, or refused",
 "An incoming stream is a sequence of frames: header lines `Name: value` ending in CRLF, an empty line, then exactly as many bytes of UTF-8 JSON as the Content-Length header (its name in any letter case, among any other headers) announces. Every well-formed frame yields its message; a stream that ends between frames ends cleanly. Anything else - a line without CRLF or without `: `, a missing or unparsable length, a stream that ends inside a header or body, a body that is not a message - is reported as an error by joining the I/O threads after everything before it has been delivered, and never panics the library or allocates by the announced length alone.",
 ["inputs"], "every byte stream built from the token alphabet up to the stated length, on both transports, and every cut of it into reads",
 NOTEST+" The frame reader is not exercised by any test.", [S+"message.rs", S+"transporter.rs", S+"io_thread.rs"],
 [("header loop and bounded body read", S+"message.rs (read_msg_text)"), ("reader result carried by the join handle", S+"io_thread.rs")],
 ["Connection::receiver", "IoThreads::join"])
prop("P04", "Outgoing frames carry the exact byte length and a JSON-RPC 2.0 body",
 "Each message sent appears on the wire as `Content-Length: N`, CRLF, CRLF and N bytes, where N counts the bytes (not characters) of the body, and the body is one JSON object holding `jsonrpc` equal to \"2.0\" and exactly the message's own members. The complete frame is made available to the peer without anything further being sent, even through a buffered output and whatever partial writes the operating system accepts.",
 ["inputs", "fault_sequences"], "every message of the enumerated message space including multi-byte and escaped text; every short-write pattern and every interrupted write up to the stated bounds",
 "No test looks at a frame; the tests only see the JSON of single messages, all of it ASCII and without the jsonrpc member.", [S+"message.rs", S+"transporter.rs"],
 [("length of the serialized body, write_all, flush", S+"message.rs (Message::write)"), ("jsonrpc envelope", S+"message.rs (JsonRpc)")],
 ["bytes on stdout or the socket"])
prop("P05", "I/O failures surface as errors, never as panics, hangs or corrupt output",
 "Whichever read or write fails, and with whichever error, no thread of the library panics: the failed direction stops, the application's receives report disconnection (failed read) or its sends report an error once the direction has stopped (failed write), and joining the I/O threads returns that I/O error. Interrupted system calls are retried without any visible effect. What reached the peer before a failed write is always a prefix of the correct byte stream.",
 ["fault_sequences", "schedules"], "a fault at every read and every write call of every scenario, with every error kind of the alphabet, under all schedules of the scenario",
 NOTEST, [S+"transporter.rs", S+"message.rs", S+"io_thread.rs", S+"lib.rs"],
 [("errors returned from both threads", S+"transporter.rs"), ("join propagates the first error", S+"io_thread.rs")],
 ["IoThreads::join", "Connection::sender", "Connection::receiver"])
prop("P06", "Reading ends at exit, at end of stream, on error or when nobody listens",
 "After delivering an exit notification the library reads and delivers nothing more, even if further bytes are available or the peer keeps the stream open; the same holds after the end of the stream and after the first invalid frame. In each case the application's receiver reports disconnection once everything before has been received. If the application drops its connection, the reading side ends without error or panic no later than at the next incoming message.",
 ["schedules", "inputs"], "all interleavings of peer, reader and application; every position of exit, end of stream, error and drop in the message sequences up to the stated length",
 NOTEST, [S+"transporter.rs", S+"io_thread.rs"],
 [("reader loop and its break conditions", S+"transporter.rs:28")], ["Connection::receiver", "IoThreads::join"])
prop("P07", "Joining the I/O threads waits for all output and then returns",
 "When the application has dropped its connection and the incoming side has ended (exit, end of stream or error), joining the I/O threads returns, and by then every message whose send succeeded has been written and flushed completely - also when joining reports that reading failed. It returns success exactly when neither direction failed.",
 ["schedules", "fault_sequences"], "all interleavings of application, reader, writer and a peer that may read slowly; every ending of the incoming side",
 NOTEST, [S+"io_thread.rs", S+"transporter.rs"],
 [("join of both threads", S+"io_thread.rs (IoThreads::join)"), ("writer drains its channel until all senders are gone", S+"transporter.rs")],
 ["IoThreads::join", "bytes on stdout or the socket"])
prop("P08", "The two directions never block each other",
 "As long as the peer reads, the application's sends complete even while incoming messages pile up unreceived. As long as the application receives, incoming messages are delivered even while the peer does not read and a send of another thread is blocked. No schedule leads to a state where the library's threads wait for each other while the peer and the application are ready to proceed.",
 ["schedules"], "all interleavings of two application threads, reader, writer and peer with bounded stream buffers",
 NOTEST, [S+"transporter.rs"],
 [("one thread and one channel per direction, no shared lock", S+"transporter.rs")], ["Connection::sender", "Connection::receiver"])
prop("P09", "A send's outcome is the truth",
 "Whichever way a message is sent (blocking, non-blocking, with a timeout or a deadline, on any connection), a success means it will be delivered to the peer exactly once unless joining the I/O threads reports an error, and a failure hands the same message back and it is never delivered. The non-blocking send never waits; a timed send that fails for lack of time does so no earlier than its limit and, if nobody takes the message, does not wait beyond it.",
 ["schedules"], "all interleavings of sender, writer and peer, with the time limit expiring at every possible moment",
 NOTEST, [S+"lib.rs", S+"transporter.rs"],
 [("delegation to the channel", S+"lib.rs (send, try_send, send_timeout, send_deadline)")], ["return values of the send family", "messages seen by the peer"])
prop("P10", "An in-memory pair is two independent first-in-first-out pipes",
 "The two connections of an in-memory pair are connected crosswise: what one side sends is received by the other side only, in order, exactly once, without any send ever blocking. When one side is dropped, the other still receives what was sent before and then sees disconnection, and its sends fail handing the message back.",
 ["histories", "schedules"], "every sequence of operations on both ends up to the stated depth, and all interleavings of two threads using one end each",
 NOTEST, [S+"lib.rs"], [("two unbounded channels, ends swapped", S+"lib.rs (Connection::memory)")], ["Connection::memory"])
prop("P11", "Before initialization every request is refused, notifications are dropped",
 "While waiting for the initialize request, every other request is answered exactly once, in order of arrival, with an error response carrying the request's id and code -32002, and notifications other than exit are dropped without any reaction. An exit notification, a response or a disconnection ends the handshake with an error. Nothing else is ever sent, and the message that ended the wait is the last one taken.",
 ["histories"], "every history of incoming messages over the full message alphabet up to the stated depth, with the connection closed or open after it, in memory and over both transports",
 NOTEST, [S+"lib.rs", T+"initialize_params.rs", T+"server.rs"],
 [("loop of the first handshake phase", S+"lib.rs (initialize_start)")], ["Connection::initialize", "responses the peer reads"])
prop("P12", "The handshake answers initialize once and completes only on initialized",
 "The first initialize request is handed, unaltered, to the application's callback exactly once and is answered exactly once, with its own id and the callback's value as result. The handshake succeeds, returning the client's parameters, exactly if the next message is the initialized notification; any other message or a disconnection makes it fail. It takes no message beyond that one, and a closed connection at any point yields an error, never a panic.",
 ["histories", "fault_sequences"], "every history of incoming messages up to the stated depth after every prefix of the first phase; disconnection of either direction at every point",
 NOTEST, [S+"lib.rs"], [("initialize_start, callback, initialize_finish", S+"lib.rs (Connection::initialize)")], ["Connection::initialize", "responses the peer reads"])
prop("P13", "Shutdown is acknowledged once and then waits for exit, but not for ever",
 "Handling a request that is not shutdown returns false and neither sends nor receives anything. Handling shutdown sends exactly one success response with a null result and the request's id, and then returns true exactly if the next message, arriving within thirty seconds, is the exit notification; any other message, a disconnection or silence for thirty seconds is an error. It takes at most that one message.",
 ["histories", "schedules"], "every request kind, every next message of the alphabet, every arrival time around the limit (virtual clock), disconnection at every point",
 NOTEST, [S+"lib.rs"], [("response, timed receive, match on exit", S+"lib.rs (handle_shutdown)")], ["Connection::handle_shutdown", "responses the peer reads"])
prop("P14", "A message's kind follows from its method and id alone",
 "A JSON object with a method and a non-null id is a request, one with a method and no id a notification, one without a method a response; it is delivered as that kind or refused, never delivered as another kind. A request whose id and method are valid is never refused: if its params do not fit its method it is delivered as a custom request with the same id, method and params, so that it can be answered. Anything that is not an object, or whose id or method has an impossible type, or a known notification whose params do not fit, is refused.",
 ["inputs"], "every object over the envelope alphabet: each member absent or any of its values, including every known method with fitting and unfitting params",
 CODEC+" None of them decodes a response, a custom message or an invalid one.", [S+"message.rs", S+"request.rs", S+"notification.rs", S+"response.rs"],
 [("decision by members", S+"message.rs (Deserialize for Message)")], ["Deserialize for Message", "Connection::receiver"])
prop("P15", "Requests map one-to-one to their wire methods and keep id and params",
 "Each protocol request decodes from, and encodes to, its one method name with the same id and equivalent params; every other method name is kept verbatim, with its params, as a custom request. The method, id and params a request reports, and the request a typed conversion builds, agree with what is on the wire. Requests without params are accepted with params absent or null, and what the library writes it reads back as the same request.",
 ["inputs"], "every protocol method, near-miss and custom method names, every id of the id alphabet, params over the enumerated payload space, every conversion",
 CODEC, [S+"request.rs", S+"message.rs"],
 [("method table", S+"request.rs (Request::method)"), ("encoder and decoder tables", S+"request.rs")], ["Serialize/Deserialize for Request", "Request::{method,id,params}", "From conversions"])
prop("P16", "Notifications map one-to-one to their wire methods and keep their params",
 "Each protocol notification decodes from, and encodes to, its one method name with equivalent params (exit and initialized have none and accept any); every other method name is kept verbatim, with its params or null, as a custom notification. The method a notification reports, and the notification a conversion builds, agree with what is on the wire, and what the library writes it reads back as the same notification.",
 ["inputs"], "every protocol method, near-miss and custom names, params over the enumerated payload space, every conversion",
 CODEC, [S+"notification.rs", S+"message.rs"],
 [("method table", S+"notification.rs (Notification::method)"), ("encoder and decoder tables", S+"notification.rs")], ["Serialize/Deserialize for Notification", "Notification::method", "From conversions"])
prop("P17", "A response carries its request's id and either a result or an error",
 "A success response holds the given id and value as result (null included) and no error; an error response holds the id, the message and the JSON-RPC/LSP code its constructor is named after, and no result. Converting a typed result with an id into a message yields the success response for that result. On the wire and back a response keeps its id, its result (a null result stays a result) and its error with code, message and data.",
 ["inputs"], "every constructor and conversion, every id, result and error of the alphabets, every presence combination of the members",
 "No test builds, writes or reads a response.", [S+"response.rs", S+"error.rs"],
 [("constructors", S+"response.rs"), ("code table", S+"error.rs (ErrorCode)")], ["Response constructors", "Serialize/Deserialize for Response"])
prop("P18", "Request ids are preserved exactly and never confused",
 "A request id, integer or string, comes out of every encode, decode, reply and copy with the same type and value over its whole range; an integer and a string that look alike stay different. Equality, hashing and ordering agree with each other and with that identity, and the textual form tells integers from strings. Anything that is not a 32-bit integer or a string is refused as an id.",
 ["inputs"], "every id of the alphabet (boundary integers, empty, numeric-looking, quoted, multi-byte strings, non-ids) in every message kind, and all pairs and triples of ids for the relations",
 "The tests use the single id 3.", [S+"request/id.rs", S+"request.rs", S+"response.rs"],
 [("untagged integer-or-string representation", S+"request/id.rs")], ["RequestId", "ids in every message"])
prop("P19", "Decoding depends only on the members' values",
 "The order of members, additional unknown members anywhere in the envelope, insignificant white space, the escaping of strings and the entry point (text, bytes, reader, parsed value) do not change what a message, request, notification or response decodes to, nor whether it is accepted.",
 ["inputs"], "every permutation of members, every insertion position of unknown members, every white-space and escaping variant and every decoding entry point, for every message of the alphabet",
 CODEC, [S+"request.rs", S+"notification.rs", S+"message.rs", S+"response.rs"],
 [("member-name visitors that skip unknown members", S+"request.rs, "+S+"notification.rs")], ["Deserialize for Message, Request, Notification, Response"])
prop("P20", "Request and notification payloads survive the wire unchanged",
 "For every payload a client or server can put in a request or notification, decoding accepts it exactly if its required members are present and all members the protocol names have the right types, and encoding it again yields the same members with the same values. An optional member that is absent, null or at its default may be omitted or spelled out; unknown members are ignored. Member names are the protocol's camel-case names.",
 ["inputs"], "for every params type, every combination of member presence and of values from the member's alphabet (valid, boundary, wrong type, null) up to the stated deviations",
 CODEC, [T+"initialize_params.rs", T+"bt_compile.rs", T+"bt_run.rs", T+"bt_test.rs", T+"debug_session_start.rs", T+"task/", T+"log_message.rs", T+"show_message.rs", T+"publish_diagnostics.rs", T+"bt_did_change.rs"],
 [("serde attributes of the params types", T)], ["Serialize/Deserialize of the params types"])
prop("P21", "Result payloads survive the wire unchanged",
 "For every result a server can answer with (initialize result with capabilities, build targets, sources, resources, dependency modules and sources, compile, test, run, clean-cache, debug results), decoding accepts it exactly if its required members are present and all members the protocol names have the right types, and encoding yields the same members with the same values under the protocol's camel-case names. An optional member that is absent or null may be omitted or spelled out; unknown members are ignored.",
 ["inputs"], "for every result type, every combination of member presence and of values from the member's alphabet up to the stated deviations",
 "No test touches a result type.", [T+"initialize_result.rs", T+"server_capabilities.rs", T+"workspace_build_targets.rs", T+"bt_capabilities.rs", T+"bt_sources.rs", T+"bt_resources.rs", T+"bt_dependency_modules.rs", T+"bt_dependency_sources.rs", T+"bt_compile.rs", T+"bt_test.rs", T+"bt_run.rs", T+"bt_clean_cache.rs"],
 [("serde attributes of the result types", T)], ["Serialize/Deserialize of the result types"])
prop("P22", "Constructors, setters and getters agree with the wire members they name",
 "A value built by a constructor and changed by any sequence of setters encodes with each member equal to the last value given for it and every other member untouched; each getter returns the member it is named after, before and after decoding. The root path of an initialize request is the file-system path its root URI denotes.",
 ["histories", "inputs"], "for every type with accessors, every constructor and every sequence of setter calls up to the stated depth with values distinct per member; every path over the path alphabet",
 "The tests call two constructors and two setters once each.", [T],
 [("constructors and accessors", T), ("root path", T+"initialize_params.rs (root_path)")], ["public API of bsp-types"])
prop("P23", "Enumerated kinds use the protocol's codes, unknown kinds are not misread",
 "Task status, message type, target event kind and source kind travel as the protocol's numbers, task data kinds and target tags as the protocol's strings; each known code decodes to its one kind and encodes back to itself. An unknown number is refused; an unknown string is kept verbatim as a custom kind, and a task data kind that is absent or null stays unset.",
 ["inputs"], "every kind; every number of the code range and beyond; every protocol string and every near-miss string of the alphabet",
 "No test decodes or encodes any of these kinds.", [T+"task/status.rs", T+"task/kind.rs", T+"message_type.rs", T+"bt_did_change.rs", T+"bt_sources.rs", T+"bt_tag.rs"],
 [("numeric representations", T+"task/status.rs"), ("string tables", T+"task/kind.rs, "+T+"bt_tag.rs")], ["Serialize/Deserialize of the kinds"])
prop("P24", "On stdio, standard output carries nothing but frames",
 "Whatever messages arrive, whatever fails and however the threads end, everything the library writes to standard output is a prefix of the concatenated frames of the messages sent. Diagnostics never go there.",
 ["schedules", "fault_sequences", "inputs"], "all schedules, faults and input streams of the stdio scenarios, including failing and panicking I/O threads",
 NOTEST, [S+"transporter.rs", S+"io_thread.rs", S+"lib.rs"], [("only the writer thread holds standard output", S+"transporter.rs"), ("diagnostics on standard error", S+"io_thread.rs")], ["standard output"])
prop("P25", "A documented server loop answers every request of a session exactly once",
 "A server written like the documented example (handshake, answer each request, hand shutdown over, stop, join) and any client that follows the protocol always complete: every request of the client gets exactly one response with its id, in order, and after exit the server's threads end successfully. This holds for any number of pipelined requests, notifications and responses in between, under every schedule, on every kind of connection.",
 ["schedules", "histories"], "all interleavings of client, reader, server loop and writer for every client script up to the stated length, waiting or pipelining",
 NOTEST, [S+"lib.rs", S+"transporter.rs", S+"message.rs", "README.md"], [("handshake, dispatch loop, shutdown, join", "README.md, "+S+"lib.rs")], ["whole connection"])
prop("P26", "Connecting and listening give one connection per stream, or an error",
 "Connecting to or listening on an address yields a connection bound to exactly the one stream established, with the two roles behaving alike; both directions work at once. If the stream cannot be established the call returns the operating system's error and starts no thread; it never panics.",
 ["configurations", "fault_sequences"], "both roles crossed with every failure point of establishing the stream and every message exchange of the alphabet",
 NOTEST, [S+"lib.rs", S+"transporter.rs"], [("connect and listen over the socket transport", S+"lib.rs (connect, listen)")], ["Connection::connect", "Connection::listen"])
prop("P27", "Logging only observes",
 "Whether anybody listens to what the library logs, and at which level, changes nothing else: with every span and event taken and formatted, the same messages are received and sent in the same order, the same calls return the same results, the same threads end, and nothing panics or blocks. Every message, request, notification, response, request id and error can be formatted, plainly or alternately and with any width, into a sink that takes any number of bytes: formatting ends, reports the sink's refusal, is the same each time and leaves the message as it was.",
 ["schedules", "inputs", "configurations", "fault_sequences"], "the schedules, faults and inputs of the other properties' scenarios (a selection stated in the evidence), each with a subscriber that formats everything; every message of the wide range crossed with every way of formatting and every short sink",
 "No test installs a subscriber, so no logging statement's arguments are ever evaluated.", [S+"message.rs", S+"lib.rs", S+"request.rs", S+"request/id.rs", S+"error.rs"],
 [("logging of every message read and written", S+"message.rs (Message::read, Message::write)"), ("instrumented handshake", S+"lib.rs (initialize, initialize_start, initialize_finish, handle_shutdown)"), ("hand-written Debug and Display", S+"request.rs, "+S+"request/id.rs, "+S+"error.rs")], ["whole connection", "Debug and Display of messages"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
