#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand after editing the list below)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = list(observe)
    d["anchors"]["hook_needed"] = hook
    P.append(d)

RX = ["src/receive.rs", "src/client.rs", "src/server.rs", "src/client_receive.rs", "src/server_receive.rs"]
p("C01", "How received bytes are cut into pieces never changes what is reported",
  "A client or a server that receives the same bytes in the same protocol situation reports the same messages and errors, with the same contents and the same discarded bytes, no matter how the bytes were split into pieces on arrival. No byte is lost, repeated or attributed to a different message because of where a split falls, including inside line endings, literal headers and literal bodies.",
  ["inputs", "schedules"], "every byte stream, every way of cutting it into arrival chunks, in the greeting, response, command, authentication-data and IDLE phases, strict and relaxed line endings",
  "The in-repo tests deliver whole lines or whole messages over loopback; the split points that matter (between CR and LF, inside a literal, at the size limit, right at a phase change) are picked by the kernel and practically never occur.",
  RX, [("incremental search for the line end that remembers what was already scanned", "src/receive.rs ReceiveState::progress_line, find_crlf"), ("literal counting", "src/receive.rs ReceiveState::progress_literal"), ("carrying unread bytes over a phase change", "src/receive.rs ReceiveState::change_codec")],
  [("read buffer / seen bytes / next fragment", "what has arrived, how much of it was scanned, what is expected next", "src/receive.rs ReceiveState")],
  ["events and errors returned by the client's and server's next()"])
p("C02", "A message that is refused costs exactly its own bytes",
  "When a message is malformed, ends in a bare line feed where that is refused, or exceeds a limit, the receiver reports exactly one error that carries exactly the bytes of that message seen so far, and drops exactly those. Everything received before and after it is reported as if the bad message had not been there.",
  ["inputs", "histories"], "every placement of bad messages (garbage lines, wrong-phase lines, bad line ends, oversized lines and literals) in histories of good ones, in every phase of client and server",
  "Tests send at most one bad message per connection and never check the reported bytes together with resynchronisation on pipelined input.",
  RX, [("discarding the scanned part of the buffer and restarting at a message boundary", "src/receive.rs ReceiveState::discard_message, finish_message"), ("mapping decode failures to errors", "src/client.rs progress_receive, src/server.rs progress_receive")],
  observe=["Error values (discarded bytes) and the events after them"])
p("C03", "Commands go out exactly once, in order, unchanged",
  "The bytes a client sends are the encodings of the enqueued commands, whole, unchanged, once each and in the order they were enqueued, whatever arrives from the server in the meantime; only a command that the server rejected at a literal, or an authentication or IDLE exchange that ended, stops short. Each command is reported sent, with its own handle and content, exactly once and only after its last byte was handed out.",
  ["inputs", "schedules", "histories"], "every sequence of enqueued commands (with and without literals, AUTHENTICATE, IDLE), every interleaving of enqueueing with server responses and driver I/O",
  "The tests send one or two commands and wait for the answer each time; queues, unsolicited data between literal fragments and enqueueing while a send is in progress are not reached.",
  ["src/client_send.rs", "src/client.rs"], [("FIFO queue and a single current message", "src/client_send.rs ClientSendState::next"), ("fragment pushing", "src/client_send.rs CommandState::push_to_buffer, finish_sending")],
  [("current message and its activity", "how far the command being sent has got", "src/client_send.rs CurrentMessage")],
  ["Io::Output bytes of the client, CommandSent events"])
p("C04", "Responses go out once, in order, and are all delivered in wire order",
  "The server sends its greeting first and then every enqueued response once, whole, unchanged and in the order of enqueueing, and reports each one sent with its own handle only after its bytes were handed out; the responses it creates itself never split, drop or reorder them. A client reports every response that arrives exactly once, with unchanged content and in the order it was sent, in every protocol state, except the go-ahead it consumes for its own literal.",
  ["inputs", "schedules", "histories"], "every sequence of enqueued data, status and continuation responses interleaved with incoming commands and literals; every response sequence arriving at a client in any state",
  "Tests enqueue one response per command and compare single exchanges.",
  ["src/server_send.rs", "src/server.rs", "src/client.rs"], [("FIFO queue with a current message", "src/server_send.rs ServerSendState::next"), ("dispatch of decoded responses to events", "src/client.rs Client::progress_receive")],
  observe=["Io::Output bytes of the server, ResponseSent events, client events"])
p("C05", "A synchronizing literal waits for its go-ahead; only a tagged BAD cancels it",
  "After announcing a synchronizing literal a client sends nothing further until the server's continuation request for it has arrived, then continues exactly there; a non-synchronizing literal never waits. While it waits, a BAD status with that command's tag rejects the command (reported once, with the status, and nothing more of it is sent), while other statuses, data and other tags leave it waiting.",
  ["inputs", "schedules", "histories"], "every command with any number and mix of literals, every server reaction (go-ahead, BAD/OK/NO with this or another tag, data, continuation requests at other times) at every point",
  "Two fixed literal exchanges are tested; rejections after the n-th literal, wrong tags and unsolicited responses in between are not.",
  ["src/client_send.rs", "src/client.rs"], [("limbo literal", "src/client_send.rs CommandActivity::WaitingForLiteralAccepted, literal_continue"), ("termination by status", "src/client_send.rs ClientSendState::maybe_terminate")],
  observe=["Io::Output bytes against what the server has answered so far, CommandRejected events"])
p("C06", "The server enforces its literal and command size limits exactly",
  "A literal announced larger than the configured maximum is refused without waiting for it: a synchronizing one is answered with BAD carrying the command's tag and the configured text, a non-synchronizing one gets no answer, and either is reported as one error. A literal up to the maximum is accepted (with the configured go-ahead text if synchronizing), and a command that reaches the maximum command size without being complete is reported as one too-long error; no message beyond these limits is ever buffered without bound or delivered. Default options mean 25 MiB per literal and 64 KiB more per command.",
  ["inputs", "configurations", "histories"], "every limit configuration and every literal/line size around the limits, alone and inside pipelined histories, for every arrival pattern",
  "One oversized literal is tested; sizes at the exact limit, several literals adding up, and what happens afterwards are not.",
  ["src/server.rs", "src/receive.rs"], [("literal size check", "src/server.rs Server::progress_receive"), ("command size cap", "src/receive.rs ReceiveState::max_readable_bytes, progress_line, progress_literal")],
  observe=["server events, errors and output"])
p("C07", "AUTHENTICATE proceeds in lockstep on both sides",
  "A client sends authentication data only as the answer to a continuation request of the running exchange, each piece once, and hands the data back unchanged when it is not being asked for; the exchange ends exactly when a tagged status for it arrives, and only then does the next command start. A server reads every line after AUTHENTICATE as authentication data until its user finishes the exchange, and refuses (returning the argument) to continue or finish an exchange that is not running.",
  ["inputs", "schedules", "histories"], "every number of rounds, cancellation, OK/NO/BAD at every point, unsolicited responses in between, API calls at wrong times, pipelined bytes behind the exchange",
  "Tests run the happy path; calls at the wrong time and statuses arriving between a continuation request and its answer are not reached.",
  ["src/client_send.rs", "src/client.rs", "src/server.rs", "src/server_receive.rs"], [("authenticate activity states", "src/client_send.rs AuthenticateActivity, authenticate_continue, set_authenticate_data"), ("server phase change", "src/server.rs authenticate_continue, authenticate_finish")],
  observe=["client/server output and events, return values of the authentication calls"])
p("C08", "IDLE proceeds in lockstep on both sides",
  "A client sends DONE only after the server accepted IDLE and its user asked for it, exactly once, sends nothing else in between, and treats a tagged status for the IDLE command before that as its end; ending an IDLE that is not running is refused. A server that received IDLE delivers nothing further until its user accepts or rejects it, then expects exactly DONE (if accepted) or normal commands (if rejected), keeping bytes that arrived early.",
  ["inputs", "schedules", "histories"], "every ordering of accept, reject, DONE, unsolicited responses, queued commands and early bytes on both sides",
  "Tests run one accepted and one rejected IDLE; early bytes, repeated calls and late statuses are not reached.",
  ["src/client_send.rs", "src/client.rs", "src/server.rs", "src/server_receive.rs"], [("idle activity states", "src/client_send.rs IdleActivity, idle_continue, set_idle_done"), ("server idle phases", "src/server.rs idle_accept, idle_reject; src/server_receive.rs")],
  observe=["client/server output and events, return values of the idle calls"])
p("C09", "Input is asked for only when nothing can be sent",
  "Whenever a client or server tells its driver that it needs more input, it has handed out everything it is able to send at that moment: no queued greeting, response or command that could start, and no reply it created itself, is still waiting, and no complete received message is left unreported. Asking again without new input or new API calls gives the same answer.",
  ["schedules", "histories"], "every history of enqueued messages, received bytes and API calls",
  "An overlooked message only delays until the peer happens to send something, so tests that always get further input never notice; it takes a peer that waits for the missing message.",
  ["src/server.rs", "src/client.rs", "src/server_send.rs", "src/client_send.rs", "src/lib.rs"], [("send before receive in the progress loop", "src/server.rs Server::next, progress_send; src/client.rs Client::next, progress_send")],
  observe=["the NeedMoreInput interrupt of both state machines"])
p("C10", "Message handles are unique",
  "Every handle given out for an enqueued command or response differs, under comparison and hashing and in how it prints, from every other handle of its kind ever given out in the process, by the same or any other client or server, on any thread; copies of a handle stay equal to it. An event carries the handle of exactly the message it is about.",
  ["schedules", "histories"], "every interleaving of threads creating instances and enqueueing messages; histories with very many instances and very many messages",
  "The unit test makes 100x100 handles on one thread.",
  ["src/handle.rs", "src/client.rs", "src/server.rs"], [("process-wide generator counter and per-instance counter", "src/handle.rs HandleGeneratorGenerator::generate, HandleGenerator::generate")],
  [("generator id, handle id", "identity of a handle", "src/handle.rs RawHandle")],
  ["handles returned by enqueue calls and carried by events"])
p("C11", "A stream carries bytes faithfully under partial reads and writes",
  "Over a connection that delivers and accepts bytes in arbitrary portions, the peer receives exactly the bytes the state machine handed out, once, in order, and the state machine receives exactly the bytes the peer sent, once, in order. After a successful flush everything handed out before has been passed to the transport.",
  ["schedules", "fault_sequences", "inputs"], "every pattern of short reads, short writes, not-ready results, stalls and buffer sizes on the transport, plain and TLS",
  "Loopback sockets accept and deliver everything at once in the tests.",
  ["src/stream.rs"], [("simultaneous read/write with persistent buffers", "src/stream.rs Stream::next, read, write"), ("flush", "src/stream.rs Stream::flush")],
  [("read and write buffers", "bytes in flight between state machine and transport", "src/stream.rs Stream")],
  ["bytes at the two ends of the simulated transport"])
p("C12", "Cancelling a pending operation loses and repeats nothing",
  "Dropping a pending call that waits for the next event (or a pending flush) at any await point and calling again later neither loses, repeats nor reorders bytes or events in either direction.",
  ["schedules", "fault_sequences"], "every await point at which the future can be dropped, every partial-I/O pattern, plain and TLS, any number of times",
  "The proxy cancels one of two streams on every iteration, but tests never force a cancellation in the middle of a partial read or write.",
  ["src/stream.rs"], [("all state lives in the stream, none in the future", "src/stream.rs Stream::next, write")],
  observe=["events of both ends and bytes on the simulated transport"])
p("C13", "TLS connections behave like plain ones",
  "Over TLS the same messages produce the same events in the same order as over a plain connection: data that arrives together with the end of the handshake, messages of any size, many records at once and partial records are all delivered without further input from the peer, and everything handed out is sent. An orderly TLS close is reported as end of stream after all data before it was delivered.",
  ["inputs", "schedules", "fault_sequences"], "every message size, record split, handshake timing, and close, on both the TLS client and the TLS server side",
  "No in-repo test uses TLS.",
  ["src/stream.rs"], [("decrypt/encrypt loops around the TLS session", "src/stream.rs decrypt, encrypt")],
  observe=["events at both ends of a TLS connection"])
p("C14", "Connection loss and I/O errors are reported, never spun on",
  "When the peer closes, resets, stops in the middle of a message, or a read or write fails, the pending operation returns an error in finite time instead of hanging, spinning or panicking, and every message that had completely arrived before an orderly end is delivered first. No message is ever fabricated from a truncated one.",
  ["fault_sequences", "crash_points"], "every byte position at which the connection can end or fail in either direction, plain and TLS (with and without orderly TLS close)",
  "Tests never close or break a connection in the middle.",
  ["src/stream.rs"], [("zero-length read/write means closed", "src/stream.rs read, write"), ("TLS session errors", "src/stream.rs decrypt")],
  observe=["result of the stream's next() and events before it"])
p("C15", "Both sides sending in bulk at once never deadlocks",
  "When both ends of a connection have more to send than the transport buffers, and both keep driving their streams, everything is eventually exchanged in both directions.",
  ["schedules", "inputs"], "every transport buffer size and message volume, every scheduling of the two ends, plain and TLS",
  "Test messages always fit in socket buffers.",
  ["src/stream.rs"], [("simultaneous read and write", "src/stream.rs Stream::next (select)")],
  observe=["completion of both transfers in the simulation"])
p("C16", "No input and no call order panics, loops or wedges the state machines",
  "Whatever bytes arrive and in whatever order the public operations are called, a client or server neither panics nor loops without handing control back, and afterwards still processes a subsequent well-formed exchange that is legal in its state.",
  ["inputs", "histories"], "every byte stream (valid, mutated, random) and every sequence of API calls on both sides, strict and relaxed, small and large limits",
  "Tests follow the protocol.",
  ["src/client.rs", "src/server.rs", "src/client_send.rs", "src/receive.rs", "src/server_receive.rs"], [("state taken out and put back on every path", "src/client_send.rs, src/server_receive.rs change_state")],
  observe=["panics, unbounded loops, results of a probe exchange at the end"])
p("C17", "The proxy forwards every message once, in order, unchanged",
  "Every complete command from a client reaches the server it is configured for exactly once, in order and with unchanged meaning, and every response, greeting and continuation from the server reaches that client likewise, including AUTHENTICATE and IDLE exchanges and commands with literals (which the proxy itself acknowledges to the client). The only changes are the documented ones: capabilities it cannot support are removed and literal handling is its own.",
  ["inputs", "schedules", "fault_sequences", "configurations"], "every command and response history, every interleaving of the two directions and partial I/O, plain and TLS on either side",
  "The proxy has no tests of its conversation at all.",
  ["proxy/src/proxy.rs", "proxy/src/main.rs"], [("event forwarding", "proxy/src/proxy.rs start_conversation, handle_client_event, handle_server_event")],
  observe=["bytes seen by the simulated client and server around the proxy"])
p("C18", "The proxy never advertises a capability it cannot carry",
  "In everything the proxy sends to a client, wherever capabilities can appear (greeting, capability data, response codes of every kind of status and continuation, in every protocol phase), only capabilities it supports occur, and every supported one the server announced is kept in order; when none remains it announces plain IMAP4rev1. Everything else about those messages is unchanged.",
  ["inputs", "histories"], "every capability list in every kind of response at every point of a session, including during AUTHENTICATE and IDLE",
  "There is no test of the filter, and the places a capability code can occur depend on the session state.",
  ["proxy/src/util.rs", "proxy/src/proxy.rs"], [("capability filters", "proxy/src/util.rs filter_capabilities*"), ("calls to the filters per event", "proxy/src/proxy.rs handle_server_event, start_conversation")],
  observe=["bytes the simulated client receives"])
p("C19", "One proxied connection or service never affects another",
  "Whatever a client or server does on its own connection (garbage, silence, stalling in the TLS handshake, reset, refusing the connection), and whichever service fails to start or connection fails to be accepted, every other connection and service of the proxy keeps being accepted and forwarded, and messages never cross between connections.",
  ["schedules", "fault_sequences", "configurations"], "every misbehaviour of a peer at every point, next to other active connections and services",
  "Needs several concurrent connections with faults in some of them.",
  ["proxy/src/main.rs", "proxy/src/proxy.rs"], [("a task per service and per client", "proxy/src/main.rs main, handle_service")],
  observe=["service of the well-behaved connections"])
p("C20", "The proxy listens, connects and encrypts exactly as configured",
  "For every configuration file the proxy listens on exactly the configured addresses and connects each client to exactly that service's server, with the configured encryption on each side (ports default to 143 without and 993 with TLS), presents the configured certificate, and completes a TLS connection only to a server whose certificate is trusted and valid for the configured host; where the peer names application protocols (ALPN), the connection is for `imap` or does not come about. The startup output names each service with its addresses and encryption, and a file that cannot be read or is not a valid configuration makes startup fail with an error instead of running with anything else; a configuration that is written out reads back the same.",
  ["configurations", "fault_sequences"], "every combination of services, encryption, hosts, ports given or omitted, file errors, certificate and key files, untrusted or mismatching server certificates, application protocols named by the peers",
  "One fixed example file is parsed; defaults, error paths and what is actually done with the values are untested.",
  ["proxy/src/config.rs", "proxy/src/proxy.rs", "proxy/src/main.rs", "proxy/src/util.rs"], [("configuration parsing and defaults", "proxy/src/config.rs"), ("binding, connecting, TLS set-up", "proxy/src/proxy.rs bind, accept_client, connect_to_server"), ("certificate and key loading", "proxy/src/util.rs")],
  observe=["bind/connect calls and handshakes on the simulated network, standard output, exit result"])
p("C21", "Generated command tags are unique and valid",
  "Every generated tag is a valid IMAP tag and differs from every other tag generated in the process, by the same or another generator, on any thread, in debug and release builds, even if the random part repeats.",
  ["schedules", "histories"], "every interleaving of threads creating generators and taking tags, long histories, adversarial random values",
  "The unit test races real threads without controlling the interleaving, five tags each.",
  ["tag-generator/src/lib.rs"], [("process-wide counter plus per-generator counter", "tag-generator/src/lib.rs TagGenerator::new, generate")],
  observe=["generated tags"])
p("C22", "Server responses sent before the server closes still reach the client",
  "Every complete response that arrived at the proxy from the server before the server closed its connection (for example BYE) is still delivered to a client that keeps reading, before the proxy closes the client's connection. When one side ends its connection the proxy ends the other side's as well.",
  ["schedules", "fault_sequences", "crash_points"], "every timing of the server's close relative to the client's reading speed and to traffic in the other direction",
  "The loss depends on timing between two sockets.",
  ["proxy/src/proxy.rs"], [("end of the conversation loop", "proxy/src/proxy.rs start_conversation")],
  observe=["bytes the simulated client receives until end of stream"])
p("C23", "A client stays silent until it has received the greeting",
  "Before a valid greeting has been received, a client hands out no bytes at all, whatever has been enqueued and whatever else (malformed greetings, other responses) has arrived; afterwards everything enqueued is sent.",
  ["inputs", "schedules", "histories"], "every byte stream before the greeting, every enqueueing and cutting",
  "Tests always greet first.",
  ["src/client.rs", "src/client_receive.rs"], [("send guard on the greeting phase", "src/client.rs Client::progress_send")],
  observe=["Io::Output of the client"])
p("C24", "A bare line feed ends a message only in relaxed mode",
  "With default options, a line that ends in a line feed not preceded by a carriage return is reported as an error carrying that message's bytes and never as a message; in relaxed mode both line ends are accepted with equal results. Line feeds inside literals are data in both modes, for every phase and across phase changes.",
  ["inputs", "configurations"], "every placement of CR and LF in lines, literal headers, after literals and inside literals, every cutting, both modes, both sides",
  "Tests use one bare-LF example for each side.",
  ["src/receive.rs", "src/client.rs", "src/server.rs"], [("line end detection", "src/receive.rs find_crlf, progress_line")],
  observe=["events and errors of client and server"])
p("C25", "A literal the server refuses becomes exactly one BAD for that command",
  "When the server rejects a command forwarded by the proxy at one of its literals, the client gets exactly one tagged BAD for that command: with the server's text if it was an alert, otherwise with the proxy's own text and no misleading code. Nothing more of that command is sent to the server and later commands are forwarded normally.",
  ["schedules", "histories", "inputs"], "every literal position, rejection status, and pipelining behind it",
  "There is no test of the proxy conversation.",
  ["proxy/src/proxy.rs", "src/client_send.rs"], [("rejection handling", "proxy/src/proxy.rs handle_server_event (CommandRejected)")],
  observe=["bytes at the simulated client and server"])
p("C26", "Diagnostics of the library never show credentials or refused bytes",
  "The bytes of a refused message that an error carries, passwords and SASL data never appear when errors, their sources, events or returned values are printed with Display or Debug, and never in what the library logs or prints, in any encoding; only through explicit declassification. Raw wire traffic is traced only in builds with debug assertions.",
  ["inputs", "histories", "configurations"], "every command and exchange that carries a secret, every kind of refused message, in every phase of client and server, with full logging, debug and release builds",
  "Tests compare events and errors by value and never look at their printed forms or at the log.",
  ["src/client.rs", "src/server.rs", "src/types.rs", "src/stream.rs"], [("secrets wrapped in types that redact themselves", "src/client.rs Error, src/server.rs Error, src/types.rs CommandAuthenticate"), ("raw traces only under debug_assertions", "src/stream.rs read, write")],
  observe=["Display and Debug of events and errors, log records, standard output and error"])
p("C27", "The proxy's log and output never show credentials, keys or refused bytes",
  "Whatever the log level, the proxy's log, its output, its panic messages and its exit error never contain passwords or SASL data that clients send, the bytes of messages it discards, or its private keys, in any encoding.",
  ["inputs", "schedules", "fault_sequences"], "every session with secrets, well-formed and malformed, every failure of handshakes, connections, configuration and identity files, at the most verbose log level",
  "There is no test that runs the proxy.",
  ["proxy/src/proxy.rs", "proxy/src/main.rs", "proxy/src/util.rs"], [("logging of commands, exchanges and discarded messages", "proxy/src/proxy.rs handle_client_event, handle_server_event"), ("errors about identities", "proxy/src/util.rs IdentityError")],
  observe=["log records, standard output and error, panics, result of main"])
p("C28", "Tags of release builds cannot be guessed, tags of debug builds are reproducible",
  "A release build ends every tag in a random part, at least eight letters and digits taken from the random number generator for that tag, so that somebody who knows any other tags cannot guess it. In both builds instance and counter in front of it are readable numbers, and a debug build uses no randomness, so the same program gets the same tags in every process.",
  ["inputs", "schedules", "histories"], "every history of generators and tags, on any threads, across restarts of the process",
  "Tests are built with debug assertions and never see the random part.",
  ["tag-generator/src/lib.rs"], [("random token in release builds", "tag-generator/src/lib.rs TagGenerator::generate")],
  observe=["generated tags, use of the random number generator"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
for d in P:
    assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
    n = d["statement"].count(". ") + 1
    assert n <= 3, (d["id"], n)
open(out, "w").write("".join(json.dumps(d, ensure_ascii=False) + "\n" for d in P))
print(len(P), "properties")
