#!/usr/bin/env python3
# Source of properties.jsonl and MANIFEST.json.   props.py [write|budget ID TIER]
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, text, why, files, mech, observe, state=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                             mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))

NOTEST = "The existing tests never move a byte over a connection: "
PROPS = [
 P("S01", "TCP byte streams arrive intact with true byte counts",
   "Whatever the segmentation, delays, interrupted system calls, small buffers and timeouts, the bytes received on a TCP connection are a prefix of the bytes the other side was told were sent, each once and in order, and all of them when the connection stays healthy. "
   "A send that reports success has sent everything, and one that is interrupted reports exactly how much was sent, so that resuming from there neither loses nor repeats a byte. "
   "A receive reports exactly the number of bytes it stored, never stores beyond the buffer it was given, and a receive of a whole buffer succeeds only when it is completely filled.",
   ["schedules", "fault_sequences", "inputs"], "all interleavings of both directions of a connection, all segmentations, buffer sizes, EINTR/EAGAIN/short transfer sequences, resets and timeouts",
   NOTEST + "they check listen/accept return codes only. The quantifier is over partial transfers and interruptions, which a loopback test cannot choose.",
   ["src/TcpSocket.cpp", "src/Socket.cpp"],
   [("resume loop around ::send with the caller's running count", "src/TcpSocket.cpp send_raw"), ("EINTR retry and status mapping of ::recv", "src/TcpSocket.cpp receive_raw"), ("accumulating whole-buffer receive", "src/Socket.cpp receive_all")],
   ["send_raw, receive_raw, receive_all results", "bytes the kernel accepted/handed out per descriptor"]),
 P("S02", "Packets arrive exactly once, whole, in order",
   "Every packet whose send succeeded is received exactly once, in order and with the same contents, however the bytes are split or coalesced in transit and however often the operations are interrupted; the typed values read out equal the values put in. "
   "This holds for empty and large packets, and when one packet object is received into again and again. "
   "A packet that did not arrive completely is never reported as received, and a send that merely timed out has sent no part of the packet.",
   ["schedules", "fault_sequences", "inputs", "histories"], "all packet sequences and sizes, segmentations, timings, blocking modes, interruptions and connection losses",
   "Packet tests only write and read one in-memory object; framing over a connection, reuse of a received-into packet and interruption are never executed.",
   ["include/frnetlib/Packet.h", "src/Socket.cpp", "src/TcpSocket.cpp"],
   [("length prefix written on send, read first on receive", "include/frnetlib/Packet.h send/receive"), ("WouldBlock resumption of partial sends", "include/frnetlib/Packet.h send")],
   ["Socket::send / Socket::receive with Packet", "operator>> values"]),
 P("S03", "A receive that says 'nothing yet' has consumed nothing",
   "When receiving a framed message (packet, WebSocket frame or HTTP message) reports would-block or timed-out, no byte of the message has been consumed and a later receive returns the message completely. "
   "A message that is cut short, by a timeout in the middle or by the loss of the connection, is reported as disconnected or another error, never as success and never as 'nothing yet'. "
   "A would-block status is only given to non-blocking sockets, a timed-out status only to blocking ones.",
   ["schedules", "fault_sequences", "inputs"], "every cut point of every message crossed with blocking mode, timeout length, stall length and peer crash",
   NOTEST + "no test has a message arriving in two pieces, let alone a timeout between them.",
   ["src/Socket.cpp", "include/frnetlib/Packet.h", "src/WebFrame.cpp", "src/Http.cpp", "src/SSLSocket.cpp"],
   [("'nothing consumed' test before passing an idle status on", "src/Socket.cpp receive_all"), ("idle statuses turned into Disconnected after the first part", "src/WebFrame.cpp receive, include/frnetlib/Packet.h receive, src/Http.cpp receive")],
   ["statuses of receive()", "bytes consumed from the descriptor"]),
 P("S04", "The receive size limit is enforced before memory is committed",
   "With a maximum receive size set, a packet or WebSocket frame whose declared length is larger is refused with the size-exceeded status, and no buffer of the declared size is allocated for it. "
   "Every message whose length is at most the limit is delivered normally, and a limit of zero means unlimited. "
   "The limit belongs to the socket it was set on.",
   ["inputs", "schedules", "configurations"], "all limits, declared lengths around and far beyond them (7, 16, 32 and 64 bit length forms), segmentations, and both frame roles",
   "No test sets a limit; the boundary and the 64-bit length form need a peer that lies about lengths.",
   ["include/frnetlib/Packet.h", "src/WebFrame.cpp", "include/frnetlib/Socket.h"],
   [("limit comparison before the payload is resized", "include/frnetlib/Packet.h receive; src/WebFrame.cpp receive")],
   ["status of receive()", "allocation sizes requested inside the call"]),
 P("S05", "HTTP requests are received the same however their bytes arrive",
   "An HTTP request sent by this library or by a conforming client is received with the same method, path, headers, arguments, version and body whatever way its bytes are segmented, delayed or interrupted in transit, and never before all of its declared body has arrived. "
   "The body holds exactly the declared number of bytes, also when more data follows on the connection. "
   "Requests with only form arguments are received with those arguments.",
   ["inputs", "schedules", "fault_sequences"], "all requests in the accepted grammar crossed with all segmentations and interruptions",
   "The HTTP tests call parse() with whole buffers (or one or two fixed cuts) and never over a socket.",
   ["src/HttpRequest.cpp", "src/Http.cpp"],
   [("incremental parse that asks for more data", "src/HttpRequest.cpp parse"), ("receive loop", "src/Http.cpp receive"), ("header generation incl. content length", "src/HttpRequest.cpp construct")],
   ["HttpRequest accessors after Socket::receive"]),
 P("S06", "HTTP responses are received the same however their bytes arrive",
   "An HTTP response with a declared length or in chunked encoding is received with the same status, headers and body whatever way its bytes are segmented, delayed or interrupted in transit, and is never reported complete before its last byte is there. "
   "The chunked body equals the concatenation of the chunks and contains no framing; a declared-length body holds exactly that many bytes. "
   "A response cut short by the end of the connection is never reported as success.",
   ["inputs", "schedules", "fault_sequences"], "all responses (declared length, chunked with any chunking, no body) crossed with all segmentations and cut points",
   "Chunked responses are tested with whole buffers; no test cuts inside a chunk header, a chunk or the terminator.",
   ["src/HttpResponse.cpp", "src/Http.cpp"],
   [("incremental chunk decoding", "src/HttpResponse.cpp parse"), ("content-length accounting", "src/HttpResponse.cpp parse"), ("receive loop", "src/Http.cpp receive")],
   ["HttpResponse accessors after Socket::receive"]),
 P("S07", "No bytes from a peer can crash, hang or bloat a receiver",
   "Whatever bytes a peer sends and however it segments, truncates or stalls them, receiving a packet, WebSocket frame, HTTP request or HTTP response ends in a status: no exception escapes, no memory outside the message is touched, and the call does not loop once the peer has gone. "
   "Memory used for an HTTP message stays within a small multiple of the configured header and body limits, and messages beyond those limits are refused; memory for a packet or frame grows only with what has arrived or the receive limit allows. "
   "After such a message another connection still works.",
   ["inputs", "fault_sequences", "schedules"], "all byte strings (mutated valid messages and raw noise), all segmentations, truncations and resets",
   "The tests feed well-formed or a handful of fixed malformed buffers.",
   ["src/Http.cpp", "src/HttpRequest.cpp", "src/HttpResponse.cpp", "src/WebFrame.cpp", "include/frnetlib/Packet.h"],
   [("parse error statuses and size limits", "src/HttpRequest.cpp parse, src/HttpResponse.cpp parse"), ("bounds assertions on packet extraction", "include/frnetlib/Packet.h assert_bytes_remaining")],
   ["returned status", "ASan reports", "live heap"]),
 P("S08", "A WebSocket connection is only established by a genuine handshake",
   "A WebSocket client reports a successful connection only if the server answered the upgrade request with status 101 and the accept token derived from the key that this client sent; in every other case (wrong or missing token, other status, truncated or garbled answer, connection loss, silence beyond the receive timeout) the connect reports a failure and the socket is left unconnected. "
   "The client's key is a fresh random 16-byte value for every connection, and a WebSocket server accepts only GET upgrade requests and answers with the token derived from the client's key. "
   "Frames that a peer sends directly behind its handshake message are not lost.",
   ["inputs", "fault_sequences", "schedules"], "all server answers (mutated tokens, statuses, headers), segmentations, coalescing of handshake and first frames, resets and stalls at every point of the handshake",
   "There is no WebSocket test at all.",
   ["include/frnetlib/WebSocket.h", "src/Sha1.cpp", "src/Base64.cpp", "src/HttpResponse.cpp", "src/HttpRequest.cpp"],
   [("token comparison", "include/frnetlib/WebSocket.h connect"), ("token derivation", "include/frnetlib/WebSocket.h set_descriptor"), ("disconnect on failure", "include/frnetlib/WebSocket.h connect")],
   ["status of connect/accept", "connected()", "bytes seen by the scripted peer"]),
 P("S09", "WebSocket frames arrive exactly once with their opcode and finality",
   "Every WebSocket frame whose send succeeded is received exactly once and in order with the same payload, opcode and final flag, for every payload length and in both directions, whatever the segmentation, interruption and timing. "
   "Frames on the wire are well formed: client frames are masked, server frames are not, and the length uses the encoding the protocol prescribes; a frame masked the wrong way is refused. "
   "Sending does not change the frame object, so that the same frame can be sent again or to several peers.",
   ["inputs", "schedules", "fault_sequences", "histories"], "all frame sequences, payload lengths around 125/126/65535/65536, both roles, segmentations and interruptions",
   "There is no WebSocket frame test at all.",
   ["src/WebFrame.cpp", "include/frnetlib/WebFrame.h"],
   [("frame header encoding/decoding and masking", "src/WebFrame.cpp send/receive"), ("role check of the mask bit", "src/WebFrame.cpp receive")],
   ["frames received", "bytes on the wire decoded by an independent decoder", "payload after send"]),
 P("S10", "WebSocket disconnect tells the peer and always closes",
   "Disconnecting a WebSocket that is connected sends one complete, correctly masked close frame after the data already sent and closes the connection, on the client and on the server side, so that the peer library receives a close frame and then the end of the stream. "
   "It closes the descriptor exactly once even if the frame cannot be sent, and disconnecting again or without a connection does nothing.",
   ["schedules", "fault_sequences", "histories"], "either side disconnecting at any point of any exchange, with interruptions and resets",
   "There is no WebSocket test at all.",
   ["include/frnetlib/WebSocket.h", "src/WebFrame.cpp", "src/Socket.cpp"],
   [("close frame then close_socket", "include/frnetlib/WebSocket.h disconnect")],
   ["frames seen by the peer", "descriptor state"]),
 P("S11", "The selector reports every ready socket and no idle one",
   "Waiting on a selector returns, with the opaque value registered for it, every registered socket whose connection has unread data (including decrypted data a TLS socket holds), a closed or failed peer, or (for a listener) a pending connection, within a bounded number of waits, and keeps reporting it until it has been dealt with. "
   "It returns no socket for which none of that is true and none that is not registered. "
   "With nothing ready it returns an empty list no earlier than the timeout (unless interrupted) and a negative timeout waits until something happens.",
   ["schedules", "fault_sequences", "histories"], "all arrival patterns over many sockets (more than one batch of ready sockets), interrupted waits, reordered and partial kernel reports, partial reads",
   "The selector has no test.",
   ["src/SocketSelector.cpp"],
   [("level-triggered registration with the entry as event data", "src/SocketSelector.cpp add"), ("event to socket mapping", "src/SocketSelector.cpp wait")],
   ["wait() results against the simulated kernel's readiness"]),
 P("S12", "Selector registration stays consistent through close and reuse",
   "A socket added to a selector is reported when ready until it is removed or closed and never afterwards; removing returns the opaque value given when it was added, exactly once, and nothing for a socket that is not registered, also when the socket was disconnected before. "
   "Adding a socket twice or adding a disconnected one is refused without any effect, and an add that fails (registration refused, out of memory) leaves nothing behind. "
   "Removing a closed socket never unregisters another socket that has since been given the same descriptor number.",
   ["histories", "fault_sequences", "schedules"], "all histories of add, remove, close, reconnect (descriptor reuse) and wait on several sockets, with failing registrations",
   "The selector has no test; descriptor reuse needs a specific history.",
   ["src/SocketSelector.cpp", "include/frnetlib/SocketSelector.h"],
   [("registry keyed by socket with the descriptor used at registration", "src/SocketSelector.cpp add/remove"), ("rollback when registration fails", "src/SocketSelector.cpp add")],
   ["return values and exceptions of add/remove/wait against a reference map"],
   [("added_sockets", "registered sockets, their opaque value and descriptor", "include/frnetlib/SocketSelector.h")]),
 P("S13", "Descriptors are neither leaked nor closed twice",
   "Through any history of connecting, listening, accepting, handing over, moving, disconnecting and destroying sockets, listeners and selectors, and any failure of the system calls and allocations involved, every descriptor and address list that was opened is released exactly once by the time the objects are gone. "
   "No object ever closes a descriptor number it does not own, so an unrelated descriptor that got the same number stays open. "
   "A failed operation leaves no descriptor open that the object does not report as its own.",
   ["histories", "fault_sequences"], "all histories of lifecycle operations crossed with failures of every system call and allocation they make",
   "Tests create a handful of objects with succeeding system calls.",
   ["src/TcpSocket.cpp", "src/TcpListener.cpp", "src/SSLSocket.cpp", "src/SSLListener.cpp", "src/SocketSelector.cpp", "include/frnetlib/TcpListener.h"],
   [("close on destruction and on failure paths", "src/TcpSocket.cpp, src/TcpListener.cpp"), ("ownership handover by set_descriptor / set_socket_descriptor", "src/SSLSocket.cpp connect, src/SSLListener.cpp listen")],
   ["the simulated descriptor table", "close() calls on numbers that are not open or belong to a decoy"]),
 P("S14", "Connect tries every address, keeps its deadline, and fails clean",
   "Connecting succeeds if one of the addresses a name resolves to accepts within the timeout, whatever the others do (refuse, do not answer, are unreachable), and otherwise reports a failure within the timeout per address, allowing for scheduling (a TLS or WebSocket handshake that a connected peer does not answer is bounded by the receive timeout set on the socket); only addresses of the IP version asked for are tried. "
   "After success the socket is connected to the address that accepted, in blocking mode, and usable; after any failure it is not connected, for plain, TLS and WebSocket sockets alike. "
   "An interrupted wait does not turn a connection that succeeds into a failure.",
   ["fault_sequences", "schedules", "configurations"], "all lists of addresses with any mix of behaviours and delays, all timeouts, failures of each system call, signal interruptions",
   "Tests connect to nothing; failing over between addresses needs a resolver and peers that misbehave on cue.",
   ["src/TcpSocket.cpp", "src/SSLSocket.cpp", "include/frnetlib/WebSocket.h"],
   [("non-blocking connect, select with the timeout, SO_ERROR check, next address", "src/TcpSocket.cpp connect")],
   ["status, connected(), elapsed simulated time, which server accepted"]),
 P("S15", "Blocking mode and timeouts do what the caller last asked for",
   "After any sequence of setting blocking mode and timeouts, before or after connecting, accepting or reconnecting, the socket behaves as last requested: a non-blocking one never waits, a blocking one without timeout waits until there is data, room or an end of the connection, and one with a receive (send) timeout returns a timed-out status after that long (not earlier, and not much later) when nothing can be received (sent). "
   "Setting a mode twice, or on a connection that was accepted or reconnected, has the same effect as setting it once; a fresh connection, connected or accepted, starts out blocking and with the timeouts set before. "
   "The reported mode agrees with the actual one.",
   ["histories", "schedules", "configurations"], "all sequences of mode and timeout changes interleaved with connect, accept, reconnect and transfers, for plain and TLS sockets",
   "set_blocking and timeouts are not exercised on a live connection; the claim is about elapsed time and mode histories.",
   ["src/TcpSocket.cpp", "src/SSLSocket.cpp", "include/frnetlib/NetworkEncoding.h", "include/frnetlib/Socket.h"],
   [("mode flag mirrored into the descriptor", "src/TcpSocket.cpp set_blocking; include/frnetlib/NetworkEncoding.h set_unix_socket_blocking"), ("timeouts re-applied when a descriptor is set", "src/TcpSocket.cpp reconfigure_socket")],
   ["elapsed simulated time and status of receive_raw/send_raw", "O_NONBLOCK and SO_*TIMEO in the simulated kernel"]),
 P("S16", "The end or failure of a connection is always noticed",
   "When the peer closes, resets or crashes, or another thread shuts the socket down, a pending or later receive returns a failure status (after any data that arrived before) instead of waiting forever or reporting data, and a send to a dead peer returns a failure status instead of killing the process. "
   "A listener that is shut down wakes the thread waiting in accept with a failure. "
   "An orderly close is reported as disconnected.",
   ["crash_points", "schedules", "fault_sequences"], "peer close, reset, crash or local shutdown at every point of every operation, plain and TLS, raw and framed",
   "No test has a peer that goes away.",
   ["src/TcpSocket.cpp", "src/SSLSocket.cpp", "src/Socket.cpp", "src/TcpListener.cpp", "include/frnetlib/NetworkEncoding.h"],
   [("zero-length receive mapped to Disconnected", "src/TcpSocket.cpp receive_raw"), ("SIGPIPE ignored", "include/frnetlib/NetworkEncoding.h init_wsa"), ("shutdown of the descriptor", "src/Socket.cpp shutdown; src/TcpListener.cpp shutdown")],
   ["status and termination of the call"]),
 P("S17", "TLS delivers exactly what was sent or fails",
   "Data received on a TLS connection is always a prefix of what the peer sent, whatever the segmentation, interruptions, timeouts and blocking mode, and all of it on a healthy connection; packets and HTTP messages over TLS obey the same rules as over TCP. "
   "If anything on the wire is altered, injected, removed or replayed, the receiver gets an error or an end of connection and never altered data. "
   "Nothing of the plaintext appears on the wire.",
   ["schedules", "fault_sequences", "inputs"], "all transfer sizes, segmentations, interruptions and single or multiple modifications of the byte stream at any position",
   "The TLS classes have no test.",
   ["src/SSLSocket.cpp", "src/SSLListener.cpp", "include/frnetlib/SSLContext.h"],
   [("mbedtls read/write with status mapping", "src/SSLSocket.cpp send_raw/receive_raw")],
   ["plaintext delivered vs. sent", "bytes on the simulated wire"]),
 P("S18", "A TLS client only talks to the server it asked for",
   "With verification on, a TLS connect succeeds only if the server proves possession of a certificate that chains to a loaded authority, names the host that was asked for and is valid at the current time; otherwise it fails and the socket is left unconnected. "
   "With verification off, or with a good certificate, it succeeds on a healthy network. "
   "A handshake that is tampered with, truncated or not TLS at all never leaves a usable connection: the side that can notice fails, without leaving its socket connected, and the listener can accept the next client; a client that goes silent holds an accept up no longer than the receive timeout set on the socket it would be accepted into.",
   ["configurations", "fault_sequences", "schedules"], "all combinations of certificate (good, other host, expired, not yet valid, unknown authority, self-signed), clock skew, verification setting, and disturbance at any point of the handshake",
   "The TLS classes have no test; expiry needs a clock the test controls.",
   ["src/SSLSocket.cpp", "src/SSLListener.cpp", "include/frnetlib/SSLContext.h"],
   [("verification mode, CA chain and host name", "src/SSLSocket.cpp connect"), ("handshake loop", "src/SSLSocket.cpp connect; src/SSLListener.cpp accept")],
   ["connect/accept status, connected()"]),
 P("S19", "Connections used from different threads do not affect each other",
   "Threads that each use their own sockets, packets, frames and HTTP messages (but share the process, and where intended the listener or TLS context) get the results they would get alone, at every interleaving. "
   "A TCP socket may be sent on by one thread while another receives on it. "
   "No message, status, limit or timeout of one connection shows up on another.",
   ["schedules"], "all interleavings (at basic-block granularity) of several threads running sends, receives, parses, accepts and connects",
   "Tests are single threaded.",
   ["src/TcpSocket.cpp", "src/Http.cpp", "src/WebFrame.cpp", "src/SocketSelector.cpp", "include/frnetlib/Packet.h", "src/Base64.cpp", "src/Sha1.cpp"],
   [("per-object state; process-wide state limited to the mask counter and lookup tables", "src/WebFrame.cpp, src/Http.cpp")],
   ["per-thread results against the sequential expectation"]),
 P("S20", "The concurrent HTTP server answers every well-behaved client",
   "The event-loop HTTP server built from the library (selector, non-blocking sockets, incremental parsing) answers every complete request of every client, however slowly and in whatever pieces it arrives and whatever other clients do (stall, disconnect, reset, send garbage), within a bounded time after the request is complete. "
   "Each client gets exactly one well-formed response per connection, containing the page it is meant to get, and the server neither crashes, leaks descriptors, nor stops accepting.",
   ["schedules", "fault_sequences", "histories"], "all mixes of well-behaved, slow, broken and vanishing clients at all interleavings",
   "The example is not tested; one client at a time would not show starvation or cross-talk.",
   ["examples/concurrent_http_server/ConcurrentHTTPServer.cpp", "src/SocketSelector.cpp", "src/HttpRequest.cpp", "src/HttpResponse.cpp", "src/TcpListener.cpp"],
   [("selector loop", "examples/concurrent_http_server/ConcurrentHTTPServer.cpp")],
   ["responses seen by scripted clients", "descriptors open in the server"]),
 P("S21", "Every incoming connection is accepted exactly once and correctly labelled",
   "Every connection that completes towards a listening socket is handed out by exactly one accept, connected to that client and carrying that client's address, whichever of several threads accepts and whatever other connections abort meanwhile. "
   "An accept that fails (interrupted, out of descriptors, aborted connection) reports an accept failure, leaves the socket object it was given as it was, and the listener keeps working. "
   "Moving a listener moves its socket; listening again or on a port that is taken behaves as a fresh attempt; an accepted connection stays usable whatever happens to the listener afterwards (closed, moved or destroyed), plain and TLS.",
   ["schedules", "fault_sequences", "histories"], "all interleavings of several clients and acceptors with accept failures, aborted connections, and moved or re-listened listeners, IPv4 and IPv6",
   "The listener tests accept one loopback connection with nothing failing.",
   ["src/TcpListener.cpp", "src/SSLListener.cpp", "include/frnetlib/TcpListener.h", "include/frnetlib/Listener.h", "src/TcpSocket.cpp"],
   [("accept, name lookup, hand-over to the client object", "src/TcpListener.cpp accept"), ("bind/listen loop", "src/TcpListener.cpp listen")],
   ["accepted sockets, their remote address, and an echo through them"]),
 P("S22", "Connections leave no memory behind",
   "After any history of connections, listeners, handshakes, messages and selectors, whatever fails in it (system calls, allocations, the other side), everything allocated on their behalf has been released when the objects are gone, plain, TLS and WebSocket. "
   "Objects that serve one connection after another (a listener that accepts, a socket that reconnects or is accepted into again, a selector) don't hold more and more memory.",
   ["histories", "fault_sequences", "schedules"], "all histories of connections that succeed, fail or are abandoned at any point, crossed with failures of every system call and allocation",
   "Tests don't look at memory, and use each object for one connection that succeeds.",
   ["src/SSLSocket.cpp", "src/SSLListener.cpp", "include/frnetlib/SSLContext.h", "src/SocketSelector.cpp", "src/TcpListener.cpp", "src/TcpSocket.cpp"],
   [("TLS state per connection freed on close and on failed handshakes", "src/SSLSocket.cpp close_socket, src/SSLListener.cpp accept"), ("registrations given up", "src/SocketSelector.cpp remove"), ("contexts", "include/frnetlib/SSLContext.h")],
   ["live heap blocks by the round in which they were allocated"]),
 P("S23", "A URL is fetched from where it says",
   "Fetching a URL connects to the host and port it names (the scheme's default port if it names none) and asks for exactly its path and query, whatever characters these contain, and a URL object, socket or request used for one URL after another behaves as a fresh one. "
   "The example HTTP client prints exactly the body that was served, for plain and chunked responses, or says why there is none: a response that is cut off or is no HTTP, a host that doesn't resolve or answer never yields a page. "
   "The blocking example HTTP server answers every complete request with its page and closes, one client after another, whatever the clients before did, and holds no descriptors that it didn't hold before.",
   ["inputs", "histories", "fault_sequences", "schedules"], "all URLs of a host, sequences of fetches and redirections, behaviours of sites and visitors, and network faults",
   "Tests parse a few URLs in memory and never fetch one.",
   ["src/URL.cpp", "include/frnetlib/URL.h", "src/HttpRequest.cpp", "src/HttpResponse.cpp", "src/Http.cpp", "src/TcpSocket.cpp", "src/TcpListener.cpp", "examples/simple_http_server_and_client/SimpleHttpClient.cpp", "examples/simple_http_server_and_client/SimpleHttpServer.cpp"],
   [("URL::parse, URL::get_uri, URL::get_url", "src/URL.cpp, include/frnetlib/URL.h"), ("request line and host header", "src/HttpRequest.cpp construct"), ("client program", "examples/simple_http_server_and_client/SimpleHttpClient.cpp"), ("server program", "examples/simple_http_server_and_client/SimpleHttpServer.cpp")],
   ["what the client program prints", "requests as the sites receive them", "responses as visitors receive them", "open descriptors"]),
]
NA_REASON = "A pure function of its argument: no schedule, clock, I/O, fault or second party enters into it, so there is nothing for a simulator to decide (input generation or proof would be the right family); "
NA = [
 (P("N30", "Packet values read back as written in memory", "Values put into a packet are read back equal and in order, and reading past the end is refused with an exception.",
    ["inputs"], "all value sequences", "Tests sample a few values per type.", ["include/frnetlib/Packet.h"], [("operator<< / operator>>", "include/frnetlib/Packet.h")], ["operator>>"]),
  NA_REASON + "the round trip over a connection is part of S02."),
 (P("N31", "URLs are parsed and formatted consistently", "Parsing a URL yields its scheme, host, port, path and query, and formatting the result gives the URL back.",
    ["inputs"], "all URLs", "Tests sample some URLs.", ["src/URL.cpp"], [("URL::parse", "src/URL.cpp")], ["URL accessors"]), NA_REASON + "where a URL leads when it is fetched is S23."),
 (P("N32", "Percent-encoding round trips", "Decoding the encoding of any byte string returns it, and encoded strings contain only unreserved characters and escapes.",
    ["inputs"], "all byte strings", "Tests sample some strings.", ["src/Http.cpp"], [("url_encode/url_decode", "src/Http.cpp")], ["Http::url_encode, Http::url_decode"]), NA_REASON + "string transformation only."),
 (P("N33", "SHA-1 and Base64 compute the standard functions", "The digest and encoding functions return the values defined by their standards for every input.",
    ["inputs"], "all byte strings", "Tests cover a few vectors.", ["src/Sha1.cpp", "src/Base64.cpp"], [("sha1_digest, Base64::encode", "src/Sha1.cpp, src/Base64.cpp")], ["return values"]),
  NA_REASON + "their use in the handshake is part of S08."),
 (P("N34", "HTTP messages parse back from their own serialisation in memory", "Constructing a message and parsing the text gives an equal message.",
    ["inputs"], "all messages", "Tests sample a few.", ["src/HttpRequest.cpp", "src/HttpResponse.cpp"], [("construct/parse", "src/HttpRequest.cpp, src/HttpResponse.cpp")], ["accessors"]),
  NA_REASON + "what depends on segmentation and interruption is S05 and S06."),
 (P("N35", "Byte-order conversions are inverse to each other", "Converting a value to network order and back returns it, for all integer and floating types.",
    ["inputs"], "all values", "Tests sample a few.", ["include/frnetlib/NetworkEncoding.h"], [("fr_htonll etc.", "include/frnetlib/NetworkEncoding.h")], ["return values"]), NA_REASON + "arithmetic only."),
]

# runs and wall cap (s) per tier
BUDGET = {
 # id: (quick runs, quick wall, thorough runs, thorough wall)
 "S17": (40000, 60, 1600000, 700), "S18": (40000, 60, 1600000, 700), "S20": (40000, 60, 1600000, 700), "S21": (40000, 60, 1600000, 700), "S22": (40000, 60, 1600000, 700), "S23": (40000, 60, 1600000, 700),
}
DEFAULT_BUDGET = (40000, 45, 1600000, 600)
ASSURE = ("Seeded search: every run is one deterministic execution of the real library code against a simulated kernel (TCP, epoll, resolver, clock, signals), with a seeded scheduler that also preempts at basic blocks. "
          "A clean batch is evidence for the sampled schedules, inputs and fault sequences, not proof. Trusts the kernel model in sim/net.cpp, the oracle in scen/%s.cpp, gcc/ASan instrumentation%s.")
TLS = {"S03", "S11", "S13", "S14", "S15", "S16", "S17", "S18", "S19", "S21", "S22"}

def claimed():
    return [p for p in PROPS if os.path.exists(f"{V}/scen/{p['id']}.cpp")]

def write():
    with open(f"{V}/properties.jsonl", "w") as f:
        for p in PROPS: f.write(json.dumps(p) + "\n")
        for p, _ in NA: f.write(json.dumps(p) + "\n")
    c = {p["id"] for p in claimed()}
    m = dict(version=1, setup_cmd="./tools/setup.sh",
             checks=[dict(property=p["id"], quick_cmd=f"./check {p['id']} quick", thorough_cmd=f"./check {p['id']} thorough",
                          evidence_file=f"evidence/{p['id']}.json",
                          technique="deterministic simulation with fault injection (seeded schedule and fault search, minimised replay)", level="exploration",
                          level_note=ASSURE % (p["id"], "; mbedtls runs as real code" if p["id"] in TLS else "")) for p in claimed()],
             not_applicable=[dict(property=p["id"], reason=r) for p, r in NA] + [dict(property=p["id"], reason="check under construction") for p in PROPS if p["id"] not in c],
             notes="No hooks in /repo: the seams are the libc symbols the library calls (link-time interposition) and compiler coverage callbacks. Replay: ./replay FILE.")
    json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
    open(f"{V}/MANIFEST.json", "a").write("\n")

if __name__ == "__main__":
    if sys.argv[1] == "write": write()
    elif sys.argv[1] == "budget":
        b = BUDGET.get(sys.argv[2], DEFAULT_BUDGET)
        print(*(b[0:2] if sys.argv[3] == "quick" else b[2:4]))
