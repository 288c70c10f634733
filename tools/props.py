TV = "TLA+ specification of %s; TLC checks its properties and validates traces recorded from the real code"
PROPS = []
NOT_APPLICABLE = []
NOTES = ("python3 run.py check <ID> builds the harness from /repo's working tree, runs generated scenarios in the "
         "real code and has TLC decide whether every recorded trace is a behaviour of the TLA+ specification in "
         "spec/. python3 run.py replay <file> prints the scenario and trace behind a VIOLATION line. Exit 2 means "
         "the machinery failed.")


def P(id, title, statement, over, q, why, files, mech, observe, tech, note, na=None):
    d = dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech,
             observe=observe, technique=TV % tech, note=note)
    if na:
        d["na"] = na
    PROPS.append(d)


BOUND = ("Exhaustive only where the level says so; otherwise seeded generation. Trusts TLC, the harness, and gcc's "
         "AddressSanitizer for memory errors. ")

P("P01", "Decoding any datagram yields exactly its RFC 7252 meaning or a clean refusal",
  """For every byte string, decoding either produces the version, type, token, code, message ID, options (in order,
  with absolute numbers and exact values) and payload that RFC 7252 assigns to those bytes, or refuses with an
  error. It refuses exactly the byte strings that are not well-formed CoAP messages, and reports separately a
  version it does not support. It never reads outside the datagram, crashes or loops.""",
  ["inputs"], "all byte strings up to the largest datagram",
  "The tests decode a few dozen hand-written messages; extended option lengths above 127, truncation at every "
  "offset and reserved nibbles are not among them.",
  ["lib/src/coap_msg.c", "lib/include/coap_msg.h"],
  [("coap_msg_parse and its section parsers", "lib/src/coap_msg.c")],
  ["return value and accessors of the message API"],
  "the RFC 7252 message format (Msg.tla)",
  BOUND + "All byte strings over a small alphabet to length 3/4 behind each header shape are enumerated by TLC and "
  "replayed; longer datagrams are sampled structurally.")
P("P02", "Messages built through the API encode to exactly the bytes RFC 7252 prescribes",
  """For every history of message-building calls, each accepted call changes only what it names and each refused
  call (invalid type, token length, class, detail, oversized or unallocatable option) leaves the message usable.
  Encoding then writes exactly the RFC 7252 encoding of the built message with options ordered by number (equal
  numbers in insertion order), or refuses without writing past the given space if it does not fit. Decoding that
  encoding gives the message back.""",
  ["histories", "inputs"], "all sequences of API calls, all option numbers 0..65535, lengths, payloads and buffer sizes",
  "The tests format fixed messages into ample buffers; insertion orders, extended delta/length combinations and every "
  "short buffer are not reached.",
  ["lib/src/coap_msg.c", "lib/include/coap_msg.h"],
  [("coap_msg_add_op, coap_msg_set_*", "lib/src/coap_msg.c"), ("coap_msg_format", "lib/src/coap_msg.c"),
   ("coap_msg_copy, coap_msg_reset", "lib/src/coap_msg.c")],
  ["return values and accessors of the message API", "bytes written"],
  "the message value, its building operations and its encoding (Msg.tla)",
  BOUND + "API histories are sampled; every buffer size around the exact fit is tried.")
P("P03", "Block option values encode and decode without loss and refuse what does not fit",
  """For every block number, more flag and size exponent, encoding a block option value and decoding it returns the
  same three fields; numbers or exponents that do not fit, and option values longer than three bytes or with the
  reserved exponent, are refused. Every block option value of zero to three bytes decodes to the fields RFC 7959
  assigns to it.""",
  ["inputs"], "all block numbers (20 bits), flags, exponents and option values",
  "The tests use a few numbers and lengths.",
  ["lib/src/coap_msg.c", "lib/include/coap_msg.h"],
  [("coap_msg_op_parse_block_val, coap_msg_op_format_block_val, coap_msg_parse_block_op", "lib/src/coap_msg.c")],
  ["return value and out-parameters"],
  "block values (Msg.tla, BlockMC.tla)",
  BOUND + "The model is exhaustive over small field widths; the code is exercised at all boundaries and on samples.")
P("P05", "Pool allocations are disjoint, intact, bounded and all returned",
  """For every sequence of allocations and frees, an allocation succeeds exactly when it fits a size class that has a
  free buffer, live buffers never overlap or lie outside the pool, and nobody's contents change while live. A freed
  buffer becomes available again, a pointer that is not a live allocation is never freed into the pool twice, and
  the reported free space always equals capacity minus live buffers.""",
  ["histories", "configurations"], "all allocation/free histories and pool geometries",
  "The tests allocate a handful of buffers in fixed orders.",
  ["lib/src/coap_mem.c", "lib/include/coap_mem.h"],
  [("active bitmap", "lib/src/coap_mem.c coap_mem_alloc/coap_mem_free"), ("size classes", "lib/include/coap_mem.h coap_mem_small/medium/large")],
  ["pointers returned", "buffer contents", "reported usage"],
  "a pool allocator (MemPool.tla)",
  BOUND + "TLC explores every order of a one-pool model; the code is driven by random histories and exhaustion.")
SRV_BOUND = BOUND + ("The server runs unmodified on a virtual network and clock; ServerMC is explored exhaustively with a small "
                     "table and short schedule; input sequences to length 3/4 over 14 stimuli are enumerated, longer ones sampled. "
                     "UDP over IPv4 build; at most 1152-byte datagrams. ")
SRV = ["lib/src/coap_server.c", "lib/include/coap_server.h"]
SRV_OBS = ["datagrams sent and received", "calls of the application's handler", "virtual time"]
SRV_T = "the CoAP server (Server.tla, ServerMC.tla, ServerTrace.tla)"

P("P11", "A repeated request is answered again without running the application again",
  """While the server still remembers an endpoint, a datagram that repeats the endpoint's most recent request (same
  message ID, including ID 0) never reaches the request handler a second time. A repeated confirmable request gets the
  same acknowledgement again, byte for byte equivalent to the one sent the first time (an empty one if the response is
  separate), and a repeated non-confirmable request is silently dropped. Every other well-formed request that
  does not belong to or interrupt a blockwise transfer reaches the application exactly once.""",
  ["histories", "schedules", "fault_sequences"],
  "all interleavings of requests, repetitions, acknowledgements, resets, malformed datagrams, time and send failures, from any number of endpoints",
  "The tests exchange a few requests over loopback without loss or duplication.",
  SRV, [("transaction table and duplicate detection", "lib/src/coap_server.c coap_server_exchange"),
        ("stored request/response", "lib/src/coap_server.c coap_server_trans_match_req / coap_server_trans_handle_*")],
  SRV_OBS, SRV_T, SRV_BOUND)
P("P12", "Every message the server sends answers a message of its destination, matched",
  """A piggybacked response is an acknowledgement with the request's message ID and token; a separate or
  non-confirmable response carries the request's token and a message ID the server has not used recently with that endpoint; both go
  to the address and port the request came from and carry exactly the code, options and payload the application
  produced. Confirmable requests are answered with acknowledgements or (for separate resources) confirmable responses,
  non-confirmable requests with non-confirmable responses. Nothing else is ever sent, except acknowledgements and
  resets for, and retransmissions to, the endpoint concerned.""",
  ["histories", "inputs"], "all request histories from any number of endpoints",
  "The tests check a few exchanges of a single client with well-behaved IDs and tokens.",
  SRV, [("response construction", "lib/src/coap_server.c coap_server_trans_handle_*, coap_server_exchange"),
        ("message IDs", "lib/src/coap_server.c coap_server_get_next_msg_id")],
  SRV_OBS, SRV_T, SRV_BOUND)
P("P13", "Separate responses are retransmitted on schedule until acknowledged or given up",
  """A separate response is preceded by an empty acknowledgement and then sent as a confirmable message; while it is not
  acknowledged it is retransmitted unchanged after an initial timeout of 2 to 3 seconds that doubles each time, at most
  four times, and then abandoned. An acknowledgement or reset with its message ID, or a new request from the same
  endpoint, ends the retransmissions at once; no other message does.""",
  ["schedules", "histories", "fault_sequences"], "all orders of timeouts, acknowledgements, resets, other traffic and send failures",
  "The tests acknowledge at once and never let the timers run out.",
  SRV, [("ack timer", "lib/src/coap_server.c coap_server_trans_start_ack_timer / _update_ack_timer / _handle_ack_timeout")],
  SRV_OBS, SRV_T, SRV_BOUND)
P("P14", "Endpoints are isolated and only the least recently active one is forgotten",
  """The server keeps state for eight endpoints, told apart by address and port; traffic, faults and transfers of one
  endpoint never change what another observes. A further endpoint is always admitted, displacing exactly the endpoint
  whose last activity is oldest (to the second), and a displaced endpoint is treated as new when it returns.""",
  ["histories", "schedules"], "all interleavings of traffic from more endpoints than the server keeps state for",
  "The tests use one client at a time.",
  SRV, [("transaction table", "lib/src/coap_server.c coap_server_find_trans / coap_server_find_empty_trans / coap_server_find_oldest_trans")],
  SRV_OBS, SRV_T, SRV_BOUND)
P("P15", "No datagram or send failure stops the server or disturbs later requests",
  """Whatever datagrams arrive, whatever error the application returns and whichever sends fail, the server keeps
  serving: a later request from any endpoint is answered normally. A malformed confirmable message is rejected with a
  reset and other malformed, unexpected or empty messages are rejected with a reset if confirmable and ignored
  otherwise, without reaching the application. The server never crashes, loops or accesses memory it does not own, and
  owns no pool buffer or descriptor after it is stopped.""",
  ["inputs", "fault_sequences", "histories"], "all byte strings and all patterns of handler and send failures",
  "The tests send well-formed requests over a working loopback.",
  SRV, [("receive loop", "lib/src/coap_server.c coap_server_run / coap_server_exchange"), ("rejection", "lib/src/coap_server.c coap_server_reject / coap_server_trans_reject")],
  SRV_OBS + ["pool usage and open descriptors at the end"], SRV_T, SRV_BOUND + "Receive failures other than malformed data are outside the statement. ")
P("P16", "Requests with unrecognised critical options are refused with 4.02",
  """A request carrying an option with an odd number that the library does not recognise is answered with 4.02 (in the way the request's
  type calls for) and does not reach the application; options with even numbers and recognised critical options never
  cause a refusal. Which options are recognised is the set of RFC 7252 and RFC 7959 critical options the library
  documents.""",
  ["inputs"], "all sets of option numbers",
  "The tests contain one unrecognised critical option.",
  SRV + ["lib/src/coap_msg.c"], [("coap_msg_op_num_is_critical, _is_recognized; coap_server_trans bad option handling", "lib/src/coap_msg.c, lib/src/coap_server.c")],
  SRV_OBS, SRV_T, SRV_BOUND + "Every option number below 300 (3000) is tried alone. ")
P("P17", "A blockwise upload reaches the application whole, once, in order, or not at all",
  """When a client uploads a body with Block1, the application's receive function is called only after the final block,
  exactly once, with the exact concatenation of the blocks received in sequence; every block is answered with 2.31 (or
  the final code) and the Block1 option of that block in the size the server prefers. A block out of sequence is
  answered 4.08, a body beyond the buffer 4.13, a block with another method, path, no payload or an invalid option 4.00, and each
  ends the transfer without delivering anything. Repeated blocks are not appended twice.""",
  ["histories", "inputs", "fault_sequences"], "all bodies, block sizes, repetitions, deviations and interleavings with other endpoints",
  "The tests upload a few fixed bodies with one block size and no loss.",
  SRV, [("coap_server_trans_handle_blockwise_put1/_post1", "lib/src/coap_server.c"), ("coap_server_trans_handle_blockwise", "lib/src/coap_server.c")],
  SRV_OBS, SRV_T, SRV_BOUND)
P("P18", "A blockwise download delivers exactly the body, block by block",
  """When the library serves a body with Block2, the payloads of blocks 0, 1, 2, ... are consecutive slices of the body in
  the block size agreed (the server's or the smaller one the client asked for), their concatenation is the body, the more flag is clear
  exactly on the last, and each carries its Block2 option. A request for a block out of turn, for another path or method, or with an
  invalid block option ends the transfer with 4.00. This holds alike for GET responses and for the response
  bodies of uploads.""",
  ["histories", "inputs"], "all bodies, block sizes, repetitions, deviations and interleavings with other endpoints",
  "The tests download a few fixed bodies with one block size.",
  SRV, [("coap_server_trans_handle_blockwise_get, _put2, _post2", "lib/src/coap_server.c")],
  SRV_OBS, SRV_T, SRV_BOUND)
CLI_BOUND = BOUND + ("The client runs unmodified against a scripted peer on a virtual network and clock; ClientMC is explored "
                     "exhaustively with short timeouts against a peer that may send anything; peer behaviours to length 3/4 over 12 "
                     "stimuli are enumerated, longer ones sampled. UDP over IPv4 build. ")
CLI = ["lib/src/coap_client.c", "lib/include/coap_client.h"]
CLI_OBS = ["datagrams sent and received", "return value and response of the exchange call", "virtual time"]
CLI_T = "the CoAP client (Client.tla, ClientMC.tla, ClientTrace.tla)"
P("P07", "Client requests are retransmitted on schedule and every exchange ends in time",
  """A confirmable request that is neither acknowledged nor answered is retransmitted unchanged after an initial timeout
  of 2 to 3 seconds that doubles each time, four times in all, after which the exchange fails with a timeout; a
  non-confirmable request is sent once. After an empty acknowledgement, and for non-confirmable requests, the exchange fails
  with a timeout if no response arrives within 30 seconds, whatever else arrives meanwhile. Acknowledgement, response or reset ends
  the retransmissions at once; nothing else affects the schedule.""",
  ["schedules", "fault_sequences", "histories"], "all loss patterns, orders and delays of the server's messages",
  "The tests talk to a responsive server over loopback; nothing is ever lost or late.",
  CLI, [("timers", "lib/src/coap_client.c coap_client_start_ack_timer / _update_ack_timer / _start_resp_timer / _listen_ack / _listen_resp")],
  CLI_OBS, CLI_T, CLI_BOUND)
P("P08", "An exchange returns only the response to its own request",
  """An exchange succeeds only with a response that carries the request's token (and, in an acknowledgement, its message ID)
  and no unrecognised critical option, and returns exactly what was received; each request has a token and message ID of its own. Messages that do not match, including late answers to earlier
  requests and requests from the server, are rejected (with a reset if confirmable) without ending the exchange; a reset of the request is reported
  as a connection reset. A confirmable response that is accepted is acknowledged.""",
  ["histories", "inputs", "schedules"], "all sequences of messages, matching or not, duplicated, reordered, late or malformed",
  "The tests only see well-behaved servers.",
  CLI, [("matching", "lib/src/coap_client.c coap_client_match_token / coap_client_exchange_con / _non / _sep"),
        ("replies", "lib/src/coap_client.c coap_client_reject / coap_client_send_ack")],
  CLI_OBS, CLI_T, CLI_BOUND + "Malformed datagrams end the exchange with an error. ")
P("P09", "A client blockwise upload sends every byte once, in order, or reports failure",
  """A blockwise PUT or POST sends the body as consecutive blocks numbered in the block size in force, each block carrying
  exactly its slice, the more flag clear exactly on the last, in sizes no larger than the server's most recent Block1
  option; the next block is sent only after the previous one was confirmed. The call reports success only if
  every block was confirmed in sequence; a missing, invalid or mismatching Block1 option is an error, and a
  non-success response ends the transfer with that response.""",
  ["histories", "inputs"], "all bodies, block sizes, server preferences and server deviations",
  "The tests use one body and one block size against the library's own server.",
  CLI, [("coap_client_exchange_blockwise1", "lib/src/coap_client.c")], CLI_OBS, CLI_T, CLI_BOUND)
P("P10", "A client blockwise download returns exactly the bytes the server sent, in order",
  """A blockwise GET (and the response part of a blockwise PUT or POST) asks for consecutive blocks and returns the exact
  concatenation of the payloads received in sequence, with its length, only when the final block arrived. A block out of
  sequence, longer than its size, short but not last, without a valid Block2 option, or exceeding the caller's buffer
  is an error, and nothing is ever written outside that buffer; a non-success response ends the transfer with that response.""",
  ["histories", "inputs"], "all bodies, block sizes, buffer sizes and server deviations",
  "The tests use a few bodies against the library's own server.",
  CLI, [("coap_client_exchange_blockwise2", "lib/src/coap_client.c")], CLI_OBS, CLI_T, CLI_BOUND)
P("P19", "End to end, applications see each request once, bodies whole, and no losses",
  """With the library at both ends of a network that loses, duplicates and delays datagrams, the server's application is only
  given requests that a client sent, and each of them once as long as the network does not replay old datagrams. An exchange
  that succeeds returns the response the application produced for that very request; a download that succeeds is exactly the
  resource's body; an uploaded body is delivered whole, at most once, and a successful upload means it was delivered. As long as at
  most three datagrams of an operation with confirmable requests are lost, the operation succeeds.""",
  ["schedules", "fault_sequences", "histories"],
  "all patterns of loss, duplication and delay, all sequences of operations, several clients at once",
  "The tests run both ends over loopback, where nothing is lost, late or doubled.",
  SRV + CLI, [("client and server together", "lib/src/coap_client.c coap_client_exchange*, lib/src/coap_server.c coap_server_run")],
  ["calls of both applications", "datagrams", "virtual time"],
  "client, network and server together (SystemMC.tla, SystemTrace.tla over Client.tla and Server.tla)",
  BOUND + "SystemMC is explored exhaustively for two to three operations with abstracted time and one retransmission; all fates of the first "
  "four/six datagrams of an operation are run in the real code, longer patterns and several clients sampled. UDP over IPv4 build. ")
P("P06", "Whatever is taken is given back once, whatever fails",
  """Every pool buffer, socket and timer that a client or server takes is given back exactly once: a client holds none between
  operations beyond its socket and timer, and destroying a client or server leaves none. When an allocation fails or a
  system call that creates an endpoint fails, at whatever point, the operation at hand fails cleanly (an error or no answer): nothing is
  leaked, released twice or used after release, the server keeps running, and requests that arrive once memory is
  available again are served normally.""",
  ["fault_sequences", "histories"], "every single allocation that fails, bursts of failures, exhausted pools, failures while creating endpoints",
  "The tests never exhaust memory and never look at the pools.",
  SRV + CLI + ["lib/src/coap_msg.c", "lib/src/coap_mem.c"],
  [("transaction life cycle", "lib/src/coap_server.c coap_server_trans_create / _destroy / _clear_req / _clear_resp"),
   ("option and payload buffers", "lib/src/coap_msg.c coap_msg_op_new / coap_msg_copy / coap_msg_destroy"),
   ("set-up", "lib/src/coap_server.c coap_server_create, lib/src/coap_client.c coap_client_create")],
  ["allocations and releases of the three pools", "descriptors opened and closed", "outcome of operations"],
  "resource ownership (ResTrace.tla) and of the system (SystemTrace.tla)",
  BOUND + "Every single allocation failure of seven base histories is enumerated; bursts and small pools are sampled. UDP over IPv4 build. ")
HTTP_F = ["proxy/common/src/http_msg.c", "proxy/common/include/http_msg.h"]
P("P20", "Every byte string is read as exactly one HTTP message, incomplete, or invalid",
  """For every byte string, parsing an HTTP message yields either the start line fields, the headers in order (names and
  values without surrounding white space, continuation lines joined), and the exact body as delimited by Content-Length or the
  chunked coding (trailers included as headers), together with the exact number of bytes the message occupies; or says that more bytes are needed; or refuses it.
  Every proper prefix of a valid message needs more bytes, and bytes behind it change nothing. A Content-Length that is
  not a number and a chunk without a size or line end are refused, and nothing is read outside the given bytes.""",
  ["inputs", "histories"], "all byte strings, all prefixes and continuations of them",
  "The tests parse a few dozen complete messages.",
  HTTP_F, [("http_msg_parse and its section parsers", "proxy/common/src/http_msg.c")],
  ["return value and accessors of the message"],
  "HTTP/1.1 message syntax as the proxy accepts it (Http.tla)",
  BOUND + "Messages are sampled structurally, with every prefix of each; lengths beyond 1e9 may be refused or incomplete. ")
P("P21", "HTTP messages are written exactly, cut off at the end of the buffer",
  """For every start line, headers and body, generating an HTTP message writes exactly its text, cut off where the
  buffer ends and null-terminated, and returns the length of the complete text; the same holds for chunks, the last chunk and
  trailers. Nothing is ever written outside the buffer, whatever its size, and parsing what was written gives the message back.""",
  ["inputs"], "all messages and all buffer sizes",
  "The tests generate fixed messages into ample buffers.",
  HTTP_F, [("http_msg_generate, http_msg_generate_chunk, _last_chunk, _trailer", "proxy/common/src/http_msg.c")],
  ["return value", "bytes of and around the buffer"],
  "HTTP/1.1 message text (Http.tla)",
  BOUND + "Messages are sampled; for each, every buffer size around the boundaries is tried. ")
P("P22", "URIs are split, decoded, copied and written back exactly as RFC 3986 prescribes",
  """For every string, parsing a URI yields exactly the components RFC 3986 delimits (scheme, userinfo, host, port, path, query, fragment,
  each present or absent, brackets of an IPv6 host removed) with percent-encodings decoded, or refuses it if an encoding is invalid; separators inside
  a later component never split an earlier one. Setting a component changes only that component, and a copy has equal components whichever
  of them are absent. Generating writes the encoded text, cut off at the end of the buffer between characters, never beyond it, and returns its full length;
  reading that text back gives the same components.""",
  ["inputs", "histories"], "all strings, all histories of calls, all buffer sizes",
  "The tests use some forty well-formed URIs and ample buffers.",
  ["proxy/common/src/uri.c", "proxy/common/include/uri.h"],
  [("uri_parse and its component parsers", "proxy/common/src/uri.c"), ("uri_generate, uri_copy, uri_set_*", "proxy/common/src/uri.c")],
  ["return value and components", "bytes written"],
  "URI references (Uri.tla, UriMC.tla)",
  BOUND + "All strings of up to 3/4 characters of a boundary alphabet behind three heads are enumerated by TLC and replayed; longer ones sampled. "
  "An empty scheme or host counts as absent. ")
CROSS_F = ["proxy/common/src/cross.c", "proxy/common/include/cross.h"]
PROXY_F = ["proxy/http_coap/src/connection.c", "proxy/http_coap/include/connection.h", "proxy/common/src/data_buf.c"] + CROSS_F + HTTP_F
P("P23", "HTTP and CoAP messages are mapped to each other without loss, gain or mix-up",
  """Every HTTP request maps to one CoAP request with the same method, exactly the URI's host, port, path segments and
  query arguments as options (percent-decoded once), the options its headers stand for, and exactly its body (as payload up to 1024 bytes, else to be
  transferred blockwise); or is refused with the right status: 501 unknown method, 400 bad URI, 406 unacceptable Accept, 502 what cannot be represented.
  Every CoAP response with a known code maps to an HTTP response with the corresponding status, the headers its options stand for, its exact
  body and a matching Content-Length; others to 502. Nothing in a CoAP message can add or split HTTP headers, and the URI rebuilt from options names
  the same resource or is refused if it does not fit.""",
  ["inputs"], "all HTTP requests, all CoAP responses, all URIs and option lists",
  "The tests convert a few dozen fixed messages.",
  CROSS_F, [("cross_req_http_to_coap, cross_resp_coap_to_http, cross_uri_http_to_coap, cross_uri_coap_to_http", "proxy/common/src/cross.c")],
  ["converted message", "body", "status code"],
  "HTTP/CoAP mapping (Cross.tla over Msg, Http, Uri; CrossMC.tla)",
  BOUND + "All URIs of up to 4/5 characters of a boundary alphabet are explored in CrossMC; all 2.xx/4.xx/5.xx codes enumerated; messages sampled structurally. "
  "Numeric options are decimal text, as the proxy writes them; only text/plain is known. ")
P("P24", "The proxy answers each request once, in order, with its own server's response",
  """However the bytes of a client's requests are cut into pieces or run together, a proxy connection forwards each complete request exactly as
  converted, to the CoAP server its URI names (default ports 5683 and 5684), over one CoAP client that is kept while the target stays the same and replaced when it
  changes, blockwise if the body or the response needs it; and answers it with exactly one complete HTTP response, in order: the converted CoAP response with its whole
  body, 504 after a timeout, 502 for a bad message, 501 for other failures, and the refusal's status if it was not forwarded. A request that is not HTTP or longer than the
  receive buffer, a failing CoAP client or write, and the end of input each end the connection after everything before was answered; the CoAP client is given back and the socket closed once.""",
  ["inputs", "histories", "schedules"], "all streams of requests, cuts of them, results of exchanges, and connection histories",
  "The repository has no test of the connection module.",
  PROXY_F, [("connection_recv, connection_process, connection_coap_exchange, connection_send, connection_thread_func", "proxy/http_coap/src/connection.c")],
  ["bytes received and sent", "calls of the CoAP client", "closing of the socket"],
  "a proxy connection (Proxy.tla, ProxyMC.tla, ProxyTrace.tla)",
  BOUND + "ProxyMC explores all sequences of two/three of five requests, cut anywhere; the real code is run on sampled connections, all pairs of 30 targets and lengths "
  "around every buffer limit. TLS socket and CoAP client are scripted stand-ins. ")
P("P25", "A proxy connection survives every failing allocation without leak or garbage",
  """Whichever heap allocations fail while a proxy connection handles requests, the proxy never crashes, uses released memory
  or leaks: the failure either turns the answer to that request into a well-formed HTTP error response or ends the connection, with the CoAP client given back and the socket closed exactly once;
  no request is ever forwarded altered or twice and no altered or truncated response is returned.""",
  ["fault_sequences"], "every allocation that can fail, singly and in bursts",
  "The tests never make an allocation fail.",
  PROXY_F + ["proxy/common/src/uri.c"], [("error paths", "proxy/http_coap/src/connection.c, proxy/common/src/http_msg.c, uri.c, cross.c")],
  ["bytes sent", "calls of the CoAP client", "heap and pool memory held"],
  "a proxy connection with failures (ProxyRes.tla)",
  BOUND + "Every single failing allocation of four base connections is enumerated, bursts sampled. Allocations inside libc do not fail. ")
P("P26", "Configuration files mean exactly what they say, and errors are located",
  """For every text, reading a configuration either performs exactly the assignments it contains (the last one for a section and name wins, values word for word, comments and white
  space ignored, with or without a final line end) or reports whether it is a lexical or a syntax error and the line and column where it occurs; nothing outside the text is read. Entries set by calls and by files mix, a get returns the
  latest value or nothing, and an assignment that fails leaves the earlier value. The proxy's parameters are the file's values or the documented defaults; a file that is missing, malformed or has an
  unknown log level is refused with nothing left allocated. Each error code is described by its own text.""",
  ["inputs", "histories"], "all texts and histories of sets and gets",
  "The tests read some thirty texts, nearly all ending in a newline.",
  ["proxy/common/src/config.c", "proxy/common/include/config.h", "proxy/http_coap/src/param.c"],
  [("config_parse, config_set, config_get, config_strerr", "proxy/common/src/config.c"), ("param_create", "proxy/http_coap/src/param.c")],
  ["return values", "line and column", "values got", "heap memory held"],
  "configuration language (Config.tla, ConfigMC.tla, ConfigTrace.tla)",
  BOUND + "All texts of up to 3/4 characters of a boundary alphabet behind three heads are enumerated by TLC and replayed; longer texts and histories sampled. "
  "Which assignments remain after a failed parse is not specified. ")
P("P27", "The registrar holds exactly the registered clients with their latest address",
  """After every history of registrations and removals, the registrar of the registration server holds exactly one entry for each client whose last operation was a registration,
  in order of first registration, with the address registered last; adding reports whether the client was new, removing an unknown client is refused and changes nothing, and everything is released at the end.""",
  ["histories"], "all histories of registrations and removals",
  "The repository has no test of the registrar.",
  ["sample/reg_server/registrar.c", "sample/reg_server/registrar.h"],
  [("registrar_add, registrar_del, registrar_find", "sample/reg_server/registrar.c")],
  ["return values", "entries in both directions", "heap memory held"],
  "the registrar (Registrar.tla, RegistrarMC.tla)",
  BOUND + "All histories of 4/6 operations over three clients are enumerated by TLC and replayed; longer ones sampled. Identifiers of up to 31 bytes. ")
DTLS = ("GnuTLS is replaced by a stand-in that counts sessions, credentials and certificates and plays the handshake, certificate, records and alerts a scenario asks for; "
        "the cryptography itself is not modelled. ")
P("P28", "With DTLS, only authenticated peers are served and no session leaks",
  """A DTLS client exists only if its handshake completed within 60 attempts and the server's certificate is trusted, issued by a found authority, not revoked, X.509, within its
  validity period to the second and, where a name is required, in that name; the key, certificate, trust and revocation files given are the ones loaded. A DTLS server passes to the application only requests of endpoints whose handshake has completed
  and, where clients are authenticated, whose certificate passes the same tests. A handshake is given up after at most 60 s, on an alert, or when another endpoint's datagram arrives, and leaves nothing behind; the number of sessions is
  that of the endpoints remembered, the least recently active of 8 giving way to a newcomer; every established session that ends (alert, unreadable record, error, eviction, shut-down) is closed towards its own peer exactly once; rubbish is ignored.
  Whatever call fails while a client or server is set up, the error is reported and every resource released exactly once.""",
  ["inputs", "histories", "fault_sequences"], "all certificates, handshake outcomes, orders of datagrams of any number of endpoints, and failing calls",
  "The DTLS tests run one well-behaved client against one server with valid certificates; they never show a bad certificate, a second endpoint, an alert or a failing call.",
  ["lib/src/coap_client.c", "lib/src/coap_server.c"],
  [("coap_client_dtls_create, _handshake, _verify_peer_cert, _destroy", "lib/src/coap_client.c"),
   ("coap_server_dtls_create, coap_server_trans_dtls_create, _handshake, _verify_peer_cert, pull and push functions, coap_server_exchange", "lib/src/coap_server.c")],
  ["result of creation", "files loaded", "datagrams", "handler calls", "live sessions, credentials, certificates and descriptors"],
  "DTLS admission and sessions (Dtls.tla, DtlsMC.tla, DtlsTrace.tla, DtlsServerTrace.tla)",
  BOUND + DTLS + "All sequences of 3/4 of 12 inputs from two starting points are enumerated by TLC and replayed; DtlsMC explores three endpoints, two places and two flights to depth 9/12; longer histories are sampled. "
  "Retransmissions that fall due while a handshake is pending are not examined (the server does not serve timers then). ")
P("P29", "With DTLS, client and server give the same service as over plain UDP",
  """In the DTLS build, every exchange, retransmission, blockwise transfer, deduplication, separate response, rejection and error of client and server is as specified for the plain build, each CoAP message travelling in exactly one record of the session of its endpoint.
  In addition an alert or the end of the session ends the client's exchange with ECONNRESET, an unreadable record with an error, and what is not a record of the session is ignored without disturbing the exchange or its timers; after any of these the next exchange works.""",
  ["inputs", "schedules", "histories"], "all peers' datagrams, timings and fault patterns",
  "The DTLS tests repeat the exchanges of the plain build over a loopback that loses, delays and reorders nothing.",
  ["lib/src/coap_client.c", "lib/src/coap_server.c"],
  [("coap_client_send, coap_client_recv", "lib/src/coap_client.c"), ("coap_server_trans_send, coap_server_trans_recv, coap_server_exchange", "lib/src/coap_server.c")],
  ["datagrams and their time", "handler calls", "result, response and body of exchanges"],
  "client and server over DTLS (ClientTrace.tla, ServerTrace.tla, DtlsServerTrace.tla)",
  BOUND + DTLS + "The scenarios are those of P07 to P18 in smaller number, plus alerts, unreadable records and rubbish. ")
P("P30", "A TLS socket is open only to an authenticated peer, in time, and leaks nothing",
  """Opening a TLS connection or accepting one succeeds exactly when nothing failed, the handshake completed within the timeout and (for a client always, for a server where clients are authenticated) the peer's certificate is trusted,
  issued by a found authority, not revoked, X.509, within its validity period to the second and, where a name is required, in that name; the addresses of a host are tried in order until one answers. Any failing call, alert, interrupt or timeout is reported
  as what it is and leaves no descriptor, session, certificate or address list behind. A read gives the bytes that came, in order, 0 at the end of the stream, or the error; a write hands over the caller's bytes in order, repeating an unfinished record unchanged;
  the "full" forms transfer everything or say why not. No operation waits longer than the socket's timeout for each step of progress, nor on data that has already arrived. Closing exchanges close alerts within the timeout and releases everything once.""",
  ["inputs", "schedules", "fault_sequences"], "all sequences of answers of peer and network, all certificates and all failing calls",
  "The TLS tests run one good connection over loopback; they do not meet bad certificates, interrupts, partial records, rehandshakes or failing calls.",
  ["proxy/common/src/tls_sock.c", "proxy/common/src/tls.c"],
  [("tls_sock_open, _handshake, _verify_peer_cert, _read, _write, _read_full, _write_full, _rehandshake, _close; tls_ssock_open, _accept", "proxy/common/src/tls_sock.c"),
   ("tls_init, tls_client_create, tls_server_create", "proxy/common/src/tls.c")],
  ["results", "bytes transferred", "time taken", "live descriptors, sessions, certificates, credentials"],
  "TLS sockets (Tls.tla, TlsMC.tla, TlsTrace.tla)",
  BOUND + DTLS + "Every sequence of 3/4 of 8 outcomes and waits is enumerated by TLC and replayed for every operation; TlsMC explores all orders of answers up to 10/13 events. A handshake that waits for the peer's buffer to empty (write direction) is not distinguished from one that waits for data. ")
P("P31", "Stored TLS sessions are the latest ones, survive as promised and stay deleted",
  """Looking up a session gives exactly the data last stored under that server address or session ID, or nothing; nothing only if it was never stored, was deleted, was too large, or 50 new entries have been made since. A deleted session is not found again.
  A client stores the session of a connection only when both sides have sent their close alerts, and offers it when it next connects to the same address; a server stores and looks up sessions through the store given to its connections.
  Operations of concurrent connections on the server's store do not mix their data.""",
  ["histories", "schedules"], "all histories of stores, look-ups and deletions, of any length",
  "The tests do not look into the session stores.",
  ["proxy/common/src/tls.c", "proxy/common/src/tls_sock.c"],
  [("tls_client_cache_*, tls_server_cache_*, tls_client_set, _get, tls_server_set, _get, _delete", "proxy/common/src/tls.c"), ("tls_sock_open_, tls_sock_close", "proxy/common/src/tls_sock.c")],
  ["results of look-ups, stores and deletions", "session data offered to the peer"],
  "session stores (Tls.tla, TlsCacheMC.tla, TlsTrace.tla)",
  BOUND + DTLS + "Every history of 3/4 of 12 operations on two keys is enumerated by TLC and replayed; longer ones, and those that fill the store, are sampled. The client's store hands out a pointer into itself: concurrent use of one client by several threads is not examined. "
  "Concurrency of the server's store is tested with real threads (torn entries), not exhaustively. ")
P("P32", "The listener serves each accepted connection once and leaks nothing",
  """Every connection the proxy's listener accepts is handed to exactly one thread of its own, with the listener's parameters, its number and a connection number that grows; or, when memory or a thread is lacking, is closed and released.
  A failed or timed-out accept does not stop the listener and leaves nothing behind; nothing is accepted after it was told to stop. The listener ends only when told so or for want of resources, and then closes its server socket exactly once and
  holds nothing. Whatever fails while it is set up is reported and leaves nothing open or allocated.""",
  ["histories", "fault_sequences"], "all sequences of accepts and failures",
  "The repository has no test of the listener.",
  ["proxy/http_coap/src/listener.c", "proxy/http_coap/include/listener.h"],
  [("listener_new, listener_run, listener_thread_func, listener_delete", "proxy/http_coap/src/listener.c")],
  ["results of creation and start", "connections, threads and closed sockets", "memory and sockets held at the end"],
  "the listener (ListenTrace.tla)",
  BOUND + "Every sequence of up to 3/4 accepts of five kinds with every single failing allocation, connection or thread is run; longer ones are sampled. The sockets, connections and threads the listener uses are recorded stand-ins. "
  "After a failure for want of resources the listener is free to stop or to go on. ")
P("P33", "Over IPv6, client and server give the same service, plain and with DTLS",
  """In the IPv6 builds of the library, with and without DTLS, every exchange, retransmission, blockwise transfer, deduplication, separate response, rejection and error of client and server is as specified for the IPv4 build.
  Endpoints are told apart by port, by every part of the IPv6 address and by interface: no endpoint's datagrams are answered to, confused with or charged to another, and each answer goes to the complete address its request came from.""",
  ["inputs", "schedules", "histories"], "all peers' addresses and datagrams, timings and fault patterns",
  "The IPv6 tests repeat single exchanges from one address, ::1, over loopback.",
  ["lib/src/coap_client.c", "lib/src/coap_server.c", "lib/include/coap_ipv.h"],
  [("coap_server_find_trans, coap_server_accept, coap_server_trans_create, coap_server_trans_send, _recv, coap_server_create", "lib/src/coap_server.c"),
   ("coap_client_create, coap_client_dtls_create", "lib/src/coap_client.c"), ("coap_ipv_sockaddr_in_t", "lib/include/coap_ipv.h")],
  ["datagrams, their addresses and time", "handler calls", "result, response and body of exchanges"],
  "client and server over IPv6 (ClientTrace.tla, ServerTrace.tla, SystemTrace.tla, DtlsServerTrace.tla)",
  BOUND + DTLS + "The scenarios are those of P07 to P19 in smaller number, with up to 40 endpoints that differ in an early or the last byte of the address, the interface or the port. ")
