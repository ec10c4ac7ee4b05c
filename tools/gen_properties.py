import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
PR="socket-io-protocol/src/"; CL="socket-io-client/src/"
DE=PR+"socket/de.rs"; SER=PR+"socket/ser.rs"; ENG=PR+"engine.rs"; ARGS=PR+"socket/args/mod.rs"; DA=PR+"socket/args/deserialize_attachments.rs"; SA=PR+"socket/args/serialize_attachments.rs"; SM=PR+"socket/mod.rs"
LIB=CL+"lib.rs"; CON=CL+"connection.rs"; REC=CL+"receiver.rs"; EM=CL+"emit.rs"; CB=CL+"callbacks.rs"; OS="owned_subslice/src/lib.rs"

p("C01","Well-formed packets decode to exactly what the peer encoded",
 "For every well-formed socket.io text packet (any packet type, attachment count, namespace without a comma, ack id that fits 64 bits, and JSON argument list with any JSON whitespace between its brackets; an acknowledgement may carry no arguments), decoding succeeds and reports exactly the encoded type, namespace, id and arguments, in order and with unchanged JSON values (floating-point numbers as the JSON library reads them). A binary packet that declares attachments first reports exactly how many it still needs, and once given that many binary messages yields the packet with those bytes substituted. A packet without a namespace belongs to \"/\".",
 ["inputs"],"every well-formed packet text: 6 types x namespaces (incl. non-ASCII, brackets, digits) x ids up to 2^64-1 x argument lists of any arity, nesting, escaping and whitespace x attachment lists",
 "Tests decode 8 fixed strings, all ASCII, at most three arguments; the parser is a regular expression over arbitrary JSON, so ambiguity between namespace, id and arguments only shows on inputs nobody wrote down.",
 [DE,SM,ARGS],[("regex header grammar","DESERIALIZE_RE in socket/de.rs"),("argument ranges from RawValue offsets","parse_args in socket/de.rs"),("two-step binary decode","deserialize / deserialize_partial")],
 ["return value of the packet decoder","namespace(), data(), argument accessors"])
p("C02","Malformed packets are refused, never half-decoded",
 "Every text that is not a well-formed socket.io packet (unknown type, missing or surplus header fields, numbers that do not fit, white space or anything else around the header or after the argument list, broken JSON, an event without arguments, an acknowledgement without id, data on a connect or disconnect packet, a non-binary packet that declares attachments, a binary packet that declares none) is refused with an error. So is a binary message where no attachment is expected, and a binary packet completed with too few, too many or non-binary attachments. No such input is ever turned into a packet (malformed arguments of a binary packet may be refused as late as with its last attachment).",
 ["inputs"],"every text outside the packet grammar, and every attachment list that does not match its header",
 "The tests contain no rejected socket.io packet at all; the refused language is infinite.",
 [DE,SM],[("anchored regex","DESERIALIZE_RE"),("post-parse checks","deserialize_dataless / deserialize_event / deserialize_binary / deserialize_partial")],["Result of the packet decoder"])
p("C03","No server input can panic or wedge the library",
 "Whatever text or binary messages a server sends, in whatever order and however large, decoding them, reading, converting or printing the resulting packets and arguments, and processing them in a connected client (with logging enabled) never panics and always terminates. The worst outcome is an error returned to the caller or a session that ends with an error.",
 ["inputs","histories"],"every sequence of WebSocket messages; every accessor on every decoded packet, including arguments that JSON accepts but cannot represent (deep nesting, huge numbers, lone surrogates) and placeholders that point nowhere",
 "Tests only feed valid input and never print an argument; panics hide behind unwrap on inputs a test author does not think of.",
 [DE,ARGS,DA,ENG,SM,REC,CON],[("error returns instead of unwrap","socket/de.rs, args/mod.rs, engine.rs"),("error ends the session","process_websocket in connection.rs")],["panic hook","results of decode and accessors","result of close()"])
p("C04","Everything the library encodes is a well-formed packet",
 "For every event name, namespace (a slash and anything without a comma), optional ack id, binary mode and list of serializable arguments, the encoded output is one text message followed by exactly as many binary messages as its header declares, is valid UTF-8 and valid JSON, and parses back (by the protocol grammar) to exactly that packet type, namespace, id, event name and argument count. Placeholders are numbered 0, 1, 2, ... in order of appearance, each referring to the binary message with that index, and every message starts with the message-type header of its kind.",
 ["inputs"],"all combinations of event/ack, text/binary, namespace, id 0..2^64-1, and argument values of every serde shape",
 "Tests check five fixed outputs with at most one attachment in one argument.",
 [SER,SA,ENG,ARGS],[("header writer","serialize_header in socket/ser.rs"),("attachment numbering across arguments","serialize_arg_binary / Placeholder"),("finish()","PacketBuilder::finish")],["messages returned by the packet builder"])
p("C05","Arguments survive an encode/decode round trip",
 "Any serializable argument list that the library encodes (text or binary mode, event or ack) and decodes again yields values equal to the originals (floating-point numbers to within the rounding of the JSON library), whether read as typed values or as JSON values. Byte sequences keep their exact contents and order, also when they sit deep inside other values or next to sequences that only begin with bytes.",
 ["inputs"],"argument values over structs, enums of all four variant kinds, tuples, maps (string, integer and escaped keys), options, nested and heterogeneous sequences, byte strings, floats, unicode strings",
 "No test encodes and decodes the same value; the byte-sequence detection has states only reached by mixed sequences.",
 [SA,DA,SER,DE,ARGS],[("byte-sequence detection","SeqWrapper in serialize_attachments.rs"),("placeholder substitution","BinaryVisitor::visit_map in deserialize_attachments.rs")],["typed deserialize() and to_json_value() of the decoded packet"])
p("C06","A failed argument leaves the packet being built unchanged",
 "If adding an argument to an outgoing event or acknowledgement fails, at whatever point of its serialization, the finished packet is identical to the one produced had the failing argument never been added: same text, same attachments, same numbering. This holds for any position, any number of failures, and both text and binary mode.",
 ["inputs","fault_sequences"],"every interleaving of succeeding and failing arguments, with the failure after any amount of partial output and any number of attachments already captured",
 "No test makes an argument fail.",
 [SER,SA],[("truncate on error","PacketBuilder::serialize_arg"),("first-argument flag","PacketBuilder.first")],["messages returned by the packet builder"])
p("C07","Attachments do not change how arguments are read",
 "Reading an argument of a packet that has attachments gives the same result as reading the same JSON with each placeholder object replaced by the byte array it refers to: values without placeholders read exactly as they would without attachments, for every target type. A byte attachment can be read as owned bytes, borrowed bytes, a number sequence or JSON, and a placeholder whose index is out of range, missing or not a number gives an error from typed and JSON access alike.",
 ["inputs"],"every (JSON argument, attachment list, target type) triple, including maps whose first key is escaped or numeric, nested enums, options and untagged content",
 "Tests deserialize four fixed structs; the wrapping deserializer forwards some 40 methods and tests reach a handful.",
 [DA,ARGS],[("BinaryDeserializer forwarding","deserialize_attachments.rs"),("fill_placeholders_value","args/mod.rs")],["deserialize::<T>() and to_json_value()"])
p("C08","The engine.io session automaton is enforced",
 "For every sequence of incoming messages, the engine.io decoder accepts exactly one open packet, as the first packet of the session; refuses ping, pong, close, text and binary messages before it; and refuses every message after a close packet. Between the two it decodes each message to the packet its header announces, and refusing a message changes nothing: the session continues exactly as if that message had not arrived.",
 ["histories","inputs"],"every sequence of text, binary and control messages, valid and invalid, of any length",
 "Tests drive two sequences of length one and two.",
 [ENG],[("state machine","Decoder.decode in engine.rs")],["results of successive decode calls"],
 [dict(name="state",meaning="before open / active / closed",where="engine.rs Decoder")])
p("C09","Engine.io framing is lossless",
 "Encoding any text or byte payload as an engine.io message and decoding it in an open session yields exactly that payload, nothing added or removed; heartbeat packets encode to messages that decode as the same heartbeat packet; an open packet's session id and timing values are reported exactly as sent.",
 ["inputs"],"every payload (empty, multi-byte, large, header-looking) and every open document",
 "Tests decode one fixed open packet and no message payloads.",
 [ENG,OS],[("one-byte header","encode_* / package_* / Decoder in engine.rs")],["decoded payloads"])
p("C10","An owned subslice is exactly its window, and narrowing never widens",
 "An owned string or byte buffer restricted to a range shows, compares, prints and mutates exactly the elements in that range. Restricting it again selects relative to the current window and is cut off at its end, so no sequence of restrictions ever exposes anything outside the window it started from; equality depends on the visible contents only.",
 ["inputs","histories"],"every buffer, window, and chain of sub-windows (including ends past the window)",
 "One test takes one window of one string; sub-windows, mutation and comparison are untested.",
 [OS],[("relative offset and clamp","OwnedSubslice::subslice")],["deref, deref_mut, ==, Debug/Display"])
p("C11","Each event reaches exactly the right callback, once, in order",
 "In a connected client, every event the server sends invokes the callback registered for its namespace and event name, or else the fallback of that namespace, or else nothing; it does so exactly once, in the order the server sent the events, with exactly the arguments sent. Other namespaces' or events' callbacks are never invoked for it.",
 ["histories","schedules","inputs"],"every traffic mix over namespaces, events, text and binary packets, every chunking of the byte stream, every interleaving with client activity",
 "The only client test calls the registry directly; the receive path has no test at all.",
 [REC,CB,CON],[("lookup with fallback","Callbacks::get_event"),("dispatch","Receiver::process_packet")],["callback invocations recorded in the application, against the server's send log"])
p("C12","Callback registration changes take effect atomically",
 "Setting, replacing or clearing an event or fallback callback, while events are being received and from inside callbacks, takes effect at one instant between the call and its return: an event the server sends after the call has returned is delivered according to the new registration, and every event is delivered according to the registration at some instant between its sending and its delivery. Changing one registration never affects any other event, fallback, namespace or outstanding acknowledgement.",
 ["schedules","histories"],"every sequence of registration changes interleaved with arriving events, on one thread and on several",
 "The registry is tested single-threaded on three entries with no traffic.",
 [CB,LIB,REC],[("registry under one mutex","Client.callbacks"),("per-namespace tables","Callbacks")],["registration calls and callback invocations on one logical clock"])
p("C13","Callbacks may use the client freely",
 "Event and acknowledgement callbacks run without the client's internal locks held: a callback may register and clear callbacks, emit events with acknowledgement callbacks and send acknowledgements, and other threads may do so while a callback is running, without deadlock. A callback that panics may end its session, but does not make later registrations or emissions on the client panic.",
 ["schedules"],"every client operation from inside every kind of callback and concurrently with a running callback",
 "No test runs a callback.",
 [REC,CB],[("cloned callback handles so the registry lock can be released","callbacks.rs EventCallback"),("lock scope","Receiver::process_packet")],["calls entered and returned from within callbacks; threads that stop making progress"])
p("C14","Each acknowledgement reaches its own callback at most once",
 "For every event emitted with an acknowledgement callback, that callback runs exactly once if the server acknowledges the event (same namespace and id) during the session, never otherwise, and receives exactly the arguments of that acknowledgement. Ids of events awaiting acknowledgement in one namespace are never reused, and an acknowledgement that matches no waiting event in its namespace runs no callback.",
 ["histories","schedules"],"every interleaving of emits over namespaces with acknowledgements in any order, duplicated, misdirected, binary or empty, including very many outstanding",
 "No test emits; the registry test takes one ack once.",
 [EM,CB,REC,LIB],[("id allocation","EventBuilder::callback"),("register before send","EventArgsBuilder::send"),("remove on take","Callbacks::get_and_clear_ack")],["ids on the wire; ack callback invocations"])
p("C15","Events that ask for an acknowledgement can be answered exactly",
 "The callback for an event that carries an id is given a reply handle, and for an event without id none; replying sends exactly one acknowledgement packet with that event's namespace and id and the given arguments, whether sent at once, later, out of order or from another task, in text or binary form. Unanswered events send nothing.",
 ["histories","schedules"],"every id in 0..2^64-1, namespace, reply order and mode",
 "No test exercises replies.",
 [REC,EM,SER],[("AckBuilder","emit.rs"),("id forwarding","Receiver::process_packet")],["ack packets seen by the server"])
p("C16","Emitted packets reach the server whole, once and in order",
 "Every packet emitted on a healthy connection (events, acknowledgements and raw packets, from any task or thread) arrives at the server exactly once, packets of one emitting thread in emission order, with its arguments unchanged, and with the messages of one packet adjacent: nothing, not even a heartbeat reply, appears between a binary packet's text and its attachments. This holds under any transport chunking and back-pressure, and across a concurrent close for packets emitted before it.",
 ["schedules","histories","fault_sequences"],"every interleaving of emitting tasks with incoming traffic, partial writes and stalls",
 "No test sends a packet over a connection.",
 [CON,EM,REC],[("one queue entry per packet","send channel of message vectors"),("send loop","process_websocket")],["the server's receive log"])
p("C17","Every heartbeat is answered exactly once",
 "While a session is open, each engine.io ping from the server is answered by exactly one pong, and no pong is sent without a ping, at any moment of the session: idle, under load in either direction, and between a binary packet and its attachments. Heartbeat traffic never alters how packets are assembled or delivered, and a WebSocket-level ping is answered as well.",
 ["histories","schedules"],"pings at every position of every traffic mix",
 "No test sends a ping.",
 [REC,ENG,CON],[("pong queued per ping","Receiver::process_message")],["pongs in the server's receive log"])
p("C18","Binary packets are reassembled exactly",
 "A binary event or acknowledgement is delivered when its last declared attachment arrives, not before, with exactly its own attachments in order; heartbeats may arrive in between; the next packet starts afresh. A text message where an attachment is due never delivers any packet built from it.",
 ["histories","inputs"],"every sequence of binary and text packets with any attachment counts and sizes, heartbeats in any gap",
 "Reassembly in the receive path has no test.",
 [REC,DE],[("in-progress packet","Receiver.in_progress / InProgress")],["callback invocations against the server's send log position"],
 [dict(name="in_progress",meaning="binary packet waiting for attachments",where="receiver.rs")])
p("C19","Connecting either succeeds or fails cleanly, within ten seconds",
 "Connecting resolves with a client if and only if the transport could be opened and the WebSocket handshake and a valid engine.io open packet arrive in time; in every other case (invalid URL, connector error, refused or corrupted handshake, connection closed or failing at any byte, wrong first packet, silence) it resolves with an error and never panics. It resolves at most ten seconds after the transport was opened, and with an error the transport is released.",
 ["fault_sequences","inputs","schedules"],"a fault (close, I/O error, garbage, stall) at every byte of the connection establishment, and every delay",
 "No test connects.",
 [CON,LIB,REC],[("one timer over both phases","Connection::new"),("open signal","Receiver.open")],["result of connect and the virtual clock"])
p("C20","Closing flushes, shakes hands, and ends within ten seconds",
 "Closing sends everything emitted before it, then a WebSocket close frame and nothing after it; packets that still arrive are delivered; it succeeds once the server completes the close, returns the session's error if it failed, and returns a timeout error if the server does not complete the close within ten seconds. Closing again reports that the client is already closed, and after closing, whatever the outcome, the transport is released and no callback runs any more.",
 ["schedules","fault_sequences","histories"],"close at every point of every traffic mix, with every server reaction (prompt, slow, silent, abrupt, already closed)",
 "No test closes a connection.",
 [CON],[("close signal and drain","Connection::close / process_websocket"),("timer","Connection::close")],["wire log, result of close, virtual clock, transport drop"])
p("C21","A protocol or transport failure ends the session at that point",
 "When the server violates the protocol (malformed, premature or unexpected packet) or the transport fails, everything received before that point has been delivered, nothing received after it (or, for malformed arguments of a binary packet, after its last attachment) is ever delivered, the transport is released, and closing the client reports the error. Emitting on a client whose session has ended is harmless.",
 ["fault_sequences","histories"],"each kind of violation and I/O failure injected at each position of a valid session",
 "No test runs a session.",
 [CON,REC],[("error ends the task","process_websocket"),("decoder state","engine.rs")],["callback invocations, result of close(), transport drop"])
p("C22","Dropping the client releases everything",
 "When a client is dropped, at any moment, its background work stops at its next suspension point, the transport is released, no callback runs afterwards (a packet already being processed excepted) and all registered callbacks (with whatever they captured) are dropped. An acknowledgement callback and what it captured is released once it has run, a replaced or cleared callback once it is no longer in use, and reply handles kept longer than the client stay safe to use.",
 ["schedules","histories"],"drop at every point of every traffic mix, and every registration history",
 "No test drops a live client.",
 [CON,CB,LIB,EM],[("task cancelled with its handle","Connection.handle"),("ownership of callbacks","Callbacks")],["transport drop, drop counters of captured values, live heap"])
p("C23","The URL decides what is dialled and requested",
 "Connecting accepts exactly http, https, ws and wss URLs with a host, and asks the connector to dial the URL's host (an IPv6 address without brackets) and its port or the scheme's default (80 or 443). The handshake request goes to the URL's path with its query parameters kept in order and as written, followed by EIO=4 and transport=websocket, with the URL's authority as Host, in clear for http and ws; for https and wss nothing but TLS to that host is sent. A URL that is not accepted dials nothing.",
 ["inputs"],"every URL over schemes, host kinds, ports, paths, queries, fragments and user info",
 "The test parses three URLs and never looks at the dial target, the path or the query.",
 [LIB,CON],[("scheme mapping","parse_url"),("query parameters","add_socketio_query_params"),("TLS selection","client_async_tls")],["connector arguments, bytes of the handshake"])
p("C24","Traffic in one direction never starves the other",
 "While the server keeps the connection continuously busy with events, packets emitted by the application, heartbeat replies and a close request still go out after a bounded amount of further incoming traffic; while the application keeps the send queue continuously busy, incoming events are still delivered after a bounded number of outgoing packets.",
 ["schedules"],"saturating traffic in either direction with an emit, ping, event or close injected at any point",
 "No test has concurrent traffic; starvation needs a permanently ready source.",
 [CON],[("fair select loop","process_websocket")],["logical distance on the server log between cause and effect"])
p("C25","Memory safety, valid UTF-8 and freedom from data races",
 "No server input, application input or thread schedule makes the library access memory out of bounds or after free, keep using more of it while a session repeats the same traffic, read uninitialised memory, race on memory, or hand out a string that is not valid UTF-8.",
 ["inputs","schedules"],"the workloads of all other properties, executed under an undefined-behaviour interpreter and compiler sanitizers",
 "Tests run without instrumentation and reach neither the receive path nor threads; the code uses unchecked UTF-8 conversion whose precondition is only a comment.",
 [SER,SA,OS,CON,CB],[("unchecked UTF-8 conversions","PacketBuilder::finish, serialize_header"),("mutex-guarded registry","callbacks.rs")],["Miri, AddressSanitizer, MemorySanitizer and ThreadSanitizer reports; live heap of running sessions; explicit UTF-8 validation of every produced string"])
p("C26","Argument lists are consistent views",
 "For every decoded event or acknowledgement, the reported number of arguments, indexed access, iteration and the printed form describe the same list: iteration yields the indexed arguments in order and ends after the last one, indexing past the end yields nothing, and printing shows between brackets each argument's JSON value in compact form (or, where it has no JSON value, its raw text).",
 ["inputs"],"every decoded packet with any number of arguments and attachments",
 "Tests only index position 1 or 2 of fixed packets; iteration and printing are untested.",
 [ARGS,SM],[("Args and ArgsIter","args/mod.rs"),("Display","args/mod.rs, socket/mod.rs")],["len, is_empty, get, iter, Display"])
p("C27","Work stays proportional to traffic",
 "Decoding a text and its attachments, reading or printing the decoded arguments, and encoding a packet take processor time and memory proportional to the size of what is decoded or encoded (a placeholder counts as the bytes it stands for), whether it is well formed or refused. In a session, the average processor time and memory spent on one received message, emission, reply, acknowledgement, heartbeat or registration change do not grow with how many came before it or wait beside it: registered callbacks, outstanding acknowledgements, unsent packets, attachments still to come.",
 ["inputs","histories"],"every packet of any size and shape; every session with any number of messages, registrations, outstanding acknowledgements and queued packets",
 "Tests use packets of a few dozen bytes and sessions of a few messages, where quadratic work cannot be told from linear; in the field it is a peer's way to stall every task of the executor.",
 [DE,SER,ARGS,CB,REC,CON],[("deserialize, deserialize_partial","socket/de.rs"),("Args::get, deserialize","args/mod.rs"),("Callbacks","callbacks.rs"),("receiver and sender loops","connection.rs")],["socket::deserialize, PacketBuilder, Client, polls of the receive and send tasks"])
p("C28","Clients and packets do not affect one another",
 "What a client sends, receives, delivers, returns and releases, and what decoding or encoding a packet yields, depends only on that client's own calls and peer, or on that packet. Other clients of the process, other packets encoded or decoded, and user code of theirs that panics, is abandoned half way or does not return change none of it, whether they come before, run concurrently on other threads, or run within the user code (callbacks, connector, transport, spawner, wakers, serialization, deserialization, drops) that the library is executing. In particular, a client or codec call used from within user code called for another client or packet neither blocks nor panics.",
 ["inputs","schedules","histories"],"every session or packet, with any other sessions and packets of the process around it, nested in user code at any point and concurrent on any thread, failing or not",
 "Tests use one thing at a time in fresh state; state shared behind the API shows only when uses of it overlap, nest, or fail in the middle.",
 [SER,DE,ARGS,SA,LIB,CON,CB],[("per-packet buffers and attachments","PacketBuilder, serializer"),("per-argument attachments","args/deserializer"),("per-client registry and channels","Client, Callbacks, connection loops")],["Client, AckBuilder, connect, packet codec, called from inside every kind of user code and from other threads"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s); assert x['statement'].count('. ')<=2,(x['id'],x['statement'].count('. '))
print(len(P))
