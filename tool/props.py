"""The properties, what claims them, and those this family does not decide."""


def anchors(files, mech, state=(), observe=()):
    return {"files": ["src/" + f for f in files.split()], "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state], "observe_at": list(observe), "hook_needed": None}


ABS = "path-partitioned abstract interpretation of client programs (Herbrand terms + linear arithmetic) against an independent specification encoder"
TRUST = "Assumes the clang 18 front end, the library models in vp/models.py and the independent specification in the rule; an instance the analysis cannot decide raises no alarm and is counted as undecided."

PROPS = [
    {
        "id": "C02",
        "title": "Decoding ends whatever the input, and limits nesting",
        "statement": "Decoding a value from any bytes, at any position and for any signature, ends: every value that is decoded has taken at least one byte of the input (a structure without members, an unknown type code or an empty signature is refused), so each loop of the decoder runs out of input. Values nested far beyond what the specification allows are refused with an exception and do not exhaust the stack; what the specification allows is accepted, however many values stand beside each other.",
        "quantifier": {"over": ["inputs"], "text": "any bytes at any offset for each of the 16 types and any signature inside a container; all 241 codes that are no type; signatures of up to three characters; nesting of ten kinds up to 32 and at 72; rows of up to 100 containers"},
        "why_tests_cant": "An endless loop or an exhausted stack needs hostile input of a particular shape; the tests decode what they encoded.",
        "anchors": anchors("dbus_type.cpp dbus_type_array.cpp dbus_type_struct.cpp dbus_type_variant.cpp dbus_messageistream.cpp", [("loops over contents", "dbus_type_array.cpp unmarshall, dbus_type_struct.cpp unmarshall"), ("nesting counted", "dbus_messageistream.h ContainerScope"), ("next type of a signature", "dbus_type.cpp extractSignature")], [("m_offset", "what has been taken", "dbus_messageistream.h"), ("m_depth", "containers open", "dbus_messageistream.h")], ["exceptions", "bytes taken"]),
        "technique": ABS, "level_note": "Progress is shown by induction over nested values. Between 33 and 71 containers of one kind either answer is accepted. " + TRUST,
    },
    {
        "id": "C03",
        "title": "Every value is encoded exactly as the wire format prescribes, at any offset",
        "statement": "Whatever value of whatever type is written at whatever position of an output stream, the bytes appended are the alignment padding (zeros), length prefixes, contents and terminators the D-Bus wire format prescribes for that type at that position. Array lengths count the elements only, not the padding before the first; a signature too long for its length byte is refused instead of being written wrongly.",
        "quantifier": {"over": ["inputs"], "text": "every value of every basic type, containers of them (arrays, structures, dictionary entries, variants, nested), every start offset modulo 8 and every text length modulo 8"},
        "why_tests_cant": "The tests encode a handful of values at offset 0 or a few offsets; alignment faults show only for particular combinations of type, offset and preceding text length.",
        "anchors": anchors("dbus_messageostream.h dbus_type.cpp dbus_type_array.cpp dbus_type_struct.cpp dbus_type_dictentry.cpp dbus_type_variant.cpp",
                           [("padding before each value", "dbus_messageostream.h pad/pad2/pad4/pad8, write*"), ("array length patched after the elements", "dbus_type_array.cpp marshall")],
                           [("stream.data", "bytes written so far; its length is the current offset", "dbus_messageostream.h")], ["bytes of the output stream"]),
        "technique": ABS, "level_note": "Every instance (type, offset mod 8, text length mod 8, 0-2 elements) is decided for all values and all lengths of that residue. Longer arrays are covered by the same loop body, not by induction. " + TRUST,
    },
    {
        "id": "C04",
        "title": "Decoding returns the encoded value in both byte orders and consumes exactly it",
        "statement": "Reading a well-formed encoded value of any type, in either byte order and at any offset, yields that value and that type, and leaves the input positioned directly after it.",
        "quantifier": {"over": ["inputs"], "text": "every value of every basic type and of representative containers up to three levels deep, both byte orders, every start offset modulo 8, every text length modulo 8"},
        "why_tests_cant": "The tests decode a few fixed buffers, nearly all little-endian and at offset zero; a misplaced alignment or a missing byte swap for one type in one position passes them.",
        "anchors": anchors("dbus_messageistream.cpp dbus_messageistream.h dbus_type.cpp dbus_type_array.cpp dbus_type_struct.cpp dbus_type_variant.cpp dbus_type_string.cpp dbus_type_signature.cpp",
                           [("alignment and byte swap on read", "dbus_messageistream.h read/align"), ("sub-stream per array", "dbus_type_array.cpp unmarshall"), ("element signatures", "dbus_type.cpp extractSignature")],
                           [("m_offset", "offset relative to the message, used for alignment", "dbus_messageistream.h")], ["decoded value re-encoded", "rest of the input"]),
        "technique": ABS, "level_note": "Decided for all values and all text lengths of a residue; container shapes are a fixed list. " + TRUST,
    },
    {
        "id": "C01",
        "title": "Decoding received bytes never reads or writes outside them",
        "statement": "Whatever bytes arrive, however they are divided into deliveries and whatever signatures and lengths they declare, decoding a value or a message accesses only bytes that were received (and the elements a container really has); anything that would need more is refused with an exception.",
        "quantifier": {"over": ["inputs"], "text": "every byte buffer of every length, every read position, every declared length, every type signature; buffers of unknown content and unknown extent"},
        "why_tests_cant": "A test can only try chosen malformed messages; an over-read of a few bytes also goes unnoticed without a sanitizer.",
        "anchors": anchors("dbus_messageistream.cpp dbus_messageistream.h dbus_octetbuffer.cpp dbus_messageprotocol.cpp dbus_type.cpp dbus_type_array.cpp dbus_type_struct.cpp dbus_type_dictentry.cpp dbus_type_variant.cpp",
                           [("bounds check before every read", "dbus_messageistream.h read, dbus_messageistream.cpp read/align"), ("sub-stream limited to the declared array length", "dbus_messageistream.cpp constructor"), ("size tests before the header and the body are used", "dbus_messageprotocol.cpp getHeaderSize/unmarshallHeader/getBody")],
                           [("OctetBuffer", "what is left of the received bytes", "dbus_octetbuffer.h")], ["every pointer dereference and container index of the decoders"]),
        "technique": "abstract interpretation with one bounds obligation per memory access, discharged by linear arithmetic from the path conditions (inferred loop invariants)",
        "level_note": "Each access site on each path is an obligation over buffers of unknown content and length; decoder loops are covered by inferred invariants, nested values by the contract 'fail or consume any number of bytes through the stream'. " + TRUST,
    },
    {
        "id": "C06",
        "title": "Every outgoing message is well-formed and says what it was built from",
        "statement": "The bytes sent for a method call, method return, error or signal are one well-formed D-Bus message of that type: endianness, type, the requested flags, protocol version 1, body length, the message's serial, exactly the header fields its type requires (object path, interface, member, error name, reply serial, destination when addressed, signature when and only when there is a body) with the right types and contents, padding to 8, and the encoded parameters. Writing a message twice gives the same bytes.",
        "quantifier": {"over": ["inputs"], "text": "all four message types, every combination of flags, every text (by length modulo 8), every serial, several parameter lists"},
        "why_tests_cant": "A test compares one or two whole messages, so a wrong field, flag, length or padding for another combination of type, addressing and text lengths is not seen.",
        "anchors": anchors("dbus_message.cpp dbus_message_methodcall.cpp dbus_message_methodreturn.cpp dbus_message_error.cpp dbus_message_signal.cpp dbus_message.h",
                           [("fixed header, fields and body", "dbus_message.cpp marshallMessage"), ("fields of each type", "dbus_message_*.cpp marshall")],
                           [("m_Parameters", "typed parameters of the body", "dbus_message.h")], ["string returned by marshall()"]),
        "technique": ABS, "level_note": "Every instance holds for all texts of the residue and all numbers; the order of the header fields is free. The parameter lists are a fixed selection; the encoding of each type is C03. " + TRUST,
    },
    {
        "id": "C07",
        "title": "A handler is told exactly what the received message says",
        "statement": "For a well-formed received message of any type, in either byte order, with any set of header fields in any order (unknown ones ignored), the handler for that type sees the path, interface, member, destination, sender, serial, reply serial, parameters, error text and no-reply flag that were on the wire; fields that are absent read as empty text or zero.",
        "quantifier": {"over": ["inputs"], "text": "every subset of optional header fields, orders of the fields, both byte orders, all texts, serials, flags and parameter values"},
        "why_tests_cant": "Tests decode a few captured messages with the header fields in the order one bus implementation writes them.",
        "anchors": anchors("dbus_messageprotocol.cpp dbus_message.cpp dbus_message_methodcall.cpp dbus_message_methodreturn.cpp dbus_message_error.cpp dbus_message_signal.cpp",
                           [("header decoded into fields", "dbus_message.cpp Base(Struct header, body)"), ("dispatch by message type", "dbus_messageprotocol.cpp onBodyComplete")],
                           [("m_Header", "header fields of the message", "dbus_message.h")], ["accessors of the message handed to the handler"]),
        "technique": ABS, "level_note": "Parameters are strings and 32-bit numbers here; decoding of all types is C04. " + TRUST,
    },
    {
        "id": "C08",
        "title": "Reassembly does not depend on how the byte stream is cut",
        "statement": "A sequence of well-formed messages produces the same handler calls, once each and in order, however the bytes are cut into deliveries: anywhere inside the fixed header, a header field, the padding, the body, between messages, or with several messages (and part of the next) in one delivery. Everything delivered is taken over.",
        "quantifier": {"over": ["inputs", "schedules"], "text": "every cut position in the fixed parts of a message, every position inside its texts (by residue), two and three deliveries, up to two messages, all types, both byte orders"},
        "why_tests_cant": "The cut positions depend on the socket; tests use a few cuts of one message.",
        "anchors": anchors("dbus_messageprotocol.cpp dbus_octetbuffer.cpp",
                           [("octet cache and state machine", "dbus_messageprotocol.cpp onReceiveData/processData")],
                           [("m_octetCache", "received bytes not yet used", "dbus_messageprotocol.h"), ("m_State", "what the parser waits for", "dbus_messageprotocol.h")], ["handler calls of two and three deliveries"]),
        "technique": ABS, "level_note": "At most two messages and three deliveries per instance. " + TRUST,
    },
    {
        "id": "C09",
        "title": "Announced lengths above the protocol's limits are refused at once",
        "statement": "A message that announces header fields longer than 64 MiB or a total length above 128 MiB is refused as soon as the announcement has arrived, in either byte order and however it is divided, instead of being waited for and cached; anything within the limits is waited for.",
        "quantifier": {"over": ["inputs"], "text": "all 2^32 announced header-field and body lengths, all types, both byte orders, several divisions"},
        "why_tests_cant": "The limits matter for announcements nobody sends on purpose; a test would need the boundary for each type, order and division, and a wrapped 32-bit sum shows only near 2^32.",
        "anchors": anchors("dbus_messageprotocol.cpp dbus_messageistream.cpp", [("size tests", "dbus_messageprotocol.cpp getHeaderSize/unmarshallHeader/processData")], [("m_headerSize, m_bodySize", "what the parser waits for", "dbus_messageprotocol.h")], ["exception from onReceiveData, or nothing"]),
        "technique": ABS, "level_note": "Decided for every announced length symbolically. " + TRUST,
    },
    {
        "id": "C10",
        "title": "One bad message or failing handler does not disturb the next message",
        "statement": "Every well-formed message is handed to the handler of its type exactly once and in order, whatever came before it in the stream: a message whose handler threw, one of unknown type, one whose body cannot be decoded, or the rest of a message dropped by a reset.",
        "quantifier": {"over": ["inputs", "histories"], "text": "all pairs of message types, unknown types 0 and 5 to 255, a list of undecodable bodies, resets at several points, one and two deliveries, both byte orders"},
        "why_tests_cant": "The faults are combinations of a failing message and what happens to be behind it in the same delivery.",
        "anchors": anchors("dbus_messageprotocol.cpp dbus_octetbuffer.cpp", [("dispatch inside a try block", "dbus_messageprotocol.cpp onBodyComplete"), ("reset", "dbus_messageprotocol.cpp reset")], [("m_octetCache, m_State", "parser state carried to the next message", "dbus_messageprotocol.h")], ["handler calls"]),
        "technique": ABS, "level_note": "Sequences of two messages; undecodable bodies are a fixed list of representatives. " + TRUST,
    },
    {
        "id": "C11",
        "title": "A reply reaches the handler of the call it answers, once, and no other",
        "statement": "A method return runs the success handler, and an error the failure handler, of the outstanding call whose serial it carries, exactly once; a reply to any other serial, or a second reply, runs none. This also holds when the reply arrives before the sending function has returned and when a handler throws or makes further calls. A call that expects no reply leaves nothing behind.",
        "quantifier": {"over": ["inputs", "schedules", "histories"], "text": "every reply serial and every state of the serial counter, three outstanding calls and four replies in all orders, returns and errors, both byte orders, replies during the send"},
        "why_tests_cant": "Tests have no bus to answer them; the order of replies, duplicates and early replies depend on the peer and the threads.",
        "anchors": anchors("dbus_native.cpp dbus_native.h dbus_message_methodreturn.cpp dbus_message_error.cpp", [("pending call registered before sending", "dbus_native.cpp sendMethodCall"), ("lookup by reply serial", "dbus_native.cpp onReceiveMethodReturn/onReceiveError")], [("m_MessageQueue", "outstanding calls by serial", "dbus_native.h")], ["reply handlers"]),
        "technique": ABS, "level_note": "At most three outstanding calls and four replies; the socket and the other thread are modelled. " + TRUST,
    },
    {
        "id": "C12",
        "title": "Nothing but the handshake is sent before BEGIN; then each message once, in order",
        "statement": "Messages sent before authentication has ended are held back and written directly after BEGIN, each once, whole and in the order sent, before any message sent later; until then only the handshake is written.",
        "quantifier": {"over": ["schedules", "inputs"], "text": "three messages at every combination of stages of both handshakes, every kind of message, all texts by length modulo 8"},
        "why_tests_cant": "The stage at which the application sends depends on the speed of the bus.",
        "anchors": anchors("dbus_transport.cpp dbus_auth.cpp dbus_native.cpp", [("queue until ready", "dbus_transport.cpp sendString/addToMessageQueue"), ("queue flushed", "dbus_transport.cpp onAuthComplete")], [("m_BufferedMessages, m_ReadyToSend", "messages held back", "dbus_transport.h")], ["bytes written to the socket"]),
        "technique": ABS, "level_note": "Three messages of one kind, or five of all kinds. " + TRUST,
    },
    {
        "id": "C13",
        "title": "The handshake ends with BEGIN exactly when the server has accepted",
        "statement": "The client opens with NUL and AUTH EXTERNAL and its user id in hexadecimal digits, answers OK with BEGIN (or with NEGOTIATE_UNIX_FD, and AGREE_UNIX_FD with BEGIN, when descriptors were asked for), and sends BEGIN on nothing else. A line counts when its CR LF has arrived, wherever the bytes are divided; bytes behind the last line are messages and reach the message handlers.",
        "quantifier": {"over": ["inputs", "schedules"], "text": "all sequences of four lines of OK, AGREE_UNIX_FD, ERROR, REJECTED and many other lines, every division of several handshakes, every user id, messages directly behind the handshake"},
        "why_tests_cant": "The tests do not connect; a server that answers out of turn or in small pieces needs a peer that misbehaves on purpose.",
        "anchors": anchors("dbus_auth.cpp dbus_native.cpp dbus_utils.cpp", [("line assembly", "dbus_auth.cpp onReceiveData/processData"), ("commands", "dbus_auth.cpp onCommand/onOK/onAgreeUnixFD")], [("m_AuthType, m_UnixFDRequested, m_data", "state of the handshake", "dbus_auth.h")], ["bytes written", "signal handlers"]),
        "technique": ABS, "level_note": "Compared with an automaton of the specification; sequences longer than four lines are not enumerated. " + TRUST,
    },
    {
        "id": "C16",
        "title": "Handlers may add and remove handlers, their own included",
        "statement": "A handler of a method call, signal, match rule, reply or parser event may remove or replace itself or others, register new ones and make calls: no destroyed function object, map entry or iterator is used, the running handler completes, and later messages see the new registrations.",
        "quantifier": {"over": ["histories", "inputs"], "text": "each kind of handler changing each kind of registration, in both orders and byte orders, names of several lengths"},
        "why_tests_cant": "Use of a destroyed function object usually works by luck; which element an invalid iterator meets depends on the container.",
        "anchors": anchors("dbus_native.cpp dbus_messageprotocol.cpp dbus_native_messages.cpp", [("handler copied before it runs", "dbus_native.cpp onReceive*"), ("rules copied before they are walked", "dbus_native.cpp onReceiveSignal")], [("m_MethodCallMap, m_SignalMap, m_RulesMap, m_MessageQueue", "registrations", "dbus_native.h")], ["handler calls"]),
        "technique": ABS + ", with a life-time obligation at every use of a function object, map entry and iterator", "level_note": "One change per handler run. " + TRUST,
    },
    {
        "id": "C20",
        "title": "Every message has a serial of its own, and it is never zero",
        "statement": "Messages of all types created one after the other have different serials, none is zero (also where the counter wraps), and a message keeps its serial while it is copied, sent and others are created.",
        "quantifier": {"over": ["histories"], "text": "every state of the 32-bit serial counter"},
        "why_tests_cant": "The wrap of the counter needs four thousand million messages.",
        "anchors": anchors("dbus_message.cpp dbus_message.h", [("serial taken from the counter", "dbus_message.cpp Base(uint32_t)")], [("m_SerialCounter", "next serial", "dbus_message.h")], ["getSerial()", "the serial on the wire"]),
        "technique": ABS, "level_note": "Five consecutive messages from any counter value. That the counter is updated under its lock is not part of this check. " + TRUST,
    },
    {
        "id": "C21",
        "title": "A match rule's handler gets the signals the rule describes, and no others",
        "statement": "A signal is handed to a rule's handler if and only if every key of the rule agrees: sender, interface, member, path and destination equal the signal's, and the path namespace is its path or an ancestor of it (the root is an ancestor of all). Malformed rules and rules with both path and path_namespace are refused without effect. Several rules and the handler of the signal's name are served independently, until they are removed.",
        "quantifier": {"over": ["inputs", "histories"], "text": "every set and order of keys, names of any content (by length modulo 8), values that differ in one character or in length, all relations of path and namespace, several rules at once"},
        "why_tests_cant": "Prefix and boundary cases of names and paths are many, and a test sends two or three signals.",
        "anchors": anchors("dbus_matchrule.cpp dbus_native.cpp dbus_native_messages.cpp", [("rule parsed", "dbus_matchrule.cpp MatchRule"), ("rule compared", "dbus_matchrule.cpp isMatched"), ("rules walked", "dbus_native.cpp onReceiveSignal")], [("m_RulesMap", "rules by their text", "dbus_native.h")], ["handler calls"]),
        "technique": ABS, "level_note": "Names of letters, digits and underscores between dots and slashes; argument keys and quoting of commas are outside. " + TRUST,
    },
    {
        "id": "C25",
        "title": "Calls and signals reach the handler registered under their name, and no other",
        "statement": "A method call reaches the method handler, and a signal the signal handler, registered under interface.member of the message, exactly once; any other name, longer, shorter or different in one character, reaches none. Removal takes effect for the next message, and a name can be registered again. The two kinds do not mix.",
        "quantifier": {"over": ["inputs", "histories"], "text": "all texts by length modulo 8, names different in any one character, sequences of registration and removal, both byte orders"},
        "why_tests_cant": "Tests register one name and send that name.",
        "anchors": anchors("dbus_native.cpp dbus_message_methodcall.cpp dbus_message_signal.cpp", [("lookup", "dbus_native.cpp onReceiveMethodCall/onReceiveSignal"), ("registration", "dbus_native.cpp register*/unRegister*")], [("m_MethodCallMap, m_SignalMap", "handlers by name", "dbus_native.h")], ["handler calls"]),
        "technique": ABS, "level_note": "Up to four handlers registered at once; registering a name twice is left open. " + TRUST,
    },
    {
        "id": "C26",
        "title": "Bytes are written whole, once and in order however slowly the socket takes them",
        "statement": "Everything sent reaches the socket whole, once and in the order sent, for every timing of the completion of earlier writes: no write is started while another is outstanding, and a buffer lives until its write has completed. After a failed write nothing of what follows is mixed with it.",
        "quantifier": {"over": ["schedules"], "text": "all 32 patterns of completion at five points of the handshake and three messages, both handshakes; failed writes"},
        "why_tests_cant": "Whether asio splits a write, and when it completes, depends on the kernel's buffers; interleaved messages need a slow reader at the right moment.",
        "anchors": anchors("dbus_transport.cpp", [("one write at a time", "dbus_transport.cpp queueWrite/startWrite/handle_write_output"), ("buffer kept by the handler", "dbus_transport.cpp startWrite")], [("m_WriteQueue", "writes not completed", "dbus_transport.h")], ["bytes of completed writes"]),
        "technique": ABS, "level_note": "Three messages and the handshake; the socket is a model that marks overlapping writes and buffers without an owner. " + TRUST,
    },
    {
        "id": "C14",
        "title": "Threads that use one connection never touch the same data unordered",
        "statement": "Application threads may use a connection, and create messages, at any time while its io thread runs: any two accesses to the library's data from different threads, one of them a write, are ordered by a lock, by the start of the io thread or by the start of an asynchronous operation. This includes the time while a connection is being made, authenticated and ended, calls made from inside handlers, the handlers of a MessageProtocol used by itself, and the level of the log.",
        "quantifier": {"over": ["schedules"], "text": "every pair of 13 API calls and 12 deliveries, before, during and after the handshake, the second thread stepping in wherever the first takes a lock"},
        "why_tests_cant": "A data race shows only under a particular interleaving, and often not even then; the tests use one thread and a stub.",
        "anchors": anchors("dbus_native.cpp dbus_transport.cpp dbus_messageprotocol.cpp dbus_auth.cpp dbus_message.cpp", [("locks around every shared member", "dbus_native.cpp, dbus_transport.cpp, dbus_messageprotocol.cpp, dbus_auth.cpp"), ("serial counter under its lock", "dbus_message.cpp Base::Base")],
                           [("m_ReadyToSend, m_BufferedMessages, m_WriteQueue", "outgoing data", "dbus_transport.h"), ("m_MessageQueue, m_MethodCallMap, m_SignalMap, m_RulesMap", "handlers", "dbus_native.h")], ["accesses to members, by thread"]),
        "technique": "happens-before race analysis over abstractly interpreted two-thread client programs", "level_note": "Two threads at a time, one switch to the second and one back; asio objects and atomics count as synchronised. " + TRUST,
    },
    {
        "id": "C15",
        "title": "No lock order can stop two threads for good, and every lock is given back",
        "statement": "The locks the library takes while it holds others are in an order that no set of different threads (any number of application threads, one io thread) can turn into a cycle of waiting; no thread takes a lock again that it holds and that is not recursive; every lock taken is released when the call returns, and no wait is left that nothing ends. Handlers may call any function of the connection.",
        "quantifier": {"over": ["schedules"], "text": "every lock acquisition in every pair of 13 API calls and 12 deliveries in three stages of a connection, also inside handlers"},
        "why_tests_cant": "A deadlock needs both threads to be between two particular locks at once.",
        "anchors": anchors("dbus_native.cpp dbus_native_messages.cpp dbus_transport.cpp dbus_messageprotocol.cpp dbus_auth.cpp", [("locks held while handlers run", "dbus_native.cpp onReceive*"), ("locks released before sending", "dbus_native.cpp sendMethodCall, dbus_native_messages.cpp callAddMatch")], [("held locks", "per thread", "interpreter state")], ["lock acquisitions with the locks already held"]),
        "technique": "lock-order graph with thread roles and gate locks, from abstractly interpreted client programs", "level_note": "Locks that the application's own handlers take are not known. " + TRUST,
    },
    {
        "id": "C22",
        "title": "Each call to the bus asks what it is named after and passes the answer on",
        "statement": "callHello, callRequestName and the other convenience calls send the method call that the D-Bus specification defines for them: to org.freedesktop.DBus, object /org/freedesktop/DBus, interface org.freedesktop.DBus, with the member and the arguments given, in order and of the specified types. The bus's return or error reaches the success or failure handler of that call, once; callRemoveMatch asks for no answer.",
        "quantifier": {"over": ["inputs", "histories"], "text": "all eleven calls, arguments of any content by length modulo 8, any flags, every pair of calls outstanding together and answered in the other order, with returns and errors"},
        "why_tests_cant": "The tests have no bus; a wrong member name or exchanged argument shows only against one.",
        "anchors": anchors("dbus_native_messages.cpp dbus_native.cpp", [("request built", "dbus_native_messages.cpp call*"), ("answer passed on", "dbus_native.cpp onReceiveMethodReturn/onReceiveError")], [("m_MessageQueue", "calls not answered", "dbus_native.h")], ["bytes written", "handler calls"]),
        "technique": ABS, "level_note": "What the bus does with the request is outside. " + TRUST,
    },
    {
        "id": "C24",
        "title": "Introspection data lists every member, each argument by one complete type",
        "statement": "The document a program gets from Introspection holds each interface, method, signal and property that was added, once and in the order added within its kind, under its name; a method or signal has exactly one argument element per complete type of its signature, in order, with the direction in or out for methods; a property has its type and access (read when the access is none of the defined ones).",
        "quantifier": {"over": ["inputs"], "text": "every sequence of up to two complete types out of 26 (containers nested), longer samples; any names; 0-2 members of each kind; 0-3 interfaces"},
        "why_tests_cant": "There are no tests of introspection; where a signature is divided depends on nesting and position.",
        "anchors": anchors("dbus_introspectable.cpp dbus_type.cpp", [("signature divided", "dbus_type.cpp extractSignature, dbus_introspectable.cpp serialize")], [("idx", "position in the signature", "dbus_introspectable.cpp")], ["the document"]),
        "technique": ABS, "level_note": "Signatures are given ones (all sequences of three in the thorough run); names need no XML escapes. " + TRUST,
    },
    {
        "id": "C05",
        "title": "A value reads back as what was put in; as another type it is refused",
        "statement": "Whatever value is kept in the generic type, by itself, in a variant, an array, a structure or the parameters of a call, and however often it is copied, reads back as what was put in: asString gives a text unchanged and a whole number in decimal with its sign, asByte and asUint32 the number for every value that fits, the containers their elements in order and count. Changing a copy does not change the original. refArray, refStruct, refSignature and refVariant give the object and throw for any other type; create and getAlignment know exactly the type codes of the specification, and extractSignature gives the complete type at a position and throws for an unfinished one.",
        "quantifier": {"over": ["inputs"], "text": "every value of the 11 integer, boolean and text types (texts of any content, every length modulo 8), in and out of the containers; 16 types against the four reference functions; every printable type code; 31 complete types between other types"},
        "why_tests_cant": "A conversion that goes wrong does so for part of a range (above the largest int, negative, 64 bits) or for one pair of types; the tests read back a few small values.",
        "anchors": anchors("dbus_type.cpp dbus_type_array.cpp dbus_type_struct.cpp dbus_type_variant.cpp dbus_message.cpp", [("dispatch on the type kept", "dbus_type.cpp asString, getMarshallingSignature, create, getAlignment"), ("next type of a signature", "dbus_type.cpp extractSignature")], [("Generic", "the value and its type", "dbus_type_base.h")], ["values returned", "exceptions"]),
        "technique": ABS, "level_note": "The decimal text of a double is not part of it. " + TRUST,
    },
    {
        "id": "C23",
        "title": "Logging prints texts as they are, and only from the chosen level on",
        "statement": "A log call prints its message exactly when its level is at least the one set, also after the level is changed; texts that come from the other end or from the application are printed as they are and never used as a format: the format of every printing call is a constant whose conversions have an argument each, of the size and kind they need. writeHex prints its prefix and then every octet of any content as two hexadecimal digits, in lines of 32.",
        "quantifier": {"over": ["inputs", "call sites"], "text": "every call of a printing function in the sources; levels 0 to 4, set once or twice, against the four kinds of message; prefixes of any content and dumps of up to 64 octets (100 in the thorough tier), of any content for the short ones"},
        "why_tests_cant": "A text used as a format, or an argument of the wrong size, shows only when logging is on at that level and the text holds a conversion; the tests log at a level that prints nothing.",
        "anchors": anchors("dbus_log.cpp dbus_log.h", [("level filter", "dbus_log.cpp isActive, write"), ("hex dump", "dbus_log.cpp writeHex")], [("g_Level", "least level printed", "dbus_log.cpp")], ["text printed"]),
        "technique": "whole-program check of every printing call (constant format, arguments by type) and " + ABS, "level_note": TRUST,
    },
    {
        "id": "C28",
        "title": "The statistics count each message and octet sent and received once",
        "statement": "The text Native::getStats gives counts every message sent and every message received once, under its kind (method call, return, error, signal), whether or not a handler is registered for it, and also when the handler fails; the octets of the handshake and of messages received; the strings the transport has sent, kept waiting for the handshake and sent after it; the octets sent and read. The octets read are those of the handshake and of the messages together, however they were divided into deliveries.",
        "quantifier": {"over": ["inputs", "histories"], "text": "messages with paths, senders and parameters of any content by length modulo 8; every sequence of three received messages of the four kinds, with and without handlers; three sent messages of six sorts at every position relative to the handshake (a third of the combinations in the quick tier); the handshake divided at every octet"},
        "why_tests_cant": "The tests read no statistics at all, and a count depends on the history of the connection.",
        "anchors": anchors("dbus_native.cpp dbus_transport.cpp", [("counting what is sent", "dbus_native.cpp sendMethodCall and others; dbus_transport.cpp sendStringDirect, addToMessageQueue, onAuthComplete"), ("counting what is received", "dbus_native.cpp onReceive*; dbus_transport.cpp handle_read_data"), ("report", "dbus_native.cpp getStats; dbus_transport.cpp getStats")], [("m_Stats", "the numbers", "dbus_native.h, dbus_transport.h")], ["text of getStats"]),
        "technique": ABS, "level_note": TRUST,
    },
    {
        "id": "C27",
        "title": "A bus address is turned into exactly the socket it names",
        "statement": "Platform::getSessionBus and getSystemBus give the path of a unix:path address, NUL and the name of a unix:abstract address, both without a guid that follows, and any other text unchanged; the variables DBUS_SESSION_BUS_ADDRESS and DBUS_SYSTEM_BUS_ADDRESS are read for the session and the system bus respectively. Without an address they give the empty text and /var/run/dbus/system_bus_socket.",
        "quantifier": {"over": ["inputs"], "text": "nine forms of address over any path, name and guid by length modulo 8, given directly and in the environment, with the other bus's variable set or not"},
        "why_tests_cant": "The tests check one address of each form, and none from the environment.",
        "anchors": anchors("dbus_platform.cpp", [("address divided", "dbus_platform.cpp getPath, getAbstractPath")], [("environment", "DBUS_SESSION_BUS_ADDRESS, DBUS_SYSTEM_BUS_ADDRESS", "dbus_platform.cpp")], ["the socket's name"]),
        "technique": ABS, "level_note": "Lists of addresses, escapes and other keys are outside. " + TRUST,
    },
    {
        "id": "C18",
        "title": "A connection ends in order: last messages written, silence afterwards",
        "statement": "When a Native object is destroyed, in whatever stage of the handshake or of a conversation, messages sent on the authenticated connection and still waiting to be written are written first if the other end takes them. Its io thread has ended when the destructor returns; no handler of the application is called after that, no destroyed object is used, and the destructor neither waits for ever nor aborts the program, also if the other end takes nothing more, has closed, or delivers something meanwhile.",
        "quantifier": {"over": ["schedules", "histories"], "text": "six stages, writes outstanding or not; a message, a close, a completed or failed write at each of the first twelve lock acquisitions of the end; eight patterns of completed writes with texts of any content by length modulo 8"},
        "why_tests_cant": "The tests' transport has no socket and no thread; use after destruction needs a delivery at the wrong moment.",
        "anchors": anchors("dbus_native.cpp dbus_transport.cpp", [("handlers taken away", "dbus_native.cpp ~Native"), ("writes waited for, socket shut down, thread joined", "dbus_transport.cpp ~Transport")], [("m_WriteQueue", "writes not completed", "dbus_transport.h"), ("m_io_context_thread", "the io thread", "dbus_transport.h")], ["handler calls", "bytes written", "objects destroyed"]),
        "technique": ABS, "level_note": "The socket and the io thread are models; a destructor called inside a handler is outside. " + TRUST,
    },
]

NA = []
