#!/usr/bin/env python3
# Generates properties.jsonl (one place to edit the wording).
import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":[dict(zip(("name","meaning","where"),s)) for s in state],
                 "mechanism":[dict(zip(("name","where"),m)) for m in mech],
                 "observe_at":list(observe),"hook_needed":hook}})

prop("C01","Polling payload framings carry packet sequences losslessly",
 "Every packet sequence sent in a polling framing - length-prefixed text, text with base64 binary, XHR2 binary, or a JSONP response - is read by the receiver as exactly the same sequence: same order, packet types, text/binary kind and bytes. This holds for every content, size (including empty and multi-megabyte) and fragmentation of the byte stream, and the bytes on the wire are those of the Engine.IO revision 3 format (lengths counted in bytes). Each poll response uses the framing the request asked for and declares that framing's content type.",
 ["inputs"],"all packet sequences, contents, sizes, read fragmentations and response framings",
 "Tests decode a handful of short packets from one in-memory reader whose single Read returns everything, with binary lengths divisible by 3; sizes, paddings, fragmentation and HTTP responses are never sampled.",
 ["engine/payload.go","engine/polling.go"],
 [("Payload.ReadFrom / Packet.decode / packet2.decode","engine/payload.go"),("Payload.WriteTo / Packet.WriteTo","engine/payload.go"),("writeJSONP, writeXHR, writeXHR2","engine/polling.go")],
 observe=["bytes of POST bodies and GET responses at the HTTP boundary","EventMessage/EventPing callbacks"])
prop("C02","Malformed peer input is refused without crash, hang or side effects",
 "Whatever bytes a remote peer sends - request parameters, polling bodies, websocket frames, Socket.IO packets in either parser, callback arguments - the process never panics, every request gets an answer, and memory allocated stays proportional to the bytes received. A polling payload that is malformed or of a refused content type is answered with an error status and none of its packets take effect. Other sessions, and the same session's later well-formed input where its connection survives, are processed normally.",
 ["inputs","histories"],"all byte strings at every input surface, interleaved with valid traffic",
 "Tests only decode well-formed packets; no test feeds hostile bytes to any decoder or to the HTTP handler.",
 ["engine/payload.go","engine/polling.go","engine/websocket.go","engine/server.go","parser_default.go","parser_msgp.go","callback.go","packet.go","server.go"],
 [("packet head validation","engine/payload.go"),("defaultDecoder.decode","parser_default.go"),("msgpUnmashalArg / msgpReadMap","parser_msgp.go"),("Server.process error paths","server.go")],
 observe=["panics, HTTP status codes, allocation counters, callbacks of the attacked and of bystander sessions"])
prop("C03","The default parser reproduces every packet, argument and attachment",
 "For every Socket.IO packet - any type, namespace path, ack id, event name (any non-empty string), JSON-representable arguments and binary attachments at any top-level argument position - encoding with the default parser and decoding the resulting frames yields the same type, namespace, id, event name, arguments and attachments, for events and acks alike. The frames are those of socket.io-protocol revision 4, so packets encoded by an independent conforming implementation (JSON spelled in any way; a connect packet whose namespace has a query, which is not part of its name) decode equally, and a callback receives its JSON arguments and its binary arguments in order and may keep them: later packets do not change them. Encoding fails with an error rather than emitting a corrupted packet.",
 ["inputs"],"all packets, argument lists and callback signatures within the JSON and top-level binary domain",
 "Tests compare seven fixed strings and ignore decoded data; event names needing JSON escapes, attachments in first position, binary acks and random arguments are never decoded.",
 ["parser_default.go","callback.go","packet.go","protocol.go"],
 [("defaultEncoder.encodeTo/preprocess","parser_default.go"),("defaultDecoder.Add/decode/ParseData/UnmarshalArgs","parser_default.go")],
 observe=["Parser.Encoder().Encode output, Decoder().Add/Decoded/ParseData/UnmarshalArgs results"])
prop("C04","The msgpack parser reproduces every packet and argument",
 "For every Socket.IO packet whose arguments msgpack can represent, encoding with the msgpack parser and decoding yields the same type, namespace, id, event name and arguments (converted to the callback's parameter types), and the bytes are one well-formed message that an independent msgpack implementation reads as the same packet (events and acks as one binary message, connect/disconnect/error as one JSON text message). An emitted packet puts exactly that one message on the wire. Values that cannot be represented or converted produce an error, never a wrong value or a panic.",
 ["inputs"],"all packets, argument values and parameter types within the msgpack domain",
 "Tests unmarshal about twenty fixed values of fixed types; nothing is sent over a connection with this parser.",
 ["parser_msgp.go","packet.go","socket.go","callback.go"],
 [("Packet.MarshalMsg/UnmarshalMsg","packet.go"),("msgpackDecoder.Add/ParseData/UnmarshalArgs","parser_msgp.go"),("socket.emitPacket","socket.go")],
 observe=["Encoder/Decoder results","websocket frames a raw peer receives"])
prop("C05","Messages arrive in order, unmodified, without gaps or duplicates",
 "On every connection and in each direction, the sequence of messages the receiver's callbacks see is at all times a prefix of the sequence the sender's successful emits produced, with each payload as it was when emit was called (and unchanged afterwards in the receiver's hands), and it becomes the whole sequence as long as the connection stays up and is read. If messages cannot be delivered the connection is closed; it never stays open with a message missing. Messages emitted before a graceful local close of a websocket connection are delivered before the connection ends.",
 ["schedules","inputs","configurations"],"both transports, both directions, any message sizes and mix, concurrent senders, slow readers, any close point, polls abandoned or their responses unwritable at any point",
 "No test opens a client-server connection; ordering and loss depend on goroutine schedules and backpressure that no fixed test fixes.",
 ["engine/emitter.go","engine/socket.go","engine/polling.go","engine/websocket.go","engine/server.go","engine/client.go"],
 [("emitter queue and loop/flush","engine/emitter.go"),("pollingConn in/out channels","engine/polling.go"),("reader goroutines","engine/server.go, engine/client.go")],
 state=[("emitter.packets","packets accepted and not yet written","engine/emitter.go"),("pollingConn.in/out","packets between HTTP requests and the session","engine/polling.go")],
 observe=["Emit results and message callbacks at both ends, raw frames"],hook="delays at scheduling points (tag verif)")
prop("C06","Concurrently emitted multi-frame packets never mix",
 "When any number of goroutines emit events, errors and acks with and without binary attachments on the same connection, each packet arrives exactly once with exactly its own arguments and its own attachments in order. The frames of one packet are contiguous on the connection: no frame of another packet is sent between a packet's text frame and its last attachment. Each goroutine's packets arrive in the order it emitted them.",
 ["schedules"],"all interleavings of concurrent emits over any number of goroutines and attachment counts",
 "Interleaving of two emits is a schedule property; no test emits concurrently or with attachments over a connection.",
 ["socket.go","parser_default.go","engine/emitter.go"],
 [("socket.emitPacket","socket.go"),("defaultDecoder.Add attachment reassembly","parser_default.go")],
 observe=["frame sequence at a raw peer","event callbacks at a library peer"],hook="delay between frames (tag verif)")
prop("C07","Upgrading polling to websocket loses, repeats and reorders nothing",
 "While a session is upgraded from polling to websocket by a protocol-conforming client, every message sent in either direction before, during and after the switch is delivered exactly once and in order, and the session's message callbacks never run concurrently with each other. The session keeps its sid, headers and open state through the switch, nothing is closed or reported as closed by it, and exactly one upgrade event is fired. After the switch all traffic flows on the websocket.",
 ["schedules","histories"],"all interleavings of the upgrade handshake with emits, polls, posts and callbacks",
 "Nothing in the test suite upgrades a transport; the losses need an emit or a read to land inside a window of the switch.",
 ["engine/server.go","engine/polling.go","engine/emitter.go","engine/socket.go","engine/barrier.go"],
 [("Server.upgrade","engine/server.go"),("pollingConn.Pause/Resume/FlushIn/FlushOut","engine/polling.go"),("lockBarrier","engine/barrier.go")],
 state=[("Socket.Conn","current transport","engine/socket.go")],
 observe=["unique-id messages at the raw client and in server callbacks, engine events"],hook="delays between upgrade steps (tag verif)")
prop("C08","A failed upgrade attempt leaves the session as it was",
 "An upgrade attempt that does not complete - wrong or missing probe, anything other than an upgrade packet after the probe, a dropped or silent websocket at any step, a second concurrent attempt, a polling request for a websocket session, a rejected origin - leaves the session open on its previous transport. All messages in both directions are still delivered exactly once and in order on that transport, no upgrade event fires, the failed connection is closed, and a later proper upgrade succeeds. Until the probe has been answered, messages in both directions keep flowing.",
 ["fault_sequences","schedules"],"every abort point of the upgrade handshake, in sequences, with traffic in both directions",
 "No test performs any upgrade, successful or not.",
 ["engine/server.go","engine/polling.go","engine/emitter.go","engine/transport.go"],
 [("Server.upgrade error paths, Resume","engine/server.go"),("Server.ServeHTTP transport dispatch","engine/server.go")],
 observe=["unique-id messages, HTTP answers, websocket closure, engine events"],hook="delays between upgrade steps (tag verif)")
prop("C09","Acknowledgement callbacks fire once, for their own emit",
 "A callback passed to an emit runs at most once, only with the arguments of the peer's answer to that very emit (same connection and namespace), and it does run when the peer answers while the namespace is connected, including answers with no arguments or with attachments. Duplicate, unknown, stale or foreign acknowledgement ids run nothing. Conversely each received event that asks for acknowledgement and whose handler ran is answered exactly once, with its own id and namespace and exactly the handler's return values.",
 ["schedules","histories"],"any number of outstanding emits from concurrent goroutines, answers in any order, repeated, forged or from other namespaces",
 "Ack bookkeeping is never exercised over a connection; uniqueness and once-only need concurrent emits and repeated answers.",
 ["handle.go","socket.go","server.go","client.go","parser_default.go"],
 [("ackHandle.onAck/fireAck","handle.go"),("socket.ack","socket.go"),("process, EVENT and ACK cases","server.go, client.go")],
 state=[("ackHandle.ackmap","callbacks awaiting an answer","handle.go")],
 observe=["ack callbacks, frames at raw peer"],hook="delays around ack lookup and emit (tag verif)")
prop("C10","Connect, event and disconnect callbacks follow the lifecycle",
 "For every connection and namespace: the connect callback runs before any event callback; event callbacks run only while the namespace is connected; and after each connect exactly one disconnect callback runs - on the peer's disconnect packet for that namespace, or when the connection ends for any reason including abrupt loss and local close - and none without a connect. Repeated connect packets for a connected namespace and repeated disconnects have no second effect. The same holds for the engine-level close event: exactly one per session.",
 ["histories","schedules","fault_sequences"],"all sequences of connect, event, disconnect, close packets and connection losses, at any speed, on server and client",
 "No test runs a connection; early events and losses during setup are schedule-dependent.",
 ["server.go","client.go","socket.go","engine/server.go","engine/client.go","handle.go"],
 [("onOpen registration and EventMessage/EventClose handlers","server.go"),("attachnsp/detachnsp/detachall","socket.go"),("reader goroutine exit path","engine/server.go, engine/client.go")],
 state=[("Server.sockets","open sockets","server.go"),("socket.acks","connected namespaces","socket.go")],
 observe=["trace of callbacks per connection and namespace"],hook="delays in accept and close paths (tag verif)")
prop("C11","Namespaces, events and connections are isolated from each other",
 "An event reaches only the handler registered for its own namespace and event name, with a socket bound to the connection and namespace it came from; anything emitted through that socket reaches only that connection and that namespace. Packets for a namespace that the server does not offer, or that this connection has not joined, run no handler; events for a namespace the server does not offer are answered with an error packet for that namespace. Emitting an event to a namespace that is not connected returns an error and sends nothing; a namespace is connected from its connect callback on, until its disconnect callback.",
 ["inputs","histories"],"all combinations of namespaces, event names, joined sets and connections under concurrent traffic",
 "No test dispatches an event through a server or uses more than one namespace.",
 ["server.go","client.go","socket.go","handle.go"],
 [("getnsp/fireEvent dispatch","server.go, handle.go"),("nspSock","socket.go"),("namespace parsing","parser_default.go")],
 observe=["tagged events in handlers and frames at raw peers"])
prop("C12","Only valid handshakes create sessions, each with its own identity",
 "A request with a wrong protocol version, an unknown transport, or an unknown or ended session id, and a handshake or upgrade from a rejected origin, is refused with a 4xx status, runs no callback and changes no session. Every accepted handshake creates exactly one session whose first packet announces a fresh unique sid, the configured ping parameters and, on polling, the upgrade to websocket, and opens exactly one socket reporting that sid, the peer's address, the address it was reached at and the handshake request's headers as SetHeader has changed them since. A sid addresses only its own session, from the handshake until that session ends, and is refused afterwards; after the server is closed new handshakes are refused.",
 ["inputs","histories","schedules"],"all request parameter combinations, concurrent handshakes, and session histories",
 "No test sends a request to the server handler.",
 ["engine/server.go","engine/session.go","engine/transport.go","engine/socket.go"],
 [("Server.ServeHTTP","engine/server.go"),("sessionManager, generateSidBytes","engine/session.go"),("CheckOrigin","engine/transport.go")],
 state=[("sessionManager map","sid to session","engine/session.go")],
 observe=["HTTP statuses, open packets, onOpen callbacks"])
prop("C13","Heartbeats are echoed, and exactly the silent sessions are closed",
 "On either transport every ping is answered with exactly one pong carrying the same data, in order with the other traffic, and the server's ping and pong events fire once, with its data, for every ping and pong received in a session. A session from which no packet arrives for pingInterval+pingTimeout is closed (close event, sid refused, connection ended), and a session that keeps sending any packet within that period is never closed by the timeout. The client pings at the announced interval, stays connected while the server answers, and ends when the server falls silent for that period.",
 ["schedules","configurations"],"all intervals, timeouts, silence patterns and packet kinds, on both transports",
 "No test runs long enough to meet a timeout of the server, or pings it.",
 ["engine/server.go","engine/client.go","engine/socket.go","engine/polling.go","engine/websocket.go"],
 [("Socket.Read deadline","engine/socket.go"),("Server.handle ping case","engine/server.go"),("client ping goroutine","engine/client.go")],
 observe=["packets and closures on a virtual clock"])
prop("C14","Ended connections and servers release everything they held",
 "When a connection ends in any way - close packet, abrupt loss, local close, idle timeout, unread output, refused or failed handshake, failed upgrade - its background goroutines finish, its network connection is closed, its session id is forgotten, and calls blocked on it return. Operations on it afterwards return (with an error, for emits) instead of blocking or panicking. A closed server's background worker finishes and later handshakes are refused without residue. Repeating this any number of times leaves no residue.",
 ["histories","fault_sequences"],"all ways of ending a connection, at any moment of its life, repeated",
 "Tests never create or end a connection; leaks accumulate over histories.",
 ["engine/server.go","engine/client.go","engine/socket.go","engine/emitter.go","engine/session.go","server.go","client.go"],
 [("Socket.Close / emitter.close","engine/socket.go, engine/emitter.go"),("reader goroutine defers","engine/server.go"),("sessionManager.Remove","engine/session.go")],
 observe=["goroutine profile filtered to the library, peer-side EOF, sid lookups, return of blocked calls"])
prop("C15","Concurrent use is free of data races",
 "No use of the public API that does not race by itself makes the library race: emits, acks, closes, header and address accessors from any goroutine, callbacks, polling requests, upgrades, connects and disconnects of many connections in parallel never produce unsynchronised conflicting memory accesses in library code.",
 ["schedules"],"all schedules of concurrent public operations on shared servers, clients and sockets",
 "The suite runs no concurrent operations besides one polling connection; races need conflicting accesses to be executed.",
 ["engine/socket.go","engine/server.go","engine/emitter.go","engine/session.go","engine/handle.go","engine/polling.go","server.go","client.go","socket.go","handle.go"],
 [("Socket.RWMutex","engine/socket.go"),("sockLock","server.go"),("socket.mutex, ackHandle.mutex","socket.go, handle.go")],
 observe=["Go race detector reports over composite workloads"],hook="delays at scheduling points (tag verif)")
prop("C16","Public calls complete from any callback and any goroutine",
 "Every public operation on a socket or client - emit with or without ack, error emit, close, header and address access - may be called from any connect, event, ack, error, disconnect or engine callback, and concurrently from other goroutines, and it returns; afterwards the connection (or its teardown) keeps making progress and the remaining callbacks run. No combination of such calls deadlocks.",
 ["schedules","histories"],"all pairs of callback kind and operation, on server and client, with concurrent traffic, closes and upgrades",
 "No callback runs in any test; lock-order and re-entrancy problems need the call made inside the callback.",
 ["socket.go","server.go","client.go","handle.go","engine/socket.go","engine/emitter.go","engine/server.go"],
 [("detachall, attachnsp locking","socket.go"),("ackHandle locking","handle.go"),("emitter.close wait","engine/emitter.go"),("barrier pause","engine/server.go")],
 observe=["completion of every call, later echo round trips"],hook="delays at scheduling points (tag verif)")
prop("C17","One peer cannot stall the others",
 "A client that is silent, slow, does not read, stays half-open in a handshake or upgrade, or whose callback blocks or emits faster than its client reads, affects only its own connection. Meanwhile every other client can connect, join namespaces, exchange messages, get acknowledgements and disconnect, and gets its callbacks, on both transports.",
 ["fault_sequences","schedules"],"all kinds and numbers of misbehaving peers and blocked callbacks concurrent with healthy traffic",
 "No test has two connections.",
 ["engine/server.go","engine/emitter.go","engine/session.go","server.go","socket.go"],
 [("accept loop and per-session goroutines","engine/server.go"),("per-socket emitter","engine/emitter.go"),("sockLock scope","server.go")],
 observe=["round trips of healthy clients while others misbehave"])
prop("C18","Errors are reported once and the stream continues",
 "A packet that cannot be decoded, names no event, or whose arguments do not fit the callback it is meant for runs no event or ack callback, is not answered, and is reported exactly once to the error callback responsible for it - the server's or client's for undecodable frames, the namespace's otherwise - and an error packet from the peer reaches the namespace's error callback once with its payload. Each later valid packet on that connection is processed as if the faulty one had not been sent. An error emit reaches the peer as one error packet of that namespace with that payload. What a callback returns but cannot be encoded is reported to that namespace's error callback once and not sent; emitting what cannot be encoded returns an error and sends nothing.",
 ["inputs","histories"],"all faulty packets interleaved with valid ones in any order, both parsers, server and client",
 "Tests never route a faulty packet through a server or client.",
 ["server.go","client.go","parser_default.go","parser_msgp.go","callback.go","handle.go","socket.go"],
 [("process error paths","server.go, client.go"),("decoder resynchronisation","parser_default.go"),("socket.emitError","socket.go")],
 observe=["error, event and ack callbacks per packet"])
prop("C19","A client sees everything from its handshake on, or Dial fails",
 "Dial either returns an error and leaves nothing open, or yields a client with the server-announced sid whose registered callbacks observe every packet the server sent since the handshake - the connect packet and anything right behind it included - however early it arrives. A client that dials again, after its connection ended or an attempt failed, even from that connection's disconnect callback, gets a connection of its own. The handshake request carries the protocol version, transport, caller's query and headers. When the server ends the connection the client's disconnect callback runs, and messages the client emitted before its own close are delivered.",
 ["schedules","fault_sequences","inputs"],"all timings and batching of the server's first packets, all handshake failures and ends",
 "No test dials; whether the first packets precede callback registration is a schedule question.",
 ["client.go","engine/client.go","engine/transport.go"],
 [("engine.Dial reader goroutine start","engine/client.go"),("Client.Dial callback registration","client.go"),("websocketTransport.Dial","engine/transport.go")],
 observe=["client callbacks against a scripted raw server"],hook="delay between dial and callback registration (tag verif)")
import os
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
