G = " Decides only the executions of the run; trusts the harness's own wire codecs, the Go runtime and gorilla/websocket."
NOTES = {
 "C01": ("runtime monitoring: differential oracle against an independent codec over random packet sequences and fragmentations",
         "Both directions of every framing compared byte for byte with an independent codec, over in-memory connections and a real HTTP server." + G),
 "C02": ("runtime monitoring: crash, progress, allocation and side-effect monitors over hostile input",
         "Panics, unanswered requests, allocations out of proportion and effects of refused input are detected on the inputs generated; the workers run under an address-space limit." + G),
 "C03": ("runtime monitoring: differential oracle against an independent socket.io codec and argument model",
         "Encoder, decoder, argument conversion, events, emits and acks over connections compared with an independent codec on random packets and parameter types. Some cases are connections of minutes to weeks on a virtual clock, judged exactly once nothing runs any more." + G),
 "C04": ("runtime monitoring: differential oracle against an independent msgpack codec and argument model",
         "Encoder, decoder, argument conversion, events, emits and acks over connections compared with an independent msgpack codec on random packets and parameter types; trusts msgp for time and complex values, which are checked as a round trip only. Some cases are connections of minutes to weeks on a virtual clock, judged exactly once nothing runs any more." + G),
 "C05": ("runtime monitoring: online prefix/completeness checker over uniquely tagged messages, with injected delays, backpressure, buffer reuse and closes",
         "Per-sender prefix and completeness are checked on every connection of the run, both directions, both transports; a graceful close is judged while the opposite direction is quiet (a TCP reset may discard what was in flight otherwise). Some cases are connections of minutes to weeks on a virtual clock, judged exactly once nothing runs any more." + G),
 "C06": ("runtime monitoring: frame-grammar and exactly-once checkers over concurrently emitted multi-frame packets, with injected delays",
         "The raw frame sequence is parsed strictly and every packet matched with its emit; interleavings are those the delays and the scheduler produced (counted by hash)." + G),
 "C07": ("runtime monitoring: exactly-once and order checkers over traffic that spans an upgrade, with delays injected at the upgrade's steps",
         "Uniquely tagged messages in both directions while a conforming client upgrades; callback concurrency, close, open and upgrade events, sid and headers are monitored. A seventh of the cases are connections of minutes to weeks on a virtual clock, with upgrade attempts at any age, judged exactly once nothing runs any more." + G),
 "C08": ("runtime monitoring: exactly-once and order checkers over traffic that spans failing upgrade attempts, with injected delays",
         "Fourteen kinds of failing attempts and requests for websocket sessions, singly and in sequence, under traffic; then a proper upgrade. A seventh of the cases are connections of minutes to weeks on a virtual clock, with upgrade attempts at any age, judged exactly once nothing runs any more." + G),
 "C09": ("runtime monitoring: per-emit exactly-once checker of acknowledgements against forged, repeated, stale and foreign answers, with injected delays",
         "Every callback of the run is attributed to the answer the peer gave to that emit; ids, namespaces, arguments and return values are compared with the harness's own codec. A seventh of the cases are connections of minutes to weeks on a virtual clock, every step judged exactly once nothing runs any more." + G),
 "C10": ("runtime monitoring: lifecycle automaton per connection and namespace over callback logs, with injected delays and all ways of ending",
         "Each namespace's callback log must be a prefix of the one its peer's packets call for, followed by one disconnect if the connection ended while connected; engine close events are counted per session. A seventh of the cases are connections of minutes to weeks on a virtual clock, every step judged exactly once nothing runs any more." + G),
 "C11": ("runtime monitoring: attribution of every callback and packet to connection, namespace and event over concurrent tagged traffic",
         "Exact multiset comparison of callbacks, replies, acknowledgements and error packets with what each peer sent; emits to namespaces that are not connected must fail and send nothing." + G),
 "C12": ("runtime monitoring: reference admission model over a request parameter matrix and concurrent handshakes",
         "Status class, created sessions, callbacks, open packets and uniqueness of ids of every request are compared with a reference model; sessions refused requests touch are probed afterwards." + G),
 "C13": ("runtime monitoring: deadline and pong checkers over random heartbeat histories on a virtual clock and over pings amid traffic on the real network",
         "On the virtual clock (testing/synctest, in-memory network) closing times are judged exactly from below and within a quarter period from above; pongs compared with pings in order, across upgrades, with injected delays." + G),
 "C14": ("runtime monitoring: goroutine-profile, peer-EOF, session-lookup and garbage-collection monitors over every way of ending connections and servers, with injected delays",
         "After each ending no goroutine inside the library may remain beyond those of the open server, the peer must see its connection closed, requests naming the sid must be refused, blocked calls must return, ended sockets must become garbage and the heap must not grow per connection." + G),
 "C15": ("runtime monitoring: Go race detector over free-running random workloads of both layers and both ends, with injected delays",
         "Connections are mostly in memory, callbacks record nothing and peers share nothing, so that the harness orders as few library accesses as possible; a race counts if library code makes one of the accesses, including those to memory its caller owns again." + G),
 "C16": ("runtime monitoring: per-call progress watchdog with goroutine attribution over random sets of public calls made inside and beside every kind of callback, on the real server and client, with injected delays",
         "Every public call is bracketed; a call that has not returned long after everything it may wait for has happened (peers read, polls are open, other calls returned) is a violation, and so are acknowledgements, disconnects or packets of other connections that stop coming." + G),
 "C17": ("runtime monitoring: bounded-progress monitor on healthy connections of random scripts, beside injected misbehaving peers (silent, unread, half-open, stalled at every stage) and blocked callbacks, singly and in crowds",
         "Every step of a healthy connection - connect, join, events, acknowledgements both ways, pings, emits, upgrade, leave, close, callbacks - must complete while an independent echo makes 1000 round trips (and 12 s pass), although other connections are kept in bad states that were seen to be reached." + G),
 "C18": ("runtime monitoring: per-connection effect-log checker against a model of the packets sent, faulty and valid ones mixed",
         "Every callback of a connection, in order, and every answer and error packet its peer receives is compared with what the random mix of undecodable, incomplete, nameless, ill-fitting and valid packets calls for. Some cases are connections of minutes to weeks on a virtual clock, judged exactly once nothing runs any more." + G),
 "C19": ("runtime monitoring: callback-log checker of clients against scripted servers whose first packets are written in random pieces right behind the handshake, with injected delays",
         "The client's callbacks, in order, are compared with every packet the server sent since the open packet; request, sid, ends, flush at Close and failing handshakes (nothing left open, no callback) are checked." + G),
}
