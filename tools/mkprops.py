import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","A unary call returns exactly what its handler returned for its request",
 "A unary call runs the handler registered for its service and method exactly once, with a request equal to the one sent, and the caller gets back exactly the response of that invocation, or an error carrying the handler's error text ('unimplemented' when no handler exists). A call never succeeds without a response from its own invocation, and concurrent calls never get each other's request or response. This holds for every message content (including empty) up to the size limit, on every transport.",
 ["inputs","schedules","histories"],"all request/response/error contents, all numbers and interleavings of concurrent calls, all chunkings of the transport",
 "TestE2E_Unary makes one call with one fixed short string on one connection; no empty message, no large one, no error, no concurrency, no fragmented transport.",
 ["srpc/client.go","srpc/client-rpc.go","srpc/server-rpc.go","srpc/common-rpc.go","srpc/packet.go"],
 [("ExecCall: one stream per call, first message in the start packet, one read","srpc/client.go"),("invokeRPC writes the terminal packet with the handler's error","srpc/server-rpc.go"),("data_is_zero marks empty messages","srpc/packet.go")],
 [("dataQueue","messages received and not yet read","srpc/common-rpc.go"),("remoteErr","error reported by the remote","srpc/common-rpc.go")],["Client.ExecCall return value","handler invocation record"])

p("C02","Stream messages arrive exactly once, in order, unmodified, both ways",
 "On a streaming call, the messages one side receives are exactly the messages the other side sent, each once, in the order sent and byte-equal, in both directions at the same time; empty messages count and no message is invented (in particular none by closing the send side). If the call is cut short, what was received is a prefix of what was sent.",
 ["inputs","schedules","histories"],"all message sequences in both directions, all interleavings of sends, receives and closes on the two ends, all chunkings of the transport",
 "The stream tests exchange one or five equal non-empty strings; none half-closes the send side and then counts messages, none sends an empty message, none runs both directions at once.",
 ["srpc/common-rpc.go","srpc/msg-stream.go","srpc/client-rpc.go","srpc/server-rpc.go","srpc/packet-rw.go"],
 [("HandleCallData appends to the queue under the lock","srpc/common-rpc.go"),("ReadOne pops in order","srpc/common-rpc.go"),("WritePacket serialises writers","srpc/packet-rw.go")],
 [("dataQueue","ordered incoming messages","srpc/common-rpc.go")],["Stream.MsgRecv on both ends"])

p("C03","A stream's end is reported after all messages, exactly, and stays the same",
 "A caller reading a stream sees every message the handler sent before it sees the end, and the end is io.EOF if the handler returned without error and the handler's error text otherwise. Once the end has been reported, each further receive reports the same end, and nothing that happens to the transport after the handler's final status was delivered (closing, resetting, late packets) changes it. A handler reading a stream whose caller closed its send side sees io.EOF after the last message.",
 ["schedules","histories","fault_sequences"],"all message counts, all final statuses, all orders in which the final status, the transport close (clean or with an error) and the reader's receives can happen",
 "Tests read five messages and stop at the first EOF on one schedule; none delays the reader until after the transport closed, none ends with an error, none reads twice past the end.",
 ["srpc/common-rpc.go","srpc/client-rpc.go","srpc/server-rpc.go","srpc/packet.go"],
 [("ReadOne drains the queue before reporting the end","srpc/common-rpc.go"),("HandleCallData / HandleStreamClose record the end","srpc/common-rpc.go, srpc/client-rpc.go")],
 [("dataClosed","no more messages will be queued","srpc/common-rpc.go"),("remoteErr","the end's error","srpc/common-rpc.go")],["Stream.MsgRecv error values"])

p("C04","Half-closing one direction leaves the other direction working",
 "After one side closes its send side, the other side sees the end of that direction after the last message, and the call goes on: the handler's context stays alive, and messages can still be sent the other way and are received, until the handler returns. Closing the send side never cancels, fails or shortens the other direction. Closing the send side does not fail because the other side has already ended the call.",
 ["histories","schedules"],"all positions of the half-close in all send/receive histories of the two ends",
 "No existing test half-closes a stream that then carries more data.",
 ["srpc/common-rpc.go","srpc/msg-stream.go","srpc/server-rpc.go","echo/echo_srpc.pb.go"],
 [("CloseSend sends a complete packet and keeps the writer open","srpc/msg-stream.go"),("complete closes only the incoming data queue","srpc/common-rpc.go")],None,["Stream.MsgRecv/MsgSend after CloseSend","handler Context().Err()"])

p("C05","Cancel, close or disconnect ends the call on both sides; nothing stays blocked",
 "When the caller's context is cancelled while it waits, or the caller closes the stream, or the connection is lost, or the server's context is cancelled, then the handler's context is cancelled and every operation of that call blocked on either side returns with an error or end of stream. When the handler returns, the caller's pending receive returns. No call, receive or read loop stays blocked once its call has ended.",
 ["schedules","histories","fault_sequences"],"all points at which the cancel, close, disconnect (clean or with an error, at any byte of the transport) or handler return can fall in a call's history",
 "TestE2E_Cancel cancels one unary call at one point, with 100 ms real-time limits; no stream, no disconnect, no cancel while sending, before the start or after completion.",
 ["srpc/common-rpc.go","srpc/client-rpc.go","srpc/server-rpc.go","srpc/server.go","srpc/client.go","srpc/msg-stream.go"],
 [("HandleStreamClose / HandleCallCancel cancel the rpc context and wake readers","srpc/common-rpc.go"),("ReadOne watches the context","srpc/common-rpc.go"),("invokeRPC closes the writer and cancels","srpc/server-rpc.go")],
 [("ctx","cancelled when the rpc ends","srpc/common-rpc.go"),("bcast","wakes blocked readers","srpc/common-rpc.go")],["return of every blocked operation; handler context"])

p("C06","Calls sharing one connection do not affect each other",
 "Many calls run concurrently over one multiplexed connection, made by either end, and each one's messages, result and context are what they would be if it ran alone. Cancelling, failing, abandoning, or sending malformed packets on one call does not change, end or delay forever any other call on the connection or prevent new ones. A connection uses the muxer configuration it was given (the default one if none), and survives a remote which takes nothing for less than the configured write timeout (10 s by default).",
 ["schedules","histories","inputs"],"all mixes of concurrent calls of all kinds, with any of them cancelled, failing, stalled or malformed at any point",
 "Every existing test runs a single call per connection.",
 ["srpc/server.go","srpc/muxed-conn.go","srpc/client.go"],
 [("one stream and one goroutine per call","srpc/server.go AcceptMuxedConn"),("NewOpenStreamWithMuxedConn","srpc/muxed-conn.go")],None,["results of the unaffected calls"])

p("C07","Finished calls leave nothing behind",
 "Once a call is over (the handler returned and the caller got its result, read the end of the stream, or closed it; or the call failed to start), both ends have closed their transport stream, all goroutines started for the call have ended, and the contexts made for it are cancelled. The caller's own context and the connection stay usable.",
 ["histories","schedules","fault_sequences"],"all ways a call can end (success, error, cancel, close, disconnect, failure to open the stream) for every call kind, direct or nested",
 "Tests run one call and exit the process; nothing counts streams, goroutines or contexts afterwards.",
 ["srpc/client.go","srpc/client-rpc.go","srpc/common-rpc.go","srpc/server-rpc.go","srpc/server.go","rpcstream/rpcstream.go","rpcstream/writer.go"],
 [("ClientRPC.Close / closeLocked","srpc/client-rpc.go, srpc/common-rpc.go"),("HandleStreamClose closes the writer","srpc/common-rpc.go"),("invokeRPC closes the writer and cancels","srpc/server-rpc.go")],None,["transport stream Close on both ends","goroutine count","derived contexts of the caller's context"])

p("C08","Packet framing round-trips under any chunking, short write and close",
 "Packets written to a byte stream are read back as exactly the same packets in the same order, however the byte stream splits or merges reads, with whatever mix of short writes it accepts them, and however many goroutines write at once; frames are a little-endian 32-bit length followed by that many bytes. A frame longer than 10,000,000 bytes or of length zero ends reading with an error and is never delivered, complete frames before it are delivered, and an incomplete frame at the end of the stream is never delivered.",
 ["inputs","schedules","fault_sequences"],"all packet sequences and sizes, all splits of the byte stream into reads, all short-write patterns, all truncation points, all writer interleavings",
 "Tests go through net.Pipe and yamux with tiny packets that always arrive in one read and never see a split header, a short write, a truncation or an oversized length.",
 ["srpc/packet-rw.go"],
 [("ReadToHandler buffers until a frame is complete","srpc/packet-rw.go"),("WritePacket loops over short writes under a mutex","srpc/packet-rw.go"),("maxMessageSize","srpc/packet-rw.go")],
 [("buf","bytes not yet framed","srpc/packet-rw.go")],["PacketDataHandler calls; ReadPump close error; bytes on the wire"])

p("C09","Malformed or out-of-protocol input is contained to its own call",
 "Whatever bytes or packets a peer sends, no endpoint panics or blocks forever; a call's handler is started at most once, only by a start packet with non-empty service and method, and with exactly those names and only data that arrived in well-formed packets. Undecodable data, an empty or unrecognised packet, a second start, or data after completion ends that call with an error, cancels its handler's context and closes its stream; a client rejects a start packet from the server.",
 ["inputs","histories"],"all byte strings and all packet sequences sent to a server or a client at any point of a call",
 "No test sends a malformed, duplicate or misplaced packet.",
 ["srpc/server-rpc.go","srpc/client-rpc.go","srpc/common-rpc.go","srpc/packet.go","srpc/packet-rw.go","srpc/rpcproto.pb.go"],
 [("Packet.Validate","srpc/packet.go"),("HandleCallStart rejects a second start","srpc/server-rpc.go"),("HandleCallData rejects data after completion","srpc/common-rpc.go"),("ReadPump turns handler errors into a close","srpc/packet-rw.go")],None,["HandlePacketData result; handler invocation record; stream closed"])

p("C10","Wire messages encode and decode as standard protobuf, losslessly",
 "Every protocol message (call packets and nested-stream packets) encodes to bytes that a standard protobuf implementation decodes to the same value, decodes any standard encoding of that value (any field order, unknown fields, last value wins) to the same value, and survives an encode-decode round trip unchanged with the size it announced; the JSON form round-trips too, clones are equal and independent, and decoding arbitrary bytes either fails cleanly or agrees with standard protobuf wherever that accepts them. The packet constructors and validation accept exactly the packets the protocol defines: a start needs service and method, data needs content, an empty-content mark, completion or an error, and something must be set.",
 ["inputs"],"all values of the message types and all byte strings",
 "TestRawMessage and the e2e tests encode a handful of short ASCII packets with the same code on both ends, so any self-consistent encoding passes.",
 ["srpc/rpcproto.pb.go","srpc/packet.go","rpcstream/rpcstream.pb.go","srpc/rpcproto.proto","rpcstream/rpcstream.proto"],
 [("generated MarshalVT/UnmarshalVT/SizeVT/CloneVT/EqualVT/JSON","srpc/rpcproto.pb.go, rpcstream/rpcstream.pb.go"),("Validate and New*Packet","srpc/packet.go")],None,["encoded bytes, decoded values, validation errors"])

p("C11","The mux routes each call to the most recently registered matching handler",
 "After any sequence of registrations, a call for a service and method is given to the handler most recently registered for that pair and to no other, with the service and method names and the stream passed through, and its result is returned; if none is registered, the fallback invokers are tried in order until one handles it or fails, and otherwise the call is reported as not found. Queries for a service or a service's method answer exactly according to the registrations, empty names are never registered, and registrations may run concurrently with calls.",
 ["histories","inputs","schedules"],"all sequences of registrations, queries and calls over overlapping services and methods, including concurrent ones",
 "Tests register exactly one handler and call methods that exist.",
 ["srpc/mux.go","srpc/mux-verbose.go","srpc/handler.go","srpc/invoker.go"],
 [("services map of method to handler under a lock","srpc/mux.go"),("fallback loop","srpc/mux.go")],
 [("services","service -> method -> handler","srpc/mux.go")],["InvokeMethod result and which handler ran; HasService; HasServiceMethod"])

p("C12","Prefix, list, function and logging wrappers forward calls faithfully",
 "A prefix wrapper (client or server side) forwards a call exactly when the service name starts with one of its prefixes, with the first listed matching prefix removed, and otherwise answers unimplemented / not found without forwarding; with no prefixes it forwards everything unchanged. A list of invokers offers the call to each in order until one handles it or fails. Logging wrappers and close-hook wrappers forward every operation once, unchanged, with the same result, and a close hook runs on every close with the first error returned.",
 ["inputs","histories"],"all prefix lists, service names and invoker lists and results, arbitrarily nested",
 "No existing test uses a prefix wrapper, invoker list, verbose mux or close hook; one uses the verbose client for one successful call.",
 ["srpc/client-prefix.go","srpc/invoker-prefix.go","srpc/strip-prefix.go","srpc/invoker.go","srpc/client-verbose.go","srpc/mux-verbose.go","srpc/stream.go","srpc/writer.go"],
 [("CheckStripPrefix","srpc/strip-prefix.go"),("InvokerSlice.InvokeMethod","srpc/invoker.go"),("VClient/VMux forwarding","srpc/client-verbose.go, srpc/mux-verbose.go"),("streamWithClose, packetWriterWithClose","srpc/stream.go, srpc/writer.go")],None,["arguments seen by the wrapped object; returned values"])

p("C13","A client set tries clients in order and stops at the first real answer",
 "A call on a client set goes to its clients in order, skipping missing ones; it moves to the next client only when one answers 'unimplemented' or reports cancellation although the caller's context is not cancelled, and returns the first success or other error as is, without contacting later clients. If every client declined, the caller gets 'unimplemented'; if there was no client, 'no available rpc clients'; if the caller's context is cancelled, 'context canceled'.",
 ["inputs","histories"],"all lists of clients (including missing ones) and all combinations of their answers, for unary calls and stream opens",
 "No existing test uses a client set.",
 ["srpc/client-set.go"],[("execCall loop","srpc/client-set.go")],None,["sequence of clients contacted; returned error and message"])

p("C14","Raw messages hold, copy and release exactly the bytes given",
 "A raw message always reports, marshals and sizes exactly the bytes last set or decoded into it (nothing after being cleared or reset), in every way it can be marshalled. In copy mode, changing the source slice after setting, or the output slice after marshalling, never changes the message, nor does changing the message change slices handed out by marshalling; in non-copy mode the message uses the given slice itself.",
 ["histories","inputs"],"all sequences of set, decode, clear, reset, marshal and mutation of the slices involved, in both modes",
 "TestRawMessage marshals and unmarshals one fixed message.",
 ["srpc/message.go"],[("SetData/MarshalVT copy rules","srpc/message.go")],None,["GetData, MarshalVT, MarshalToSizedBufferVT, SizeVT"])

p("C15","Byte-stream adapters over message streams lose and invent no byte",
 "Reading a message stream (a plain stream or a nested-call stream) through its byte-stream adapter yields exactly the concatenation of the message contents received, in order, for every sequence of message sizes (empty ones included) and read buffer sizes, and then the stream's end or error; a read returns as soon as some data is there, and one with room never returns zero bytes without an error. Writing through the adapter sends exactly the bytes written, in order, and reports the count written.",
 ["inputs","histories"],"all sequences of message sizes, read buffer sizes and writes, including errors at any point",
 "No existing test uses either adapter.",
 ["srpc/stream-rwc.go","rpcstream/read-writer.go","rpcstream/writer.go"],
 [("left-over buffer in Read","srpc/stream-rwc.go, rpcstream/read-writer.go"),("Write","srpc/stream-rwc.go, rpcstream/read-writer.go, rpcstream/writer.go")],
 [("buf","bytes of a message not yet read","srpc/stream-rwc.go, rpcstream/read-writer.go")],["Read/Write results"])

p("C16","The connection adapter over any read-write-closer is a faithful byte pipe",
 "A network connection built over an arbitrary read-write-closer delivers exactly the bytes the underlying stream delivered, in order and without loss for every read buffer size, then the underlying end or error; writes pass every byte through in order despite short writes and report the count; a read past its read deadline fails with a deadline error, and closing it unblocks pending reads and stops its background reader. Calls multiplexed over such a connection work as over any other.",
 ["inputs","histories","schedules"],"all chunkings of the underlying stream, read buffer sizes, short-write patterns, and points of close",
 "No existing test uses the adapter or the constructor that multiplexes over it.",
 ["srpc/rwc-conn.go","srpc/muxed-conn.go"],
 [("rxPump and packet channel","srpc/rwc-conn.go"),("Read/Write","srpc/rwc-conn.go"),("NewMuxedConnWithRwc","srpc/muxed-conn.go")],
 [("packetCh","chunks read and not yet consumed","srpc/rwc-conn.go")],["Read/Write/Close results; calls over NewMuxedConnWithRwc"])

p("C17","A call nested in another call's stream behaves like a direct call",
 "A call made through a nested-call stream, at any nesting depth and through any number of stream proxies, delivers the same messages, results, errors and end of stream to caller and handler as the same call made directly, and cancelling or closing it cancels the handler's context. Several nested calls, also to different components, run concurrently without mixing.",
 ["inputs","schedules","histories"],"all unary and streaming call histories, nesting depths, proxy chains and interleavings",
 "TestE2E_RpcStream makes one nested unary call at depth one without a proxy.",
 ["rpcstream/rpcstream.go","rpcstream/writer.go","rpcstream/proxy.go"],
 [("HandleRpcStream runs a server rpc over the stream","rpcstream/rpcstream.go"),("NewRpcStreamOpenStream","rpcstream/rpcstream.go"),("copyRpcStreamTo","rpcstream/proxy.go")],None,["results at the nested caller and handler"])

p("C18","Nested streams connect to exactly the component named, or report why not",
 "Opening a nested stream looks up exactly the component ID the caller gave, once, before anything is served, and the caller is answered with an acknowledgement: on success calls go to that component's services, and if the lookup fails or finds nothing the caller (who waits for the acknowledgement, or reads the answer of its call) gets the lookup's error text or 'no server for that component', and nothing is served. A first packet that is not an init is rejected, and a component that was acquired is released exactly once, when its stream is done.",
 ["inputs","histories","fault_sequences"],"all component IDs, lookup outcomes, first packets, and ways the nested stream can end, with and without waiting for the acknowledgement",
 "TestE2E_RpcStream uses a getter that always succeeds, ignores the ID, has no release function and does not wait for the ack.",
 ["rpcstream/rpcstream.go","rpcstream/errors.go"],
 [("init packet, getter, ack","rpcstream/rpcstream.go HandleRpcStream / OpenRpcStream"),("release via defer","rpcstream/rpcstream.go")],None,["getter calls, release calls, error seen by the caller"])

p("C19","Raw tunnels carry bytes unmodified and always clean up",
 "A nested stream tunnelled to a raw read-write-closer delivers to each side exactly the bytes the other side wrote, in order, until one side ends, and what the raw side wrote before ending reaches the caller. A failed lookup is reported to the caller with its text; whenever the tunnel ends, the raw side is closed, its release function has run exactly once, and the handler has returned with the first real error.",
 ["inputs","histories","fault_sequences"],"all byte sequences, chunk sizes and ends or failures on either side",
 "No existing test uses the raw tunnel.",
 ["rpcstream/raw-stream.go","rpcstream/read-writer.go"],
 [("HandleRawRpcStream / copyRwcTo","rpcstream/raw-stream.go")],None,["bytes at both ends; Close and release counts; handler result"])

p("C20","The nested-stream proxy forwards packets unmodified and always cleans up",
 "The proxy looks up the component ID it received once, opens the remote stream with the component ID the lookup returned, and from then on forwards every packet of each side to the other exactly once, in order and unmodified, including the remote's acknowledgement. A failed lookup or dial is reported to the caller with its text. When either side ends or fails, the proxy ends (it does not stay blocked on the other side) and returns an error that a side gave, or none if both ended cleanly; whenever the proxy ends, the remote stream has been closed and the release function has run exactly once.",
 ["inputs","histories","fault_sequences"],"all component IDs, lookup and dial outcomes, packet sequences, and ends or failures on either side",
 "No existing test uses the proxy.",
 ["rpcstream/proxy.go"],[("HandleProxyRpcStream / copyRpcStreamTo","rpcstream/proxy.go")],None,["packets at both ends; getter, caller, Close and release counts; handler result"])

p("C21","A TCP listener serves every dialling client and stops when told",
 "Clients created by dialling a listening server can make calls, any number of clients connected at the same time are all served regardless of what the others do (idle, busy, hostile or disconnected), and when a client or connection goes away its calls' handlers are cancelled. When the listen call's context is cancelled or its error channel fires, it returns and the address no longer accepts connections.",
 ["histories","schedules","fault_sequences"],"all orders of connecting, calling, idling, sending garbage and disconnecting by several clients",
 "No existing test dials, listens, or accepts more than one connection.",
 ["srpc/net.go","srpc/accept.go","srpc/muxed-conn.go","srpc/server.go"],
 [("Dial / Listen","srpc/net.go"),("AcceptMuxedListener","srpc/accept.go"),("AcceptMuxedConn","srpc/server.go")],None,["calls over real loopback TCP connections"])

p("C22","The HTTP/WebSocket server serves its path, every client and every stream",
 "A WebSocket connection is accepted exactly on the configured path (on every path if none is configured), and over it any number of concurrent calls from any number of clients behave like direct calls, for every message size. When a client goes away, normally or abruptly, its calls' handlers are cancelled while other clients' calls continue; a plain HTTP request never reaches a handler.",
 ["inputs","histories","schedules"],"all request paths, numbers of clients, call mixes and disconnect points",
 "No existing test uses the HTTP server or a WebSocket.",
 ["srpc/server-http.go","srpc/websocket.go","srpc/muxed-conn.go"],
 [("ServeHTTP path check, accept loop","srpc/server-http.go"),("NewWebSocketConn","srpc/websocket.go")],None,["calls over real loopback WebSocket connections"])

p("C23","Generated Go bindings compile and connect each method to its implementation",
 "For every protobuf service definition (any number of services and methods, streaming kinds, naming styles, message packages and comments), the Go code generator produces code that compiles against this library, and for each method the generated client, through a server registered with the generated registration, reaches exactly the implementation method of that name with the right messages and streaming shape, under the fully qualified service name and the method's declared name or a custom service ID. Methods not in the service are reported unimplemented. The committed bindings of the sample services behave the same.",
 ["programs","inputs"],"all service definitions in the supported language, and all calls of their methods",
 "Tests only compile the three committed generated files; the generator itself has no test.",
 ["cmd/protoc-gen-go-starpc/main.go","echo/echo_srpc.pb.go","mock/mock_srpc.pb.go"],
 [("generateService and helpers","cmd/protoc-gen-go-starpc/main.go")],None,["generated source compiles; calls through it"])

p("C24","The in-memory stream pair behaves like a stream",
 "The two ends of an in-memory stream pair deliver each other's messages exactly once, in order and unmodified; closing the send side lets the other side read all messages and then io.EOF while the opposite direction keeps working. Closing an end or cancelling the context makes its operations return, no operation ever panics, and sending after closing fails.",
 ["histories","schedules"],"all sequences and interleavings of send, receive, close-send, close and context cancel on the two ends",
 "No existing test uses the pair.",
 ["srpc/stream-pipe.go"],[("data channel per direction, close once","srpc/stream-pipe.go")],None,["MsgSend/MsgRecv/CloseSend/Close results"])

p("C25","The browser packet writer pushes each packet once and ends once",
 "Built for JavaScript, the packet writer pushes each written packet to the JavaScript sink exactly once, in order, as bytes that decode to the same packet, and closing it any number of times ends the sink exactly once. Writing after close fails and pushes nothing.",
 ["inputs","histories"],"all packet sequences and orders of write and close",
 "The js/wasm code is only compiled, never run, by the existing tests.",
 ["srpc/pushable_js.go"],[("PushablePacketWriter","srpc/pushable_js.go")],None,["calls on the JavaScript pushable object"])

p("C26","Concurrent use of clients, streams, muxes and servers is free of data races",
 "Clients, muxes, servers, connections and wrappers may be used by many goroutines at once, one goroutine may send on a stream (or several may) while another receives and a third closes or cancels it, without any data race, deadlock or corrupted message.",
 ["schedules","programs"],"all concurrent programs over the public API that keep to one receiver per stream",
 "The existing tests use each stream from one goroutine and run without the race detector.",
 ["srpc/common-rpc.go","srpc/client-rpc.go","srpc/server-rpc.go","srpc/packet-rw.go","srpc/mux.go","srpc/client.go","rpcstream/rpcstream.go"],
 [("bcast lock around rpc state","srpc/common-rpc.go"),("writeMtx","srpc/packet-rw.go"),("rmtx","srpc/mux.go")],None,["Go race detector; results of the operations"])

p("C27","TypeScript calls deliver the same messages, results and errors as made",
 "A call of any kind between the TypeScript client and server runs its handler exactly once with exactly the messages the caller sent, in order and unmodified (empty ones included), and the caller receives exactly the handler's messages or result, in order, and then the handler's end or error text, never an error in place of the messages before it. This holds for any number of concurrent calls, made by either end of a connection, over every transport of the library (packets, framed bytes, muxed connection, message channel or port, broadcast channel, nested stream), however the bytes are split or delayed.",
 ["inputs","histories","schedules"],"all calls, handler scripts, transports, chunkings and delays",
 "The TypeScript tests make the fixed calls of the echo sample over one transport with immediate delivery (and are not among the stable tests here).",
 ["srpc/client.ts","srpc/server.ts","srpc/common-rpc.ts","srpc/client-rpc.ts","srpc/server-rpc.ts","srpc/invoker.ts","srpc/proto-rpc.ts","srpc/conn.ts","srpc/message-port.ts","srpc/broadcast-channel.ts","echo/echo_srpc.pb.ts"],
 [("CommonRPC data source and sink","srpc/common-rpc.ts"),("Client.*Request","srpc/client.ts"),("createInvokeFn","srpc/invoker.ts")],None,["messages at handler and caller; result or error of the call"])

p("C28","Every TypeScript call ends, on both sides, and leaves no stream open",
 "When a caller aborts, leaves the stream of replies, has a failing source of requests, cannot open a stream, or the connection is lost at either end, the caller's call ends (an abort takes effect at once, also while the stream opens) with a fitting error or with the results which came before, never with a clean end of an unfinished call; a handler waiting for requests is told, never by a clean end; and no stream of a call stays open. Messages received before are a prefix of those sent.",
 ["histories","fault_sequences","schedules"],"all points of abort, loss and early end in all calls over all transports",
 "The TypeScript tests only abort the sample call at one point over one transport.",
 ["srpc/client.ts","srpc/common-rpc.ts","srpc/server-rpc.ts","srpc/conn.ts","srpc/message-port.ts","srpc/broadcast-channel.ts","srpc/errors.ts"],
 [("startRpc, abort listener","srpc/client.ts"),("close","srpc/common-rpc.ts"),("StreamConn.close","srpc/conn.ts")],None,["end of the call, of the handler, of the streams"])

p("C29","The TypeScript protocol ends hold to the wire protocol, whatever the peer sends",
 "Packets are framed and parsed as a 4-byte little-endian length and the message for every splitting of the bytes. For every sequence of packets and bytes from the peer, a server runs a handler only for a complete start of a registered service and method, exactly once, with exactly the data which belongs to the call, answers unknown names and violations with an error, and ignores what follows the end of a call; a client yields exactly the data before the final status, then that status, and what each writes is a valid packet sequence ending with one final status or cancel.",
 ["inputs","histories","fault_sequences"],"all packet and byte sequences, also outside of the protocol, and all splittings",
 "The TypeScript tests only ever connect the library with itself.",
 ["srpc/packet.ts","srpc/message.ts","srpc/length-prefix.ts","srpc/array-list.ts","srpc/common-rpc.ts","srpc/client-rpc.ts","srpc/server-rpc.ts","srpc/mux.ts","srpc/handler.ts"],
 [("lengthPrefixDecode","srpc/packet.ts"),("handlePacket","srpc/common-rpc.ts"),("handleCallStart","srpc/server-rpc.ts")],None,["packets written, handler runs, data and end seen by the caller"])

p("C30","TypeScript channel streams deliver every message, then the end, and keep alive",
 "A stream over a message or broadcast channel delivers what one end writes to the other exactly once, in order (falsy values included), nothing before both ends are open, and then the writer's end or error. Closing an end any number of times ends its own source and sink and tells the remote; with keep-alives a stream whose remote goes silent fails after the idle timeout and one with a live remote never does.",
 ["histories","schedules","inputs"],"all sequences and times of open, write, end, failure, silence and close at both ends",
 "No TypeScript test uses a channel stream alone, with an error, a close, or keep-alives.",
 ["srpc/channel.ts","srpc/watchdog.ts","srpc/message-port.ts","srpc/broadcast-channel.ts"],
 [("ChannelStream onMessage, close, idle watchdog","srpc/channel.ts"),("MessagePortDuplex, BroadcastChannelDuplex","srpc/message-port.ts, srpc/broadcast-channel.ts")],
 [("localAck/remoteAck/remoteOpen","handshake of both ends","srpc/channel.ts")],["messages at both ends, ends, times, open ports"])

p("C31","TypeScript nested streams connect to the component named and forward faithfully",
 "Opening a nested stream in TypeScript names the component first; the remote looks it up once and answers with an acknowledgement, carrying the lookup's error text if it fails, in which case nothing is served and the opener who waits is told. Packets then go both ways exactly once, in order and unmodified, followed by each side's end or error; wrong first packets are rejected.",
 ["inputs","histories","fault_sequences"],"all component names, lookup outcomes, packet sequences in either role, ends and failures",
 "The TypeScript test opens one nested stream with a lookup that succeeds.",
 ["rpcstream/rpcstream.ts"],[("openRpcStream, handleRpcStream, RpcStream","rpcstream/rpcstream.ts")],None,["packets at both ends, lookups, errors"])

p("C32","TypeScript building blocks: mux, containers, watchdog, pushables, errors",
 "The TypeScript mux gives each lookup to the handler registered last for the service and method, then to the fallbacks in order, and finds nothing else. A value container gives every waiter the current or next value; a watchdog expires exactly when it was not fed for its timeout and was not cleared; writing a source to a pushable delivers all values, then the end or error; error checks recognise exactly their errors, whatever they are given.",
 ["histories","inputs","schedules"],"all sequences of operations and times, and all values",
 "No TypeScript test uses any of these on its own.",
 ["srpc/mux.ts","srpc/handler.ts","srpc/value-ctr.ts","srpc/open-stream-ctr.ts","srpc/handle-stream-ctr.ts","srpc/watchdog.ts","srpc/pushable.ts","srpc/errors.ts"],
 [("lookupMethod","srpc/mux.ts"),("wait, set","srpc/value-ctr.ts"),("Watchdog","srpc/watchdog.ts"),("writeToPushable","srpc/pushable.ts")],None,["results of lookups and waits, expiry times, delivered values"])

p("C33","Go and TypeScript ends work together as ends of the same language do",
 "A call of any kind from the TypeScript client to a Go server, or from the Go client to a TypeScript server, direct, over a muxed connection, or in a nested stream with or without acknowledgement, delivers the same messages, results, error texts and ends as one within a language. Aborts, early leaving, failing sources and a lost connection end the call on both sides, and no stream stays open.",
 ["inputs","histories","schedules","fault_sequences"],"all calls in both directions, chunkings, ends and interleavings",
 "No stable test runs the two languages against each other; the integration script makes the sample calls once.",
 ["srpc/client.ts","srpc/server.ts","srpc/conn.ts","srpc/muxed-conn.go","srpc/client.go","srpc/server.go","srpc/packet.ts","srpc/packet-rw.go","rpcstream/rpcstream.ts","rpcstream/rpcstream.go"],
 [("packet framing","srpc/packet.ts, srpc/packet-rw.go"),("final status and cancel packets","srpc/common-rpc.ts, srpc/common-rpc.go"),("init and ack","rpcstream/rpcstream.ts, rpcstream/rpcstream.go")],None,["messages and ends at caller and handler, streams"])

p("C34","Generated TypeScript bindings connect each method to its implementation",
 "For proto files with services of any number of methods of any kind, messages of the same or other files, and comments, the code generated for TypeScript type checks; the definition names the service's type, and for each method its name, message types, kind and idempotency. A client method asks its rpc for exactly the service (or its override) and method, with the encoded requests and the abort signal given, also when used detached. On a server with an implementation each call reaches exactly the implementation of its method and returns its responses, and a call of a method which is not implemented fails.",
 ["inputs"],"all service definitions: names, packages, files, kinds, message types, comments",
 "The TypeScript tests use the code generated for two sample services; nothing runs the generator.",
 ["cmd/protoc-gen-es-starpc/typescript.ts","srpc/definition.ts","srpc/handler.ts","srpc/proto-rpc.ts","srpc/invoker.ts","srpc/message.ts"],
 [("generateTs, generateService","cmd/protoc-gen-es-starpc/typescript.ts"),("createHandler","srpc/handler.ts")],None,["generated code and its types, what clients ask, calls that reach the implementation"])

p("C35","The Echoer and mock servers answer each method as described",
 "The Echoer reference servers, in Go and in TypeScript, answer every request: Echo with an equal message which is not the request itself (Go); EchoServerStream with the request five times, 200 ms apart, then the end after another 200 ms; EchoClientStream with the first message of the caller, whether or not more follow, and with an error if there is none; EchoBidiStream with \"hello from server\", then each message as it comes, then the end once the caller ended (Go: with the error \"got message with empty body\" at the first empty message); DoNothing with an empty message; RpcStream by running nested calls on the mux (or server) given, for any component, and with an error if none was given. When the caller cancels, leaves or loses the connection, the server's method ends. MockServer (Go) runs its callback once per request and returns its result or error, \"unimplemented\" without one, also under another service ID.",
 ["inputs","schedules","histories"],"all messages and numbers of messages, pauses, cancels and transports",
 "The tests make one call of each method with one message each, over one transport.",
 ["echo/server.go","echo/server.ts","mock/mock.go"],
 [("EchoServer","echo/server.go"),("EchoerServer","echo/server.ts")],None,["answers and ends at the caller"])

open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
