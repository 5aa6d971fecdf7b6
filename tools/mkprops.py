#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json,sys
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=False):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
F="internal/frames/"
p("C01","Protocol frames survive encode/decode unchanged",
  "Encoding any protocol frame (setup, the four request kinds, request-n, cancel, payload, error) into a buffer of its declared size and decoding it again yields the same stream, flags, numbers, metadata, data and strings. The encoder fills exactly the declared size. (Requests that are not channels always decode as complete, and empty metadata is equivalent to absent metadata.)",
  ["inputs"],"every field value and every metadata/data/string content and length that fits the wire format",
  "Tests encode a handful of fixed frames with short contents; flag, length-boundary and field-width combinations are unbounded.",
  [F+"setup.go",F+"request_payload.go",F+"payload.go",F+"request_n.go",F+"cancel.go",F+"error.go",F+"frame_header.go"],
  [("frame Encode/Decode/Size methods",F+"*.go")],["bytes written into the caller's buffer","fields of the decoded frame"])
p("C02","Encoded frames follow the RSocket wire layout",
  "Every frame that is encoded starts with the 31-bit big-endian stream id, then six bits of frame type and ten bits of flags, followed by the fields in the order, width and endianness of the RSocket 1.0 specification. Metadata is present exactly when the metadata flag is set and is preceded by its 24-bit length; follow, complete and next flags reflect the frame's fields.",
  ["inputs"],"all frame kinds, all field values, all metadata and data",
  "Round-trip tests cannot see a layout that encoder and decoder both get wrong; a few golden bytes do not cover all widths.",
  [F+"frame_header.go",F+"types.go",F+"setup.go",F+"request_payload.go",F+"payload.go"],
  [("frame header and flag bits",F+"frame_header.go"),("per-type bodies",F+"*.go")],["bytes written into the caller's buffer"])
p("C03","Malformed frames are rejected with an error, never a crash",
  "Decoding arbitrary bytes as any protocol frame either succeeds or reports an error; it never panics and never reads outside the bytes it was given. A frame too short to hold its own fixed fields or declared lengths is reported as an error.",
  ["inputs"],"every byte string of every length and every frame type",
  "Tests only decode frames that the encoder produced.",
  [F+"*.go","transport/rsocket/decoder.go"],[("frame Decode methods",F+"*.go"),("length checks",F+"util.go")],["error result of decoding","panics"])
p("C04","Fragmentation preserves payload and respects the frame size",
  "Splitting a request or payload into fragments for a given maximum frame size yields frames that each fit that size, of which the first keeps the original kind and stream, the others are payload fragments of the same stream, and every fragment but the last is marked as followed. Concatenating the fragments' metadata and data in order gives exactly the original metadata and data, and completion is signalled only by the last.",
  ["inputs"],"all metadata/data lengths and contents and all maximum sizes that leave room for a payload",
  "The fragment test fixes one payload size and one limit; boundaries (metadata ending exactly at, before or after a fragment edge) are not sampled.",
  [F+"request_payload.go",F+"payload.go",F+"util.go"],[("fragment splitting",F+"util.go")],["list of frames returned by fragmentation"])
p("C05","TCP stream framing delivers whole frames in order",
  "Each frame written to a TCP connection is preceded by its 24-bit length, and the reader splits any chunking of the byte stream into exactly the frames that were written, in order. Frames longer than the length prefix can express are refused with an error, and an incomplete frame at the end of the stream is never delivered.",
  ["inputs","histories"],"all frame sizes and all ways the byte stream can be chopped into reads",
  "Chunking of a TCP stream is decided by the network; tests only exercise the 24-bit integer.",
  ["transport/rsocket/tcp_conn.go","transport/rsocket/decoder.go","internal/u24/u24.go"],[("length-prefixed split","transport/rsocket/tcp_conn.go doSplit"),("24-bit integer","internal/u24/u24.go")],["bytes on the connection","frames returned by the reader"])
p("C06","A received frame is not changed by later reads",
  "The metadata and data of a frame returned by the TCP connection's reader stay what they were when the frame was returned, no matter what is read from the connection afterwards.",
  ["inputs","histories"],"all frames and all later traffic","Needs two frames read from one connection whose buffers overlap; no test reads from a connection.",
  ["transport/rsocket/tcp_conn.go","transport/rsocket/decoder.go"],[("frame decoding from the read buffer","transport/rsocket/tcp_conn.go Read")],["bytes of a previously returned frame"])
M="msgpack/"
p("C07","MessagePack values survive a write/read round trip",
  "For every boolean, integer of every width, float, string, byte array, time, nil, array length and map length, writing it with the encoder and reading it back with the matching decoder call yields the same value and consumes exactly the bytes written.",
  ["inputs"],"every value of every supported type","Tests sample values near format boundaries; every value of 64-bit types and every length must hold.",
  [M+"encoder.go",M+"decoder.go",M+"data_reader.go"],[("encoder",M+"encoder.go"),("decoder",M+"decoder.go")],["decoded value","remaining bytes"])
p("C08","The size pass equals the bytes the encoder writes",
  "For every sequence of writes, the size computed by the sizing pass equals the number of bytes the encoder produces for the same sequence, so a buffer of that size is filled exactly and never overflows.",
  ["inputs"],"every value of every writable type, including nils and dynamically typed values",
  "A size mismatch shows only at particular format boundaries and types.",
  [M+"sizer.go",M+"encoder.go"],[("sizer",M+"sizer.go"),("encoder",M+"encoder.go")],["sizer length vs encoder position"])
p("C09","Encoded values conform to the MessagePack wire format",
  "Every scalar, string, byte array, array header, map header, nil and timestamp written by the encoder is a well-formed MessagePack item with the format byte, big-endian length and payload the MessagePack specification assigns to its type and value, in the shortest integer format for its width.",
  ["inputs"],"every value of every supported scalar type and every length",
  "Round-trip tests accept any private format that both sides share.",
  [M+"encoder.go",M+"format.go"],[("encoder",M+"encoder.go"),("format constants",M+"format.go")],["bytes written"])
p("C10","Decoding arbitrary bytes never panics and errors are sticky",
  "Reading any type from arbitrary bytes either returns a value or an error; it never panics, never reads past the input and never allocates more elements than the input could hold. Truncated input is always reported as an error, and after a failed read from exhausted input the reader does not move beyond the input.",
  ["inputs"],"every byte string and every decoder call","Tests only decode what the encoder wrote.",
  [M+"decoder.go",M+"data_reader.go"],[("bounds-checked reader",M+"data_reader.go"),("decoder",M+"decoder.go")],["panics","error result","reader position"])
p("C11","Skipping consumes exactly one value",
  "Skipping a value moves the reader past exactly the bytes of one complete MessagePack value, whatever its type and however deeply nested, so the next read sees the following value. Truncated or malformed input is reported as an error.",
  ["inputs"],"every well-formed value of every format and every malformed byte string",
  "Tests never skip extension types or nested collections exhaustively.",
  [M+"decoder.go"],[("skip and size computation",M+"decoder.go Skip/getSize")],["reader position after skipping"])
p("C12","Dynamically typed values round-trip and unsupported ones are errors",
  "Writing a dynamically typed value (nil, booleans, integers, floats, strings, byte arrays, times, lists and maps of these) and reading it back dynamically gives an equal value of the documented result type and consumes exactly its bytes. A value whose type cannot be encoded yields an error instead of silently corrupt output.",
  ["inputs"],"all supported dynamic types, values and unsupported types",
  "Tests check one representative per type.",
  [M+"encoder.go WriteAny",M+"decoder.go ReadAny",M+"codec.go"],[("dynamic encode",M+"encoder.go"),("dynamic decode",M+"decoder.go")],["decoded value","error"])
p("C13","Optional values distinguish absent from present",
  "Writing an optional value and reading it back as optional yields absent exactly when absent was written and otherwise the same value, for every scalar type; an absent value occupies exactly one nil byte.",
  ["inputs"],"every optional scalar type and value","Tests use one value per type.",
  [M+"encoder.go",M+"decoder.go",M+"sizer.go"],[("nillable writers and readers",M+"encoder.go, decoder.go")],["decoded pointer"])
p("C14","Narrow integer reads fail rather than truncate",
  "Reading an integer with a narrower or differently signed type than was written returns the exact value when it fits the requested type and an error when it does not; a silently altered number is never returned.",
  ["inputs"],"every written integer and every read width","Needs every writer/reader width pair and boundary.",
  [M+"decoder.go"],[("range checks in narrowing readers",M+"decoder.go")],["decoded integer","error"])
p("C15","Operation tables survive encode/decode; bad tables are errors",
  "Serialising a list of operations and parsing it back gives the same operations in the same order. Parsing arbitrary bytes never panics or allocates without bound: it yields a list or an error, and a wrong magic number, unsupported version or truncated table is an error.",
  ["inputs"],"all operation lists whose names fit 16-bit lengths; all byte strings","No tests exist for malformed tables.",
  ["operations/operatons.go"],[("table codec","operations/operatons.go")],["parsed table","error"])
p("C16","Every advertised operation reaches its own handler",
  "Each registered handler is advertised under an index, kind, namespace and name with which a request is dispatched to exactly that handler; indexes of different operations of one kind never coincide, and importing the same operation again returns the same index.",
  ["histories","inputs"],"all sequences of registrations and imports","Tests register one handler at a time.",
  ["invoke/handlers.go"],[("registration tables","invoke/handlers.go")],["advertised table","handler that runs"])
p("C17","Stream ids are valid, unique and of the right parity",
  "Every stream id handed out is non-zero, fits in 31 bits and is odd for a client and even for a server, for every number of ids handed out before. Ids do not repeat until the whole id space of that side has been used, also when handed out from several goroutines at once.",
  ["histories","schedules"],"every starting point of the sequence and every interleaving of callers","The test checks a few ids around the start and one wrap.",
  ["internal/socket/stream_id.go"],[("atomic counter with masking","internal/socket/stream_id.go")],["returned ids"])
p("C18","The stream table behaves as a map from id to stream",
  "Looking up an id returns the stream registered under it and not since removed, or nothing (an id is not registered twice); registering or removing one id never affects another. All accesses to the table are mutually excluded, so this holds under concurrent use.",
  ["histories","schedules"],"all sequences of register, look up and remove, on one or many goroutines","There is no test of the table; removal of the first or last entry and id collisions need specific histories.",
  ["proxy/lookup.go"],[("linked stream table","proxy/lookup.go")],["result of lookups"])
p("C19","The unbounded queue loses, duplicates and reorders nothing",
  "Every item sent to the unbounded queue comes out exactly once and in the order sent; sending never blocks on the reader, and after close the remaining items are still delivered before the end is reported.",
  ["histories","schedules"],"all sequences of send, load and close","The test uses a couple of fixed sequences.",
  ["internal/buffer/unbounded.go"],[("backlog plus hand-off channel","internal/buffer/unbounded.go")],["items received"])
p("C20","A mono or flux signals at most one terminal event",
  "A subscriber is notified of completion or error at most once per subscription, receives nothing after that, and its finally-callback runs exactly once when the stream ends by completion, error or cancellation. A mono delivers at most one value.",
  ["histories"],"all sequences of producer signals and cancellations","Tests follow the happy path.",
  ["rx/mono/mono.go","rx/flux/flux.go","rx/mono/processor.go","rx/flux/processor.go"],[("closed flag and signal dispatch","rx/mono/mono.go, rx/flux/flux.go")],["subscriber callbacks"])
p("C21","A slice-backed stream honours demand, order and cancellation",
  "A stream built from a list emits exactly the requested number of items, never more than requested, in list order without loss or repetition, and completes exactly after the last item. After cancellation nothing further is emitted.",
  ["histories","inputs"],"all list lengths and all sequences of demand","Tests request all items at once.",
  ["rx/flux/flux.go","rx/rx.go"],[("FromSlice demand loop","rx/flux/flux.go")],["emitted items"])
p("C22","Mapping a stream transforms each item once and propagates ends",
  "A mapped mono or flux delivers for every source item the transformation of that item, in order, forwards completion, error, cancellation and demand, and turns a failing transformation into exactly one error, after which nothing else is delivered.",
  ["inputs","histories"],"all item sequences and all points where the transformation or source fails","Tests map successful items only.",
  ["rx/mono/mono.go","rx/flux/flux.go"],[("Map operators","rx/mono/mono.go, rx/flux/flux.go")],["subscriber callbacks"])
p("C23","Incoming frames are dispatched to the right stream and role",
  "A received frame for a known stream is delivered only to that stream: items, completion, errors, demand and cancellation each reach the matching callback in order. Frames for unknown streams change nothing, and no well-formed frame makes the process panic.",
  ["inputs","histories"],"all frame kinds, flag combinations and stream states","No test drives the frame handler.",
  ["handler/handler.go","proxy/mono.go","proxy/flux.go"],[("HandleFrame","handler/handler.go")],["callbacks on streams","panics"])
p("C24","Requests are sent as the right frames on their own stream",
  "Each outgoing request sends one request frame of its kind carrying the given payload on a fresh stream id, with the demand asked for; further demand and cancellation are sent on the same stream id.",
  ["inputs","histories"],"all payloads and demand sequences","No test inspects frames sent by requests.",
  ["proxy/mono.go","proxy/flux.go","handler/caller.go"],[("request proxies","proxy/mono.go, proxy/flux.go")],["frames sent"])
p("C25","Every served request is answered with exactly one terminal frame",
  "For every request that expects an answer the responder sends, on that request's stream, the produced items followed by exactly one terminal frame (completion or error). Unknown operations and malformed request metadata are answered with an error frame, never with silence or a crash.",
  ["inputs","histories"],"all request kinds, metadata and handler outcomes","No test drives the responder with failing handlers or bad metadata.",
  ["handler/handler.go"],[("request handlers","handler/handler.go")],["frames sent"])
p("C26","The host's active-request count returns to zero",
  "Every request that starts on a module instance increments the active count once and decrements it exactly once when it ends in any way, so closing an instance waits for running requests and no longer.",
  ["histories","schedules"],"all request outcomes including rejected ones","Requires a WebAssembly engine and failing requests.",
  ["transport/wasmrs/host/instance.go"],[("active request accounting","transport/wasmrs/host/instance.go")],["close returns"])
p("C27","UUID text and binary forms round-trip; malformed text is rejected",
  "Formatting any UUID and parsing it back, in canonical, urn, braced and raw-hex form, yields the same UUID, and likewise for its binary and text marshalling. Text that is not one of these forms is rejected with an error and never panics; formatting gives lower-case hexadecimal groups of 8-4-4-4-12.",
  ["inputs"],"all 2^128 UUIDs and all strings","Tests parse a table of examples.",
  ["types/uuid/uuid.go","types/uuid/marshal.go","types/uuid/util.go"],[("Parse/encodeHex","types/uuid/uuid.go")],["parsed UUID","error"])
p("C28","Random UUIDs have version 4, RFC 4122 variant and fresh bytes",
  "Every generated UUID carries version 4 and the RFC 4122 variant, takes all its remaining bits from the random source, and no random bytes are used for two UUIDs, with or without the randomness pool.",
  ["histories","schedules"],"all random bytes, all pool positions and interleavings","Tests check a few generated values.",
  ["types/uuid/version4.go","types/uuid/util.go"],[("pooled randomness","types/uuid/version4.go")],["generated UUIDs"])
p("C29","UUID timestamps convert exactly",
  "The time stored in a UUID is the 60-bit count of 100-nanosecond ticks spread over its time fields, and converting it to Unix seconds and nanoseconds loses nothing; successive generated times with an unchanged clock sequence strictly increase.",
  ["inputs","histories"],"all UUIDs and clock readings","Tests do not cover time conversion.",
  ["types/uuid/time.go"],[("time conversion and clock sequence","types/uuid/time.go")],["Time/UnixTime results"])
p("C30","Port messages round-trip; short input is an error",
  "Encoding any port message and decoding it gives back the same identifiers, flags and payload. Decoding arbitrary bytes never panics; input too short for its header is an error.",
  ["inputs"],"all messages and all byte strings","No test decodes port messages.",
  ["invoke/portio.go"],[("PortIO codec","invoke/portio.go")],["decoded message","error"])
p("C31","The mesh links every import to the matching export",
  "When modules are linked, every imported operation is routed to the exported operation of the same namespace, name and kind, also after its module was reloaded, and requests for imports that nothing exports are answered with a not-found error. Modules may be loaded while other modules make and answer requests.",
  ["configurations","schedules"],"all sets of modules and operations, loaded before or during requests","Requires modules; no test of linking.",
  ["transport/wasmrs/mesh/mesh.go","transport/wasmrs/host/instance.go"],[("link","transport/wasmrs/mesh/mesh.go"),("handler tables","transport/wasmrs/host/instance.go SetRequestResponseHandler etc.")],["routed requests"])
p("C32","Custom sections of a module are found exactly",
  "Reading custom sections of given names from a WebAssembly module returns exactly the ones that are there, each with its content unchanged and complete (the last one when a name repeats), for all well-formed modules. Malformed modules, such as ones cut short, are an error and never a panic.",
  ["inputs"],"all byte strings","No tests.",
  ["transport/wasmrs/customsections/customsections.go"],[("section scan","transport/wasmrs/customsections/customsections.go")],["returned sections","error"])
p("C33","Live instances are returned for their id until removed",
  "An object stored in the live-instance table is returned under the id it was given until it is removed, two objects stored at the same time have different ids, and removed or unknown ids are reported as missing.",
  ["histories","schedules"],"all sequences of store, get and remove","No tests.",
  ["invoke/instances.go"],[("instance table","invoke/instances.go")],["lookup results"])
p("C34","Value conversion helpers pass errors through and convert exactly",
  "The conversion helpers return exactly the converted value when given a value without an error, return the error when given one, and map absent to absent and present to present for optional values; they never panic.",
  ["inputs"],"all values, nils and errors","No tests.",
  ["msgpack/convert/convert.go"],[("conversion helpers","msgpack/convert/convert.go")],["returned value and error"])
p("C35","Payload transforms invert each other",
  "For each built-in payload transform, decoding what the matching encoder produced yields the original value, and undecodable payloads yield an error.",
  ["inputs"],"all values of the built-in transforms' types and all payload bytes","Tests use single values.",
  ["transform/transform.go"],[("transforms","transform/transform.go")],["transformed values"])
p("C36","Flow steps run in order and stop at the first error",
  "A multi-step flow runs its steps one after another in the order given, feeds each step's result to the next, and ends with the final result or with the first error.",
  ["histories"],"all step outcomes","One happy-path test.",
  ["rx/flow/flow.go"],[("flow steps","rx/flow/flow.go")],["result of the flow"])
p("C37","Host and guest exchange whole frames through linear memory",
  "Frames exchanged between host and guest through the shared buffers are length-prefixed, arrive whole and in order, and a malformed or oversize frame never corrupts memory outside the buffers.",
  ["inputs","histories"],"all frame sizes and contents","Requires a WebAssembly engine.",
  ["transport/wasmrs/host/instance.go","transport/wasmrs/guest/guest.go"],[("send and receive buffers","transport/wasmrs/host/instance.go")],["frames delivered"])
p("C38","A transport hands on every frame in order and closes its connection",
  "A started transport hands every frame that arrives on its connection to its handler exactly once and in the order of arrival, and closes the connection when it ends, however it ends. A server serves every connection it accepts with a handler of its own, or closes it, hands on nothing before a setup frame that this handler accepts, and is ready from then on. Frames sent through a transport, those of its handler included, are written once, in order, and flushed when asked for, or an error is returned.",
  ["histories","schedules"],"all sequences of frames, ends and refusals","No tests of the transport.",
  ["transport/rsocket/transport.go","internal/buffer/unbounded.go"],[("receive loop","transport/rsocket/transport.go Start"),("send","transport/rsocket/transport.go Send")],["frames handled","frames written","connection closed"])
p("C39","Converting between mono and flux keeps values and ends",
  "A mono converted to a flux delivers its value once and then completes, a flux converted to a mono delivers its first item, or an error if it completes without one, and a flux converted to a void mono succeeds when it completes and not before. Errors are passed on, each conversion ends exactly once, and nothing happens before it is subscribed to.",
  ["inputs","histories"],"all numbers of items and all ends, signalled while subscribing or later","No tests of the conversions.",
  ["transform/transform.go"],[("conversions","transform/transform.go FluxToMono, FluxToVoid, MonoToFlux")],["subscriber callbacks"])
with open("/verif/properties.jsonl","w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P))
