import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=mech,observe_at=observe or [],hook_needed=hook)))
IO="src/io.rs";DEC="src/codec/decode.rs";ENC="src/codec/encode.rs";DEF="src/protocol/definitions.rs";PM="src/protocol/mod.rs"
IN="src/message/inmessage.rs";OUT="src/message/outmessage.rs";BODY="src/message/body.rs";VAR="src/types/variant.rs";ERR="src/errors.rs";FR="src/framing.rs"
st=[dict(name="decoder state",meaning="whether the 4-byte frame length has been consumed and how many bytes of the frame body are awaited",where="src/io.rs AmqpCodec::state / DecodeState")]

p("C01","Every frame sent arrives intact, in order, exactly once",
 "On an undamaged connection, the sequence of AMQP (or SASL) frames one endpoint hands to its codec is the sequence the other endpoint's codec yields: same channel, same performative, same value in every field and payload byte, same order, each exactly once, and nothing is left stuck once all bytes have arrived. This holds whatever the frames are (including empty frames and frames of many megabytes), however the byte stream is cut into reads and writes, however reading and writing interleave on one full-duplex codec, and across retryable I/O errors. A frame already delivered does not change afterwards.",
 ["schedules","inputs","fault_sequences","histories"],
 "All frame sequences in both directions, all segmentations and delays of the byte stream, all short reads/writes, back-pressure and retryable I/O errors, all interleavings of the reading and writing task of one codec instance.",
 "The unit tests call T::decode on one complete hand-written frame; no test drives AmqpCodec at all, so no segmentation, buffering state, or frame sequence is ever exercised.",
 [IO,DEC,ENC,DEF],[dict(name="two-state length-prefixed frame decoder",where="src/io.rs Decoder for AmqpCodec"),dict(name="frame encoder with buffer reservation",where="src/io.rs Encoder for AmqpCodec")],st,["tokio-codec Framed stream/sink over a simulated transport","direct Decoder/Encoder calls"])

p("C02","A connection cut anywhere loses only incomplete frames, and says so",
 "If the byte stream ends after any number of bytes, the receiver has been given exactly the frames whose last byte arrived. Ending between frames is reported as a clean end of stream, ending inside a frame is reported as an error and never as a clean end. A sender that resumes on a fresh connection from the first undelivered frame therefore delivers every frame exactly once.",
 ["crash_points","schedules","inputs"],
 "All frame sequences, every byte offset at which the stream is closed or reset, every segmentation, any number of successive reconnects.",
 "No test ends a stream early; whether leftover bytes are still visible at end-of-stream depends on what the decoder has already consumed for a half-received frame.",
 [IO],[dict(name="incomplete frame left in the read buffer so end-of-stream handling sees it",where="src/io.rs AmqpCodec::decode, ProtocolIdCodec::decode")],st,["Framed stream end"])

p("C03","No bytes a peer can send crash or hang the receiver",
 "Whatever bytes arrive, decoding frames, SASL frames, protocol headers and the messages carried in transfers returns a value or an error: it never panics, aborts, exhausts the stack or loops forever. Frames that were completely received before the first damaged byte are still delivered intact. Anything accepted can be compared, cloned, printed and re-encoded without a crash.",
 ["inputs","fault_sequences","schedules"],
 "All byte streams: valid streams with bits flipped and bytes lost, inserted, duplicated or overwritten at any position, crafted sizes, counts and nesting, and plain garbage, under every segmentation.",
 "Every existing decode test feeds well-formed bytes; none feeds damaged or hostile input.",
 [DEC,DEF,IO,IN,OUT,VAR],[dict(name="length checks before slicing",where="src/codec/mod.rs decode_check_len!, src/codec/decode.rs read_bytes_*, decode_compound*"),dict(name="generated composite decoders",where=DEF)],st,["AmqpCodec::decode","InMessage/OutMessage/Variant decode"])

p("C04","What is received depends on the bytes, not on how they were chunked",
 "For any byte stream, well-formed or not, two receivers that get the same bytes in different pieces, at different times, through differently sized buffers and with different numbers of redundant decode attempts observe the same frames, in the same order, followed by the same error or the same clean end. A frame is yielded as soon as its last byte has arrived, and bytes that follow a yielded frame are left unread.",
 ["schedules","inputs","fault_sequences"],
 "All byte streams (valid, damaged, truncated) and all pairs of chunkings and buffer states for them, for the frame codec and the protocol header codec.",
 "No test feeds the same bytes twice in different pieces; the decoder keeps state between calls and has paths that depend on how much is buffered.",
 [IO],[dict(name="decode loop over header/body states",where="src/io.rs AmqpCodec::decode"),dict(name="fixed 8-byte header decoder",where="src/io.rs ProtocolIdCodec::decode")],st,["sequence of Decoder results"])

p("C05","A malformed frame is rejected, and only that frame",
 "A frame of valid length whose content violates the protocol - wrong frame type, data offset below 2 or past the frame's end, unknown or wrong-layer descriptor, missing mandatory field, field of the wrong type, invalid UTF-8, unknown enumeration value, inner size or count running past its container, or bytes left over after the performative - is answered with an error and never with a frame. All frames before and after it in the stream are delivered intact when the receiver keeps reading. A length prefix below the 8-byte minimum is answered with an error. (Not demanded: rejecting surplus content inside the space a list, map or described value declares, an odd last map item, or a boolean byte other than 0 and 1.)",
 ["inputs","fault_sequences","schedules"],
 "All streams mixing well-formed frames with any number of malformed frames of the listed kinds at any positions, under every segmentation.",
 "No test decodes a malformed frame, let alone continues after one.",
 [IO,DEC,DEF,PM],[dict(name="frame header validation",where="src/codec/decode.rs decode_frame_header"),dict(name="unparsed bytes check",where="src/io.rs UnparsedBytesLeft"),dict(name="descriptor, format code, mandatory field and enum checks",where=DEF)],st,["sequence of Decoder results"])

p("C06","Announced length equals the bytes written, and writing only appends",
 "For every value that can be sent - frames, performatives, SASL bodies, messages, and the primitive, list, map and array values inside them - the size it announces is exactly the number of bytes its encoding appends, and a frame's length prefix and every nested size field match the bytes that follow. Encoding into an output buffer in any state (empty, full, partly flushed, holding unsent frames, any spare capacity) leaves the bytes already there unchanged and never fails for lack of room.",
 ["inputs","histories","schedules"],
 "All encodable values including those at the boundaries between compact and wide encodings, and all states of the output buffer reachable by encode/partial-flush histories.",
 "Tests allocate a fresh buffer of the announced size and compare a few fixed values; an over-estimate goes unnoticed and boundary sizes are not tried.",
 [ENC,DEF,IO,BODY,IN,OUT],[dict(name="encoded_size / encode pairs",where="src/codec/encode.rs, src/protocol/definitions.rs encoded_size_*_inner"),dict(name="buffer reservation before encoding",where="src/io.rs Encoder for AmqpCodec")],None,["bytes appended to the output buffer"])

p("C07","An independent AMQP 1.0 peer understands everything that is sent",
 "Every byte stream the codec writes - protocol headers, SASL and AMQP frames, and messages in transfers - is well-formed AMQP 1.0 for an independently written decoder, which reads back exactly the values the application supplied: every field in its position, with its type, and every message section. This covers all performatives, all SASL bodies, all delivery states, outcomes, termini, error conditions and every kind of value in maps and lists.",
 ["inputs","schedules"],
 "All frames and messages an application can build, in any order on a connection, read by a separate implementation of the AMQP 1.0 type system and transport under any segmentation.",
 "Tests decode with the library's own decoder, or compare two captured frames, so an error made symmetrically in encoder and decoder - or in an encoder whose output is never decoded - is invisible.",
 [ENC,DEF,PM,IN,OUT,BODY],[dict(name="primitive and compound encoders",where=ENC),dict(name="generated composite encoders",where=DEF)],None,["bytes on the simulated wire"])

p("C08","Every legal encoding an AMQP 1.0 peer may choose is understood",
 "For every value the library can represent, whichever of the encodings AMQP 1.0 allows a peer picks - compact or wide format codes, numeric or symbolic descriptors, omitted or null trailing fields, extended frame headers, single value or array for multiple-valued fields, any section descriptors - the receiver yields that same value, with omitted fields taking the default the specification gives them. Timestamps, numbers, characters, text, identifiers and durations keep their exact value over their whole range.",
 ["inputs","schedules"],
 "All values of every performative, SASL body, message section and primitive type, times all legal encodings of each of their parts, under any segmentation.",
 "Tests only decode what the library itself encodes (one choice per value) plus two captured frames.",
 [DEC,DEF,PM,IN],[dict(name="format-code dispatch",where=DEC),dict(name="field defaults",where=DEF)],None,["values yielded by the codec"])

p("C09","What is sent is the message as last edited, whatever its history",
 "After any sequence of building, editing, measuring, encoding, cloning, decoding and nesting of inbound or outbound messages, the announced size and the encoded bytes reflect exactly the current contents; a message re-sent after a failed connection carries the edits made in between. Measuring or encoding a message never changes what it contains or what it compares equal to.",
 ["histories","crash_points","inputs"],
 "All interleavings of edit, measure, send, clone, receive, nest and resend operations on a pool of messages, with connections failing at any byte.",
 "Each test builds one message, measures it once and encodes it once; the size cached between calls is never observed after a later edit.",
 [IN,OUT,BODY,PM],[dict(name="size cache invalidation in setters",where="src/message/inmessage.rs, src/message/outmessage.rs")],[dict(name="size",meaning="cached encoded size, 0 when unknown",where="InMessage::size, OutMessage::size")],["encoded_size, encode, transfer frames"])

p("C10","Messages survive relaying and splitting over interleaved transfers",
 "A message split over any number of transfer frames, interleaved with other deliveries on other links and channels, reassembles to the sender's bytes and decodes to the sender's message: header, annotations, properties, application properties, every body section and footer. A relay that decodes a message and sends it on, any number of hops, preserves every section, consumes the message bytes completely, and can look up each application property by its name.",
 ["schedules","histories","inputs"],
 "All messages, all splits into transfers, all interleavings over channels and links, any number of decode/re-encode hops through inbound and outbound message types.",
 "Tests decode one freshly encoded message with at most one section set; annotations, footer and sequences are never round-tripped, and no transfer is ever split.",
 [IN,OUT,BODY,DEF,PM,"src/types/mod.rs"],[dict(name="section decoding loop",where="src/message/inmessage.rs Decode, src/message/outmessage.rs Decode"),dict(name="transfer payload = rest of frame",where="src/protocol/definitions.rs decode_transfer_inner")],None,["messages at the final consumer"])

p("C11","Protocol header exchange is exact",
 "For any 8 bytes in any pieces, the protocol header decoder waits until all 8 have arrived, consumes exactly those 8, and yields AMQP, TLS or SASL if and only if they are 'AMQP', the matching id 0, 2 or 3 and version 1.0.0. A bad prefix, a different version and an unknown id are each reported as their own error, in that order of precedence, and a stream ending inside a header is an error. The encoder produces exactly those 8 bytes after whatever is already queued.",
 ["inputs","schedules","fault_sequences"],
 "All 8-byte headers (valid, one or more bytes damaged, other versions and ids), all chunkings and following bytes, all states of the output buffer.",
 "The protocol header codec has no test.",
 [IO,PM],[dict(name="ProtocolIdCodec",where=IO)],None,["ProtocolIdCodec results"])

p("C12","Protocol layers hand over without losing or stealing a byte",
 "When a connection moves from protocol header to SASL to protocol header to AMQP, each layer consumes exactly its own bytes and bytes already received for the next layer reach the next layer's codec unchanged, even when the peer pipelines several layers into one write. Negotiation always completes with both sides agreeing, SASL mechanisms, credentials, challenges and outcome codes arrive as sent, and the frames sent afterwards are delivered as in C01.",
 ["schedules","histories","inputs"],
 "All negotiation paths (SASL or not, any number of challenge rounds, any outcome), pipelining depths, segmentations and buffer hand-over points.",
 "No test switches codecs on a stream or drives a negotiation.",
 [IO,DEF,PM],[dict(name="codecs consume only complete units from the shared buffer",where=IO),dict(name="SASL PLAIN response construction",where="src/protocol/mod.rs SaslInit::prepare_response")],st,["Framed::into_parts read buffer","negotiation transcript"])

p("C13","Memory used while receiving is bounded by the bytes received",
 "While decoding any stream, the memory requested stays within a fixed allowance plus a constant multiple of the bytes actually received so far, whatever frame length, element count or compound size those bytes declare and however they arrive. Declaring a large frame, list, map or array that never arrives costs nothing proportional to the declaration.",
 ["inputs","fault_sequences","schedules"],
 "All byte streams, with declared lengths, sizes and counts anywhere in their 32-bit range at any nesting position, any segmentation; memory metered at the allocator after every step.",
 "No test feeds a lying count or size, and none measures allocation.",
 [DEC,IO],[dict(name="capacity chosen from declared counts",where="src/codec/decode.rs HashMap/Vec/List/VecVariantMap decoders"),dict(name="receive buffer growth",where="src/io.rs AmqpCodec::decode reserve")],None,["global allocator of the simulator"])

p("C14","Damaged frames are rejected or read exactly as received, never misread",
 "When bytes inside a frame are damaged in transit but the framing survives, the receiver either reports an error or yields the value that an independent reading of the received bytes gives. If the damaged bytes are not a well-formed encoding, no frame is yielded; a value inside a list, map, array or performative is never assembled from bytes outside the space its container declares. Frames around the damaged one are unaffected. (Either answer is allowed where only surplus content inside a container's declared space, an odd last map item, a boolean byte other than 0 and 1, or a non-ASCII symbol is wrong.)",
 ["fault_sequences","inputs","schedules"],
 "All frames times all damage patterns (bit flips, overwritten, swapped and shifted bytes inside the frame, altered sizes, counts and format codes), under every segmentation.",
 "No test decodes damaged bytes; correctness on the values that damaged bytes happen to denote has no oracle in the suite.",
 [DEC,DEF,IO],[dict(name="strict decoding of primitives and compounds",where=DEC),dict(name="container-limited field decoding",where="src/protocol/definitions.rs split_at(size)")],st,["frames and errors yielded"])

p("C15","Replies are correlated with their requests",
 "A reply derived from a received or sent request carries as correlation id exactly the request's message id - of whatever kind: number, UUID, binary or text - or none if the request had none, and carries nothing else over from the request. With replies delayed, reordered over channels, and requests retried over failed connections, every reply a client receives matches the request it answers, and every request is answered once connections stop failing.",
 ["histories","schedules","crash_points","inputs"],
 "All request/reply histories over several clients and channels with delays, reordering of replies and connection failures at any byte; all message id kinds and values.",
 "No test calls reply_message.",
 [IN,OUT,PM],[dict(name="reply_message",where="src/message/inmessage.rs, src/message/outmessage.rs"),dict(name="MessageId encode/decode",where=PM)],None,["messages at the client"])

p("C16","Text values compare, hash and order consistently however they are stored",
 "Str values that denote the same text are equal, hash alike and order alike whether they are static or were received, as do Symbol values, and both agree with the plain string they borrow as and compare with. Hence a table keyed or sorted by them finds an entry made with a received key through a static one, a plain string, and the other way round. Variant values that are equal hash alike, including described values and maps filled in a different order, and a Variant equals another exactly when both hold the same kind with the same contents.",
 ["inputs","histories"],"All pairs of text values and storage kinds, and all insert / look up / remove / iterate histories of hashed and sorted tables whose keys were received, cloned, static or plain.",
 "Three equality tests exist; hashing, ordering and lookups in tables are not tested.",
 ["src/types/mod.rs","src/types/symbol.rs",VAR],[dict(name="manual PartialEq/Hash, derived Ord",where="src/types/mod.rs Str")])
p("C17","Generated protocol definitions agree with the specification file",
 "Running the from-spec generator on the checked-in specification reproduces the checked-in protocol definitions: same types, field orders, defaults, descriptors and enumeration values.",
 ["inputs"],"The one specification file and template.",
 "No test runs the generator.",
 ["build.rs","codegen/mod.rs","codegen/definitions.rs","codegen/specification.json",DEF],[dict(name="handlebars template expansion",where="build.rs")])
p("C18","Connections in one process do not affect each other",
 "Whatever other connections, header exchanges and messages the same process handles - good traffic, malformed frames, cut connections, large messages - and however their steps interleave or move between threads, what one connection yields (frames, errors and its end), the bytes one endpoint writes, and the size and encoding of each message are what they would be were it the only one in the process.",
 ["schedules","histories","fault_sequences"],
 "All interleavings of the receive, send, handshake and message-editing steps of several connections over several threads, including connections that fail in between.",
 "Every test handles one value, alone; none runs two codecs, and none uses a codec after another one failed.",
 [IO,DEC,ENC,DEF,OUT,BODY],[dict(name="per-codec state in AmqpCodec and ProtocolIdCodec",where=IO),dict(name="cached message size",where="src/message/outmessage.rs")],None,["frames and errors yielded per connection","bytes written per connection"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
