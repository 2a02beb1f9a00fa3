#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays valid JSONL)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

DEC = "src/codec/decode.rs"; ENC = "src/codec/encode.rs"; IO = "src/io.rs"; DEF = "src/protocol/definitions.rs"
PM = "src/protocol/mod.rs"; IN = "src/message/inmessage.rs"; OUT = "src/message/outmessage.rs"; BODY = "src/message/body.rs"
TY = "src/types/mod.rs"; SYM = "src/types/symbol.rs"; VAR = "src/types/variant.rs"; FR = "src/framing.rs"; CM = "src/codec/mod.rs"

p("C01", "Decoding any bytes never crashes, hangs or over-allocates",
  "For every byte sequence given to any decoder (AMQP frame, SASL frame, message, performative, single value, stream codec, protocol header), decoding terminates with a value, an error, or, for streams, a request for more data. It never panics, aborts or loops. It never allocates memory out of proportion to the bytes actually received, whatever sizes and counts the input declares.",
  ["inputs"], "all byte sequences, for all public decoders; in particular every combination of declared size, declared count and bytes really present",
  "The tests decode only bytes the library itself produced (plus two captured frames); no test feeds malformed, truncated or hostile sizes, where subtraction underflow, out-of-range slicing and count-driven allocation live.",
  [DEC, CM, IO, DEF, IN, OUT, PM, VAR],
  [("length check before every read", "src/codec/decode.rs decode_check_len!/be_read!"), ("compound headers", "src/codec/decode.rs decode_compound8/decode_compound32"), ("frame header", "src/codec/decode.rs decode_frame_header"), ("stream header", "src/io.rs AmqpCodec::decode")],
  observe=["Decode::decode of every type", "AmqpCodec::decode", "ProtocolIdCodec::decode", "heap allocator"])

p("C02", "Every AMQP value survives encode then decode",
  "Encoding any value of a supported AMQP type (booleans, all integer widths, floats by bit pattern, characters, timestamps, UUIDs, binaries, strings, symbols, arrays, lists, maps, optional, multiple, described and polymorphic values, at any nesting) and decoding the result yields an equal value. The decoder consumes exactly the encoded bytes and leaves whatever follows them untouched.",
  ["inputs"], "all values of all supported types, especially at the boundaries between compact and wide encodings and for nested and described values",
  "About forty single values are round-tripped; no list, map, array, described value or symbol is, and no value on a 1-byte/4-byte size boundary (where the compact form overflows).",
  [ENC, DEC, CM, VAR, TY, SYM],
  [("compact/wide selection on encode", "src/codec/encode.rs"), ("format code dispatch on decode", "src/codec/decode.rs DecodeFormatted for Variant"), ("compound size and count arithmetic", "src/codec/encode.rs Vec/List/HashMap")],
  observe=["Encode::encode", "Decode::decode"])

p("C03", "Every AMQP and SASL frame survives encode then decode",
  "Every AMQP frame - any channel, any performative with any combination of present and absent fields, or no performative at all - and every SASL frame decodes, after encoding, to an equal frame. The payload carried by a transfer arrives byte for byte unchanged.",
  ["inputs"], "all performatives and SASL bodies, all field subsets and field values, all channels, all payloads including embedded messages",
  "Two captured frames (one SASL mechanisms, one disposition) are the only frames tested; the other performatives and almost every field are never exercised.",
  [DEF, FR, ENC, DEC, PM],
  [("field lists in order", "src/protocol/definitions.rs encode_*_inner/decode_*_inner"), ("descriptor dispatch", "src/protocol/definitions.rs Frame, SaslFrameBody, DeliveryState, Outcome"), ("frame header", "src/codec/encode.rs AmqpFrame/SaslFrame")],
  observe=["AmqpFrame::decode", "SaslFrame::decode", "AmqpCodec"])

p("C04", "Every message survives encode then decode",
  "A message assembled by any sequence of builder operations decodes, after encoding, to a message with the same header, properties, application properties and body content; messages nested as body arrive as data sections that decode to those nested messages. Sections that arrive from the wire (including delivery annotations, message annotations and footer) are preserved when the decoded message is encoded again. Decoding a message consumes the whole input.",
  ["inputs", "histories"], "all combinations and values of message sections and bodies, for incoming and outgoing messages, built by all operation sequences or received from the wire",
  "Six tests per message type set a single section each; annotations, footers, sequences, values, several data sections and combinations of sections are never encoded.",
  [IN, OUT, BODY, DEF, PM],
  [("section sequence on encode", "src/message/inmessage.rs, outmessage.rs Encode"), ("section loop on decode", "src/message/inmessage.rs, outmessage.rs Decode"), ("body sections", "src/message/body.rs")],
  observe=["InMessage/OutMessage encode and decode", "accessors"])

p("C05", "Announced sizes and counts are exact",
  "For every value, frame and message, the predicted encoded size equals the number of bytes encoding then writes, and every length and count carried inside the encoding (frame length, nested message length, compound sizes and counts) matches the bytes really present. This holds after every history of modifications, size queries and encodings of the same message.",
  ["inputs", "histories"], "all values, frames and messages; all interleavings of builder operations with size queries and encodings on one message",
  "Tests only use the predicted size as a buffer capacity hint, never compare it with the bytes written, and never modify a message after its size was first computed (the size is cached).",
  [ENC, DEF, IN, OUT, BODY, PM],
  [("size prediction", "src/codec/encode.rs encoded_size; src/protocol/definitions.rs encoded_size_*_inner"), ("cached message size", "src/message/inmessage.rs, outmessage.rs size cell")],
  state=[("size cache", "last computed message size, 0 when unknown", "src/message/inmessage.rs InMessage.size")],
  observe=["Encode::encoded_size", "bytes written", "frame length prefix"])

p("C06", "Stream decoding does not depend on chunking",
  "For any sequence of valid frames on a byte stream, the stream codec delivers exactly those frames in order, however the bytes are split into chunks however often it is polled in between, and whatever other streams are decoded in the meantime. Each frame is delivered once its last byte is available and not earlier, and delivering it leaves the bytes that follow in the buffer.",
  ["inputs", "histories"], "all frame sequences, all ways to split the stream into chunks, all placements of extra polls, all buffer capacities, all interleavings with other streams",
  "No test drives the stream codec at all.",
  [IO, FR],
  [("two-phase decode state", "src/io.rs AmqpCodec::decode")],
  state=[("decode state", "waiting for a frame header, or for the rest of a frame of known size", "src/io.rs DecodeState")],
  observe=["AmqpCodec::decode results", "remaining buffer contents"])

p("C07", "A rejected frame does not disturb the frames after it",
  "When a complete frame is rejected (wrong frame type, bad data offset, malformed or unknown body, bytes left over), the stream codec reports one error for it, and every frame before and after it decodes exactly as if the bad frame were not there. A declared frame size smaller than a frame header is reported as an error instead of stalling the stream.",
  ["inputs", "histories"], "all sequences of good and bad frames, all kinds of defects, all chunkings",
  "No test decodes a stream containing a bad frame; the recovery path is never executed.",
  [IO, DEC],
  [("decode state reset around frame decoding", "src/io.rs AmqpCodec::decode"), ("frame header validation", "src/codec/decode.rs decode_frame_header")],
  state=[("decode state", "must be back to 'frame header' after an error", "src/io.rs DecodeState")],
  observe=["sequence of AmqpCodec::decode results"])

p("C08", "Protocol header codec accepts exactly the AMQP 1.0 headers",
  "The protocol header codec accepts exactly the eight-byte headers 'AMQP', protocol id 0 (AMQP), 2 (TLS) or 3 (SASL), version 1.0.0, yields the matching protocol id, and reports any other eight bytes as an error, telling apart a foreign prefix, an unsupported version and an unknown protocol id. It waits for all eight bytes without consuming any, and then consumes exactly eight. Encoding a protocol id appends exactly the header that decodes to it.",
  ["inputs", "histories"], "all eight-byte headers, all chunkings, all following bytes",
  "No test exercises this codec.",
  [IO, PM],
  [("header parse", "src/io.rs ProtocolIdCodec::decode"), ("header emit", "src/io.rs ProtocolIdCodec::encode")],
  observe=["ProtocolIdCodec::decode/encode", "remaining buffer"])

p("C09", "Truncated values are reported as incomplete",
  "Decoding any strict prefix of the encoding of a value, performative, delivery state or message section reports that more data is required. It never yields a value and never misreports the truncation as some other fault.",
  ["inputs"], "all valid encodings of all self-delimiting types, all cut points",
  "No test decodes truncated input.",
  [DEC, CM, DEF, PM],
  [("length checks", "src/codec/decode.rs decode_check_len!, be_read!, read_bytes_*"), ("composite size check", "src/protocol/definitions.rs decode_*_inner")],
  observe=["Decode::decode error"])

p("C10", "Encoded bytes are standard AMQP 1.0 with the intended meaning",
  "Everything the library encodes is, judged by the AMQP 1.0 specification alone, a well-formed encoding of the same content: correct type codes, byte order, sizes, descriptors, field order, section order and frame headers. An independent AMQP 1.0 decoder recovers exactly the content that was encoded.",
  ["inputs"], "all values, frames, SASL frames and messages the library can encode",
  "Round-trip tests cannot see an error made symmetrically by encoder and decoder; only two captured frames tie the bytes to the standard.",
  [ENC, DEF, IN, OUT, BODY, FR, CM, IO],
  [("format codes", "src/codec/mod.rs FORMATCODE_*"), ("composite layout", "src/protocol/definitions.rs encode_*_inner"), ("section descriptors", "src/message/*.rs")],
  observe=["bytes written by Encode::encode and AmqpCodec::encode"])

p("C11", "All equivalent AMQP encodings decode to the same content",
  "Every encoding that AMQP 1.0 permits for a supported value, performative or message section - compact or wide scalars, one- or four-byte sizes, empty-list form, numeric or symbolic descriptors in any width, a single value or an array for a multiple field, trailing null fields written or omitted, extended frame headers - decodes to the content the specification assigns to it.",
  ["inputs"], "all values and performatives, all combinations of encoding choices a peer may make",
  "Tests decode only the form this library emits; other implementations choose other forms.",
  [DEC, DEF, PM, CM, IN, OUT],
  [("format code dispatch", "src/codec/decode.rs decode_with_format impls"), ("descriptor by code or symbol", "src/protocol/definitions.rs DecodeFormatted impls")],
  observe=["Decode::decode"])

p("C12", "Absent fields take their defaults; missing mandatory fields are refused",
  "A composite field that is null or omitted at the end of the field list decodes to its specified default, or to absent when it has none. A composite whose mandatory field is null or omitted is rejected. Fields that are present are never shifted or replaced by defaults.",
  ["inputs"], "all composites, all subsets of fields that are null, all truncations of the field list",
  "No test decodes a composite with omitted or null fields other than one disposition.",
  [DEF, DEC],
  [("per-field decode with default", "src/protocol/definitions.rs decode_*_inner")],
  observe=["decoded field values", "decode error"])

p("C13", "Compound values never read outside their declared size",
  "The elements of a decoded list, map, array or composite come only from the bytes inside its declared size, and whatever follows is read starting exactly where the declared size ends; input for which this is impossible is rejected. Bytes after the declared end never influence the compound or whether it is accepted.",
  ["inputs"], "all compound types, all combinations of declared size, declared count, contents and following bytes, at any nesting",
  "Tests never present a compound whose size disagrees with its contents.",
  [DEC, DEF],
  [("map bounds", "src/codec/decode.rs HashMap/VecVariantMap decode"), ("list and array bounds", "src/codec/decode.rs List/Vec decode"), ("composite split at size", "src/protocol/definitions.rs decode_*_inner")],
  observe=["decoded value", "remaining input"])

p("C14", "Text and value equality, hashing and ordering agree",
  "Strings and symbols compare, order and hash by their text alone, no matter whether they are static or received from the wire, so map lookups by text find entries of either origin. For every pair of polymorphic values, equality is an equivalence relation, equal values hash equally, and hashing or comparing always terminates without panicking.",
  ["inputs"], "all pairs and triples of texts in both representations; all pairs of polymorphic values including maps",
  "Three equality tests compare values of the same representation; mixed representations, ordering, hashing and maps as keys are untested.",
  [TY, SYM, VAR],
  [("Str equality/hash/order", "src/types/mod.rs"), ("Symbol", "src/types/symbol.rs"), ("map hash", "src/types/variant.rs VariantMap")],
  observe=["==, cmp, hash, map lookup"])

p("C15", "Encoding only appends and is independent of the buffer",
  "Encoding an item with the stream codecs appends its bytes after whatever the buffer already holds, leaves that content unchanged, and never fails for lack of room; the bytes do not depend on the buffer's previous content or spare capacity. Items encoded one after another into one buffer decode as the same items in the same order.",
  ["inputs", "histories"], "all frames (also around the buffer watermarks), all buffer contents and capacities, all sequences of items",
  "No test encodes through the stream codec or into a non-empty buffer.",
  [IO, ENC],
  [("capacity reservation", "src/io.rs AmqpCodec::encode, ProtocolIdCodec::encode")],
  observe=["buffer contents after AmqpCodec::encode"])

p("C16", "Message accessors reflect the builder history; replies correlate",
  "After any sequence of builder operations, message accessors and the encoded message show exactly the latest header, the accumulated properties, the latest value of each application property key, and the accumulated body. A reply message carries the original's message id as its correlation id and nothing else.",
  ["histories"], "all sequences of builder operations on incoming and outgoing messages",
  "Each test performs a single builder operation on a fresh message.",
  [IN, OUT, BODY],
  [("builder methods", "src/message/inmessage.rs, src/message/outmessage.rs"), ("body mutators", "src/message/body.rs")],
  observe=["header(), properties(), app_property(ies)(), body(), value(), reply_message()", "encoded sections"])

p("C17", "Observing a message or frame does not change it",
  "Querying the size of a message or frame, encoding it, cloning it or comparing it changes neither what it is equal to nor what it encodes to. Two messages with the same content are equal regardless of which of them has been measured, encoded, cloned or received from the wire before; messages, transfer bodies and transfers whose content differs are not equal.",
  ["histories"], "all sequences of builder operations interleaved with size queries, encodings, clones and comparisons",
  "No test compares messages after using them; the size cache inside a message makes observation stateful.",
  [IN, OUT, PM, FR],
  [("size cache", "src/message/inmessage.rs, outmessage.rs"), ("derived equality", "src/message/*.rs, src/protocol/mod.rs")],
  state=[("size cache", "interior-mutable cached size", "src/message/inmessage.rs InMessage.size")],
  observe=["==", "encoded bytes"])

p("C18", "Input outside the schema is rejected, not coerced",
  "A value whose type code is not one that AMQP defines for the expected type, text that is not valid UTF-8, a character outside Unicode, an unknown enumeration value, a descriptor that does not belong to the expected type, an unexpected frame type or a data offset smaller than the frame header is rejected with an error. Such input is never turned into a value.",
  ["inputs"], "all type codes for all expected types, all descriptors (numeric and symbolic), all enumeration values, all frame type and data offset bytes, all short byte strings as text",
  "No test feeds a value of the wrong type or an unknown descriptor.",
  [DEC, DEF, PM, CM],
  [("validate_code! and format matches", "src/codec/decode.rs"), ("enum try_from", "src/protocol/definitions.rs"), ("descriptor match", "src/protocol/definitions.rs")],
  observe=["Decode::decode error"])

p("C19", "Timestamps keep their exact instant",
  "For every number of milliseconds since the Unix epoch, before or after 1970, that the calendar type can represent, decoding yields exactly that instant and encoding that instant yields exactly that number. Numbers the calendar cannot represent are rejected with an error.",
  ["inputs"], "all 64-bit millisecond counts",
  "Two instants with .521 s fractions are tested; whole seconds before 1970, the last second before 1970 and out-of-range counts are not.",
  [DEC, ENC],
  [("millisecond conversion", "src/codec/decode.rs datetime_from_millis; src/codec/encode.rs ArrayEncode for DateTime<Utc>")],
  observe=["DateTime<Utc> encode/decode"])

p("C20", "Framed transports lose, invent and reorder nothing under I/O faults",
  "Over a framed transport whose reads and writes are short or suspended (not ready) at any point, the frames received are exactly the frames sent, in order. A connection that ends on a frame boundary ends cleanly, and one that ends inside a frame or a protocol header ends with an error after delivering all complete frames, never with a silent end or a fabricated frame.",
  ["fault_sequences", "histories"], "all patterns of short and not-ready reads and writes, and all end-of-stream positions, over frame sequences",
  "No test uses a transport.",
  [IO],
  [("codec decode/encode contract", "src/io.rs Decoder and Encoder impls")],
  observe=["frames yielded by a framed reader", "bytes received by the peer of a framed writer"])

p("C21", "Constructors, conversions and accessors return what was stored",
  "Every accessor of a frame, performative, SASL body, delivery state or text value returns exactly the stored field, every conversion into a frame or body wraps its argument unchanged under the right kind, and taking a frame apart returns the channel and performative it was made from. The SASL PLAIN response is authorization id, NUL, authentication id, NUL, password.",
  ["inputs"], "all composites, all fields, all field values that distinguish neighbouring fields",
  "Accessors and conversions are not tested except for the name of one frame.",
  [DEF, FR, PM, TY, SYM, VAR, BODY],
  [("generated accessors", "src/protocol/definitions.rs"), ("frame types", "src/framing.rs"), ("SASL response", "src/protocol/mod.rs SaslInit::prepare_response")],
  observe=["accessor return values"])

p("C22", "Checked-in protocol definitions equal the generator's output",
  "Regenerating the protocol definitions from the specification file (building with the from-spec feature) succeeds and yields definitions that declare the same types and behave the same as the checked-in ones - what they encode, accept, refuse, default and announce - for every iteration order the generator may use.",
  ["configurations"], "all iteration orders of the generator's hash map; for each distinct output, all enumerated values, field lists, descriptors and damaged bytes",
  "The generator is behind a feature the build and the tests never enable.",
  ["build.rs", "codegen/mod.rs", "codegen/definitions.rs", "codegen/specification.json", DEF],
  [("generator", "codegen/mod.rs parse, build.rs generate_from_spec")],
  observe=["src/protocol/definitions.rs after a from-spec build"])

p("C23", "What one item encodes or decodes to does not depend on earlier operations",
  "Measuring, encoding or decoding an item gives the result that belongs to that item alone, whatever other values, frames, messages and protocol headers were measured, encoded, decoded or refused before, on the same or other codecs, connections and buffers, and whatever was stored earlier in the place that now holds it.",
  ["histories"], "all sequences of operations over all kinds of items, two-connection interleavings, and replacements of values in place",
  "Every test runs one operation on one object; nothing tests that operations leave no trace for others.",
  [DEC, ENC, IO, IN, OUT, SYM],
  [("stateless value codec", "src/codec/*.rs"), ("per-connection decoder state", "src/io.rs AmqpCodec.state"), ("size cache", "src/message/inmessage.rs, outmessage.rs")],
  observe=["results of decode, encode and encoded_size"])

p("C24", "A rejection names what was rejected",
  "When an input is refused for one reason, the error identifies it: the unexpected type code, unknown descriptor, wrong frame type, impossible character number or timestamp, missing mandatory field, unknown enumeration value, place of invalid UTF-8, impossible size, or bytes left in a frame. It does so wherever the defect is nested and whichever decoder or stream codec reports it, and clones, conversions and texts of the error keep that information.",
  ["inputs"], "all inputs with exactly one defect: every type, field, element, key, descriptor, enumeration, frame header and size, at every nesting the type allows",
  "Tests never look at a decoding error; a caller needs it to choose the condition it closes the connection with, and each of hundreds of decoders reports its own.",
  [DEC, DEF, IO, "src/errors.rs", CM, VAR],
  [("error constructors", "src/codec/decode.rs validate_code!, decode_*; src/protocol/definitions.rs decode_*_inner"), ("error conversion", "src/errors.rs From/Clone/Display"), ("stream errors", "src/io.rs AmqpCodec::decode")],
  observe=["Err of every decoder", "Display and Clone of errors"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
    print(x["id"], x["statement"].count(". ") + 1, len(x["title"]))
