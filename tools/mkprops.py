#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe or [], hook_needed=None)))

prop("C01", "Every AMQP value survives an encode/decode round trip",
 "For every AMQP value (all primitive widths, strings, binaries, symbols, lists, maps, arrays, described values, nested up to the decoder's depth limit) decoding the bytes produced by encoding it yields an equal value, whatever bytes follow it in the buffer. Decoding consumes exactly the bytes that encoding produced.",
 ["inputs"], "all values whose encoding is shorter than 4 GiB (timestamps at millisecond precision, described compound values in their raw form); trailing bytes arbitrary",
 "Unit tests round-trip about forty sample values; integer width boundaries, length boundaries 255/256, nesting and trailing data are an unbounded product.",
 ["codec/src/codec/encode.rs", "codec/src/codec/decode.rs", "codec/src/types/array.rs", "codec/src/types/variant.rs", "codec/src/types/mod.rs"],
 [("value encoders and array encoders", "codec/src/codec/encode.rs"), ("format-code driven decoders", "codec/src/codec/decode.rs")],
 ["Encode::encode", "Decode::decode"])
prop("C02", "Encodings are valid AMQP 1.0 and every alternate encoding is accepted",
 "The bytes produced for a primitive or compound value are the format code, size, count and big-endian payload that the AMQP 1.0 type system prescribes for it. Every alternate encoding the specification allows for a type (zero-width, small, 8-bit and 32-bit variants) decodes to the same value as the wide one. An unknown or mismatched format code, and a truncated primitive, is rejected with an error.",
 ["inputs"], "all values of each primitive type and all format codes 0..255; all payload lengths",
 "Round-trip tests cannot see an encoder and decoder that are wrong in the same way, and samples cover few of the 256 format codes per type.",
 ["codec/src/codec/encode.rs", "codec/src/codec/decode.rs", "codec/src/codec/mod.rs"],
 [("format code constants", "codec/src/codec/mod.rs"), ("per-type match on the format code", "codec/src/codec/decode.rs")],
 ["Encode::encode", "DecodeFormatted::decode_with_format"])
prop("C03", "Announced encoded size equals the number of bytes written",
 "For every value, performative, frame, section and message, the size announced before encoding equals the number of bytes the encoder then appends. This stays true for a message after any sequence of reads, size queries, clones and mutations through its public interface.",
 ["inputs", "histories"], "all encodable values below 4 GiB and all sequences of public message operations",
 "Frame headers and size prefixes are computed from the announced size before writing; tests check it for a few fresh objects only, never after a size query followed by a mutation.",
 ["codec/src/codec/encode.rs", "codec/src/protocol/definitions.rs", "codec/src/protocol/mod.rs", "codec/src/message/message.rs", "codec/src/message/body.rs", "codec/src/types/array.rs"],
 [("encoded_size / encode pairs", "codec/src/codec/encode.rs"), ("message size computation", "codec/src/message/message.rs")],
 ["Encode::encoded_size", "Encode::encode"])
prop("C04", "Decoding arbitrary bytes never crashes or exhausts resources",
 "For every byte sequence, decoding it as any frame, performative, message, section or value returns a value or an error. It never panics, never recurses without a fixed bound, and never reserves memory out of proportion to the number of bytes supplied.",
 ["inputs"], "all byte sequences of every length, for every decodable type",
 "The peer controls every byte; tests decode well-formed samples plus two malformed ones.",
 ["codec/src/codec/decode.rs", "codec/src/codec/mod.rs", "codec/src/protocol/definitions.rs", "codec/src/types/array.rs", "codec/src/types/variant.rs", "codec/src/message/message.rs"],
 [("length checks before every read", "codec/src/codec/decode.rs"), ("compound header parsing", "codec/src/codec/decode.rs")],
 ["Decode::decode"])
prop("C05", "Frame stream decoding is independent of how bytes arrive",
 "Feeding a byte stream to the frame decoder in any sequence of chunks yields the same frames, in the same order, and the same first error as feeding it at once, and no byte after the last complete frame is lost. A frame whose announced size exceeds the configured maximum, or is smaller than the frame header, is rejected without waiting for its body.",
 ["inputs", "histories"], "all byte streams, all ways of splitting them, all configured maximum sizes",
 "Tests feed whole frames; chunk boundaries inside the size prefix, header, extended header or body are never exercised.",
 ["codec/src/io.rs", "codec/src/framing.rs", "codec/src/codec/decode.rs"],
 [("frame decoder state machine", "codec/src/io.rs"), ("frame header parsing", "codec/src/codec/decode.rs")],
 ["AmqpCodec::decode"])
prop("C06", "Performatives round-trip and follow the AMQP field tables",
 "Every performative, terminus, outcome and SASL frame decodes back to an equal value after encoding, with fields in the order, types and descriptors of the AMQP 1.0 tables. A peer may omit trailing optional fields or send null for them: they take the specified default; a missing or null mandatory field is an error.",
 ["inputs"], "all performatives with all field values (a custom symbol is none of the predefined ones; the payload of a transfer is its raw bytes, an empty one counts as absent), all numbers of trailing fields omitted, numeric and symbolic descriptors",
 "The definitions are thousands of generated lines, and tests decode only a handful of frames with one field combination each.",
 ["codec/src/protocol/definitions.rs", "codec/src/protocol/mod.rs", "codec/codegen/definitions.rs", "codec/codegen/specification.json"],
 [("generated per-type encode/decode functions", "codec/src/protocol/definitions.rs")],
 ["Frame", "SaslFrameBody", "DeliveryState", "Outcome"])
prop("C07", "Messages round-trip with all sections in AMQP order",
 "Encoding a message and decoding the result yields the same header, annotations, properties, application properties, footer and body sections (a nested message in the body arrives as binary data with its encoding). The bytes carry the sections in AMQP order with the footer last, each at most once except repeated body sections.",
 ["inputs"], "all messages with any combination of sections, any number of body sections (the message format travels in the transfer, not in the message)",
 "Tests build messages with one or two sections at a time; the product of optional sections and body kinds is not sampled.",
 ["codec/src/message/message.rs", "codec/src/message/body.rs", "codec/src/protocol/definitions.rs"],
 [("section by section encoder", "codec/src/message/message.rs"), ("body encoder", "codec/src/message/body.rs")],
 ["Message::encode", "Message::decode"])
prop("C08", "Protocol headers are accepted and rejected exactly",
 "A protocol header is accepted only if its eight bytes are AMQP, a known protocol id and version 1.0.0, and yields that id; every other eight bytes give an error, and fewer than eight bytes wait for more without consuming anything. An accepted or rejected header consumes exactly eight bytes, and the encoder writes exactly the header the decoder accepts for that id.",
 ["inputs"], "all byte sequences, all protocol ids",
 "Only the happy path is used by the tests.",
 ["codec/src/io.rs", "codec/src/protocol/mod.rs"],
 [("protocol header codec", "codec/src/io.rs")], ["ProtocolIdCodec"])
json_path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "mkprops_session.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "mkprops_session.py")) else None
with open(json_path, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
