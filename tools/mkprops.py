#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below and jobs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from jobs import PROPS, LEVEL_NOTE

T = "stratumv2/src/types/"; C = "stratumv2/src/codec/"; M = "stratumv2/src/macro_message/"; N = "stratumv2/src/noise/"; W = "stratumv2/src/network/"; X = "stratumv2/nx-noise/src/"
TESTS = "The existing tests check a handful of fixed values; "
R = []
def p(id, title, st, over, q, why, files, mech, observe, state=(), hook=None):
    R.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

p("C01", "Fixed-width values round-trip and are read only from their own bytes",
  "Every fixed-width value (integers of 8 to 256 bits, booleans, floats, keys, signatures) is written little-endian in exactly its width and reading those bytes back yields the same value, wherever they stand in a buffer. Reading from too few bytes is refused and consumes nothing, whatever amount is asked for.",
  ["inputs"], "every value of every fixed-width type, every position, every pair of reads with any 64-bit amount",
  TESTS + "the statement ranges over every bit pattern and every requested length, including ones that overflow.",
  [T + "fixed.rs", T + "bytes.rs", C + "parser.rs", C + "serialize.rs", C + "deserialize.rs"],
  [("little-endian encoders and decoders", T + "fixed.rs"), ("bounds-checked cursor", C + "parser.rs: next_by")],
  ["serialized bytes", "decoded value", "cursor position after a refusal"], [("cursor offset", "bytes already consumed", C + "parser.rs")])
p("C02", "Length-limited byte strings and texts keep exactly their limits",
  "A byte string or text type accepts exactly the contents within its minimum and maximum length (and, for text, valid UTF-8), both when built and when decoded. Its encoding is the little-endian length in the prescribed prefix width followed by the unchanged contents, and decoding that gives the same value back.",
  ["inputs"], "every content and every length, below, at and above each type's limit",
  TESTS + "limits at 31, 32, 255, 65535 and 16777215 interact with prefix widths, truncating casts and multi-byte characters for every length.",
  [T + "bytes.rs", T + "strings.rs", C + "deserialize.rs"], [("length checks in the constructors", T + "bytes.rs / " + T + "strings.rs"), ("length prefix", T)], ["constructor result", "serialized bytes", "decoded value"])
p("C03", "Every message has the specified byte layout and round-trips",
  "For every message type and all valid field values, serialization yields the fields in the order and width the protocol prescribes and nothing else. Decoding these bytes gives a message equal in every field, and a message cut short is refused.",
  ["inputs"], "every message type, every field value, representative lengths of every variable field",
  TESTS + "each message is tested with one or two values, so swapped, truncated or mis-sized fields that coincide on those values go unseen.",
  [M + "message.rs", M + "setup_connection.rs", "stratumv2/src/mining/", "stratumv2/src/job_negotiation/", "stratumv2/src/common/", N + "signature_noise_message.rs"],
  [("generated serializers and deserializers", M + "message.rs"), ("message definitions", "stratumv2/src/mining/, stratumv2/src/job_negotiation/, stratumv2/src/common/")], ["serialized bytes", "decoded message fields"])
p("C04", "Decoding untrusted bytes never panics or reads out of bounds",
  "Decoding any byte string as any message, protocol type or frame either yields a value or an error. It never panics, overflows, reads outside the given bytes or loops forever.",
  ["inputs"], "every byte string within the bounds, for every decodable type, plus every near-valid encoding",
  "Tests feed valid messages and few broken ones; a peer chooses all bytes.",
  [C + "deserialize.rs", C + "parser.rs", C + "frame.rs", T, M],
  [("error returns instead of indexing", C + "parser.rs, " + T), ("frame decoding", C + "frame.rs: unframe")], ["return or panic of every decoder"])
p("C05", "Only canonical encodings are accepted",
  "Whenever decoding a message succeeds, re-encoding the result gives exactly the bytes that were consumed, and every decoded field equals what those bytes say. No two different byte strings decode to the same message.",
  ["inputs"], "every byte string within the bounds, and every two-byte change of a valid encoding, for every message type",
  TESTS + "the claim is about all accepted inputs, which no test enumerates.",
  [C + "deserialize.rs", M + "message.rs", M + "setup_connection.rs", T],
  [("field-by-field decoding with the same types as encoding", M + "message.rs")], ["decoded fields", "bytes consumed", "re-encoded bytes"])
p("C06", "Frames carry type, channel bit, length and payload exactly",
  "A frame is the 2-byte extension field whose top bit marks channel messages, the 1-byte message type, the 3-byte little-endian payload length and the unchanged payload; payloads that do not fit in 24 bits are refused. Decoding a frame yields exactly these parts, and refuses unknown types, wrong extension fields and truncated payloads.",
  ["inputs"], "every message type, every payload length (also beyond 2^32), every header",
  TESTS + "frame lengths beyond a few bytes and headers that disagree with the payload are not exercised.",
  [C + "frame.rs", T + "message_type.rs"], [("frame construction and length check", C + "frame.rs"), ("frame decoding", C + "frame.rs")], ["framed bytes", "unframed message type and payload", "refusals"])
p("C07", "Message type codes, names and channel bits form one consistent registry",
  "Each of the 256 type codes maps to at most one message type and that type maps back to the same code, with the code and name the protocol assigns. The channel bit and extension type of each message type are those the protocol prescribes.",
  ["inputs"], "all 256 codes and all registered message types", TESTS + "a table of dozens of entries is sampled, so one swapped entry passes.",
  [T + "message_type.rs"], [("message type table", T + "message_type.rs")], ["code, name, extension type and channel bit of every message type"])
p("C08", "A frame is decoded only as the message type it declares",
  "Framing a message and decoding the frame as that message type returns the same message. Decoding a frame as any other message type is refused, whatever the payload, and the channel bit and type code on the wire are those of the message.",
  ["inputs"], "every framed message type with every content, against every type code and extension field", TESTS + "cross-type decoding is checked for one pair; there are hundreds.",
  [C + "frame.rs", M + "message.rs", "stratumv2/src/mining/mod.rs"], [("type check before decoding", C + "frame.rs"), ("frameable messages", M + "message.rs")], ["framed bytes", "result of decoding as each type"])
p("C09", "Connection setup requests are valid exactly when the protocol says so",
  "A connection setup request can be built or decoded only if both versions are at least 2 and the required texts are present, and the byte naming the sub-protocol is the one of the request's kind. Everything the rules allow is accepted, with unchanged fields.",
  ["inputs"], "every version pair, flag word, port, text shape and protocol byte", TESTS + "the rules combine several fields and both entry points (construction and decoding).",
  [M + "setup_connection.rs", "stratumv2/src/common/setup_connection.rs", "stratumv2/src/mining/setup_connection.rs", "stratumv2/src/job_negotiation/setup_connection.rs"],
  [("constructor checks", M + "setup_connection.rs"), ("protocol byte", "stratumv2/src/common/setup_connection.rs")], ["constructor and decoder results", "serialized protocol byte"])
p("C10", "Flag words keep exactly the defined bits",
  "A received flag word is accepted exactly when it has no undefined bit, and then means precisely the bits received. Each named flag occupies its protocol-defined bit in a 4-byte little-endian word, and combinations encode as the union.",
  ["inputs"], "every 32-bit flag word of every flag type", TESTS + "only single flags are tested, never every word.",
  [T + "flags.rs", "stratumv2/src/mining/", "stratumv2/src/job_negotiation/"], [("flag types", "stratumv2/src/mining/, stratumv2/src/job_negotiation/"), ("flag codec", T + "flags.rs")], ["decoded flags", "serialized word"])
p("C11", "Error codes are exact and setup errors obey their flag rule",
  "An error-code text is recognised exactly when it is one of the protocol's codes, and it encodes back to that same text. A setup error, built or received, is refused when it complains of unsupported flags without naming any, and accepted otherwise.",
  ["inputs"], "every ASCII text up to 255 bytes and long multi-byte texts, every flag word with every error code", TESTS + "near-miss texts and every flag/code combination are not covered.",
  [T + "error_code.rs", "stratumv2/src/common/setup_connection_error_code.rs", "stratumv2/src/mining/open_mining_channel_error.rs", M + "setup_connection_error.rs"],
  [("code tables", "stratumv2/src/common/setup_connection_error_code.rs, stratumv2/src/mining/open_mining_channel_error.rs"), ("flag rule", M + "setup_connection_error.rs")], ["parsed code", "serialized text", "constructor and decoder results"])
p("C12", "Serialization survives slow writers and reports failing ones",
  "When the destination accepts only part of the bytes at a time or is interrupted, the complete encoding still arrives in order and the reported size is its length. When the destination fails, serialization reports an error and what was written is a prefix of the encoding.",
  ["fault_sequences"], "every message and type, every position and kind of writer misbehaviour within the fault budget", "Tests only write to growable buffers, which never fail or write short.",
  [C + "serialize.rs", T, M + "message.rs"], [("complete writes", T + ", " + C + "serialize.rs")], ["bytes that reached the writer", "reported size or error"])
EXTRA = os.path.join(V, "tools", "props_noise.py")
if os.path.exists(EXTRA): exec(open(EXTRA).read())

NA = globals().get("NA", [])
R = [r for r in R if r["id"] in PROPS or r["id"] in [n["property"] for n in NA]]
missing = set(PROPS) - {r["id"] for r in R}
assert not missing, missing
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for r in R:
        assert len(r["title"]) <= 80, r["title"]
        f.write(json.dumps(r) + "\n")
hooks = open(os.path.join(V, "tools", "hook_commits")).read().split() if os.path.exists(os.path.join(V, "tools", "hook_commits")) else []
man = dict(version=1, setup_cmd="python3 check.py setup",
  hooks=dict(guard="cfg(verif_hooks)", enable='RUSTFLAGS="--cfg verif_hooks"', source_commits=hooks),
  checks=[dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py %s --thorough" % i, evidence_file="evidence/%s.json" % i,
    technique="symbolic execution of the compiled code's LLVM IR, decided by Z3",
    level="model_checking", level_note=LEVEL_NOTE["text"] + " Bounds: " + PROPS[i]["bounds"] + ". Outside: " + PROPS[i]["outside"] + ".") for i in sorted(PROPS)],
  not_applicable=NA, notes="See DESIGN.md. Counterexamples are replayed on the compiled code (dev and release) before a VIOLATION is printed.")
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
