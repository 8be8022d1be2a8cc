
R[0]["anchors"]["files"] = [T + "fixed.rs", T + "primitives.rs", T + "bytes.rs", C + "parser.rs", C + "serialize.rs", C + "deserialize.rs"]
p("C13", "Certificates are accepted exactly while valid and untouched",
  "A certificate verifies only if the named authority signed exactly this version, period and static key and the current time is at or after its start and before its end. Any alteration of the message, the static key or the authority makes verification fail, and malformed authority key texts are refused.",
  ["inputs"], "every version, period and clock reading (before 1970 too), every alteration of the signed message and static key",
  "Tests use one generated certificate that is valid now; the window's edges, other clocks and alterations are not sampled.",
  [N + "certificate_format.rs", N + "signed_certificate.rs", N + "signature_noise_message.rs", N + "types.rs", T + "unix_timestamp.rs"],
  [("validity window and signature check", N + "certificate_format.rs: verify"), ("base58 authority key", N + "types.rs, " + N + "certificate_format.rs")], ["result of verification", "result of parsing the authority key"])
p("C14", "Certificates and signature messages carry exactly the signed values",
  "A certificate can be made exactly for non-empty periods, and the authority signs its version, period and static key in the prescribed byte layout. The signature message carries these values in 74 bytes, decodes to the same values, and malformed signatures are refused without a panic.",
  ["inputs"], "every version, period and static key; every 74-byte message and every truncation",
  TESTS + "every period and every received message must obey the rule.",
  [N + "signed_certificate.rs", N + "signature_noise_message.rs", T + "fixed.rs"], [("period rule", N + "signed_certificate.rs: new"), ("signed byte layout", N + "signed_certificate.rs"), ("message codec", N + "signature_noise_message.rs")], ["constructor result", "signed bytes", "serialized and decoded message"])
p("C15", "Times become 32-bit timestamps exactly or not at all",
  "A system time becomes the number of whole seconds since 1970 if that fits in 32 bits. Earlier and later times are refused, never wrapped, truncated or panicking.",
  ["inputs"], "every representable time and clock reading, to the nanosecond", "Tests convert the current time; the overflow in 2106 and times before 1970 are not sampled.",
  [T + "unix_timestamp.rs"], [("conversion with range check", T + "unix_timestamp.rs")], ["converted timestamp or error"])
p("C16", "The handshake is exactly Noise NX and both sides end with the same keys",
  "Both handshake messages, the handshake hash and all transport messages are byte for byte those the Noise specification prescribes for NX with X25519, ChaCha20-Poly1305 and BLAKE2s, for any keys, prologue and payloads. Both sides finish with the same hash and keys, and the initiator learns the responder's real static key.",
  ["inputs", "histories"], "every private key, payload content, prologue content and order of transport messages within the bounds",
  "Two implementations of the same mistake agree with each other in a test; conformance is to the specification, for all keys and lengths.",
  [X + "noisesession.rs", X + "state.rs", X + "types.rs", X + "prims.rs", X + "consts.rs", X + "utils.rs"],
  [("symmetric state: hash, key derivation, encryption", X + "state.rs"), ("message patterns", X + "state.rs: write_message_*, read_message_*")], ["handshake and transport bytes", "handshake hash", "remote static key"], [("symmetric state", "chaining key, hash, cipher key and nonce", X + "state.rs")])
p("C17", "Transport messages are accepted once, in order, unaltered, with fresh nonces",
  "In each direction the n-th message sent uses number n, and the receiver accepts exactly the next expected message: replays, reordering, omissions, alterations, truncation and messages of the other direction are refused and change nothing. When the numbers are used up, sending and receiving are refused; no number is ever used twice.",
  ["histories", "inputs"], "every sequence of sending, delivering, replaying and skipping within the bound; every 64-bit message number; every alteration",
  "A test sees one history; replay and number exhaustion after 2^64-2 messages cannot be run at all.",
  [X + "state.rs", X + "noisesession.rs"], [("nonce handling in the cipher state", X + "state.rs"), ("transport dispatch", X + "noisesession.rs")], ["sent bytes", "accepted or refused messages", "buffers after a refusal"],
  [("nonce", "number of the next message of a direction", X + "state.rs")], "verif_nonces/verif_set_nonces read and set the message numbers (cfg verif_hooks)")
p("C18", "Any buffer length is either processed completely or refused unharmed",
  "For every operation of either party a buffer that fits is processed with all its payload, up to the 65535-byte limit of Noise, and any other is refused with an error. A refused buffer and the session stay as they were, so the exchange can go on, and nothing panics.",
  ["inputs"], "every buffer length from 0 up and around the largest, with any content, for each of the operations", "Tests use a few convenient sizes; the failures were at lengths below a MAC and above 2 KiB.",
  [X + "noisesession.rs", X + "state.rs", X + "consts.rs"], [("length checks", X + "noisesession.rs: send_message, recv_message"), ("payload splitting", X + "state.rs")], ["result", "buffer contents", "continuation of the session"])
p("C19", "Low-order public keys are never accepted",
  "Public keys that force a predictable shared secret are refused in every way they can enter: as bytes, as text, and as ephemeral or static key inside a handshake message. A handshake that contains one does not complete, and every other key is accepted unchanged.",
  ["inputs"], "every 32-byte string; each forbidden encoding at each place of the handshake", "One forbidden key is tested, through one of the entry points.",
  [X + "types.rs", X + "consts.rs", X + "state.rs"], [("list of forbidden keys", X + "consts.rs"), ("checks on construction", X + "types.rs: PublicKey")], ["construction result", "handshake result"])
p("C20", "Sessions act only in turn and keep key changes to their own direction",
  "Handshake and transport operations succeed exactly in the protocol's order, for either role; anything else is refused without effect, and neither hash, keys nor transport are available before completion. Rekeying or clearing a direction affects only that direction, both sides stay in step when both rekey, and a cleared direction never works again.",
  ["histories"], "every sequence of operations of both parties within the bound", "Tests follow the intended order only.",
  [X + "noisesession.rs", X + "state.rs", X + "types.rs"], [("turn check", X + "noisesession.rs"), ("rekey and clear", X + "noisesession.rs, " + X + "state.rs")], ["operation results", "bytes sent", "reported session state"], [("message counter", "which step of the protocol is next", X + "noisesession.rs")])
p("C21", "Pending messages are delivered once, completely and in order",
  "Whatever threads queue and drain a peer's messages concurrently, every message comes out of exactly one drain and those of each sender in the order queued. A drain takes all there is and leaves nothing, and nothing deadlocks.",
  ["schedules", "histories"], "every schedule of two queueing and one draining thread or two draining ones within the preemption bound; every sequence of operations", "Tests are single-threaded.",
  [W + "peer.rs", C + "frame.rs"], [("locked buffer taken as a whole", W + "peer.rs: get_pending_msgs")], ["drained messages"], [("pending_msg_buffer", "messages waiting to be sent", W + "peer.rs")])
p("C22", "A connection counts as encrypted only after a genuine handshake",
  "The connection's handshake completes exactly when both messages arrive unaltered and in turn, and only then reports completion and the responder's real static key. Altered messages are refused by the initiator and calls out of turn are refused without disturbing the handshake.",
  ["histories", "inputs"], "all key material and randomness, alterations across both messages, all calls out of turn between the steps", "Tests run the one undisturbed handshake.",
  [W + "encryptor.rs", W + "config.rs", N + "noise_session.rs", N + "mod.rs", X + "noisesession.rs"], [("handshake steps", W + "encryptor.rs: init_handshake, recv_handshake")], ["results of the handshake calls", "is_handshake_complete", "get_remote_pubkey"])
p("C23", "Textual keys are exactly 64 hexadecimal digits and mean their bytes",
  "Private keys, public keys, keys and pre-shared keys parse exactly from 64 hexadecimal digits in either case and mean those bytes; any other text is refused and never panics. A keypair made from a private key holds that key and the matching public key, and the all-zero private key is refused.",
  ["inputs"], "every byte in every letter case at every position, every wrong character pair at every position, every length up to 140", "Tests parse one well-formed text and one wrong one per type.",
  [X + "types.rs", X + "utils.rs", X + "macros.rs"], [("hexadecimal decoding", X + "types.rs, " + X + "utils.rs")], ["parse results", "key bytes"])
p("C24", "A tampered handshake never completes",
  "If either handshake message is altered, shortened, extended or taken from another session, or the two sides' prologues differ, the initiator notices and refuses. It then reports no completion, hash or remote key and sends nothing.",
  ["inputs", "histories"], "every alteration of any bytes of either message, cuts, extensions, differing prologues and swapped answers", "Tests flip no bits in handshakes, and there are thousands of places to flip.",
  [X + "state.rs", X + "noisesession.rs"], [("transcript hash as authenticated data", X + "state.rs"), ("refusal before completion", X + "noisesession.rs")], ["result of receiving", "session state afterwards"])
p("C25", "Fresh key material for every session",
  "Every session and connection uses a new ephemeral key, never one of an earlier session or a constant, even if a call was refused before; a server without a static key takes a new one. No part of a generated secret is fixed, and new channel ids are below the reserved value whatever the generator gives.",
  ["inputs", "histories"], "all outputs of the random number generator, several sessions of each role", "A test cannot tell a fresh key from a constant one unless it compares sessions, for every output of the generator.",
  [X + "types.rs", X + "state.rs", X + "noisesession.rs", W + "channel.rs", W + "encryptor.rs", N + "types.rs", N + "noise_session.rs"], [("key generation", X + "types.rs: Keypair::default, " + N + "types.rs: generate_authority_keypair"), ("ephemeral key of a handshake", X + "state.rs"), ("static key of a server", N + "noise_session.rs"), ("channel ids", W + "channel.rs")], ["ephemeral keys on the wire", "keypairs", "channel id"])
p("C26", "A stream of frames splits into exactly the frames sent",
  "Frames sent one after the other over a stream come out one by one, each exactly as it was sent, with nothing lost or left over. An incomplete last frame is never delivered and does not disturb those before it, and messages of different types are not confused.",
  ["inputs", "histories"], "every content of several frames in a row, every cut of the last one, every stream of arbitrary bytes within the bound, every message type followed by another",
  TESTS + "they decode one frame from a buffer that holds nothing else.",
  [C + "frame.rs", C + "parser.rs", C + "deserialize.rs"], [("frame length", C + "frame.rs"), ("cursor shared by consecutive decodings", C + "parser.rs")], ["frames taken from the stream", "bytes left"], [("cursor offset", "start of the next frame", C + "parser.rs")])
p("C27", "Values compare, copy and convert as their contents",
  "Two messages, frames, texts, byte strings or numbers are equal exactly when all their fields are (hash rates compare as numbers), whichever side they stand on, and also against raw contents. A copy has the same fields, conversions give back the same contents, and numbers that do not fit are refused.",
  ["inputs"], "every pair of values of each type within the bounds", TESTS + "equality is what they judge by, so a comparison that overlooks a field hides other faults.",
  [T + "bytes.rs", T + "strings.rs", T + "fixed.rs", M + "message.rs", C + "frame.rs", N + "signature_noise_message.rs"], [("comparison and conversion impls", T + "bytes.rs, " + T + "strings.rs, " + T + "fixed.rs"), ("derived comparisons", M + "message.rs")], ["results of ==, != and conversions"])
p("C28", "Only the responder the authority certified is taken for the server",
  "When a client completes a handshake and checks the certificate it is shown against the static key of whoever answered, it accepts exactly if the authority it trusts certified that key and the certificate is valid now. A genuine certificate shown by anybody else, or one signed by another authority, is refused.",
  ["inputs", "histories"], "every static key of server and impostor, every clock reading, every alteration of the message that carries the certificate", "Tests check a certificate against the key it was made for, never against the key an impostor's handshake gave.",
  [W + "encryptor.rs", N + "certificate_format.rs", N + "noise_session.rs", N + "signature_noise_message.rs", X + "state.rs"], [("remote static key of the handshake", W + "encryptor.rs: get_remote_pubkey, " + X + "state.rs"), ("certificate over that key", N + "certificate_format.rs: verify")], ["result of verification", "remote static key"])
p("C29", "Messages arrive over an encrypted session exactly as they were sent",
  "A message that is framed, serialized, encrypted, decrypted and decoded arrives with every field as it was sent, in either direction, and the next one after it too. Nothing is delivered twice.",
  ["inputs", "histories"], "every message type with every field value, all key material, both directions, two messages in a row", "The parts are tested apart, with one value each.",
  [C + "frame.rs", M + "message.rs", X + "noisesession.rs", X + "state.rs"], [("framing", C + "frame.rs"), ("transport encryption", X + "noisesession.rs: send_message, recv_message")], ["received message fields"])
p("C30", "Secrets are erased as soon as they are no longer needed",
  "Once a handshake is complete, a session or connection no longer holds the private keys, Diffie-Hellman results, chaining keys or handshake keys it was made with, and a transport key that is replaced or cleared is gone. Private keys never appear in what is sent.",
  ["inputs", "histories"], "all key material, both roles, every sequence of two rekeys or clears", "Tests do not look into memory, and a copy left behind changes no result.",
  [X + "state.rs", X + "types.rs", X + "noisesession.rs"], [("erasure on completion", X + "noisesession.rs, " + X + "state.rs: clear"), ("zeroing of keys", X + "types.rs: clear")], ["memory of the session after each step"], [("handshake state", "keys needed until the handshake is complete", X + "state.rs"), ("cipher states", "current transport keys", X + "state.rs")])
p("C31", "Sessions and connections do not influence one another",
  "Several sessions, connections and peers in one process behave as if each were alone: handshakes and traffic in any interleaving, also in different threads, give each session exactly its own keys, numbers and messages. Misusing, rekeying, ending or dropping one leaves the others intact, and a message of one is refused by another.",
  ["histories", "schedules", "inputs"], "every interleaving of two sessions' steps, every misuse of one before the other goes on, all key material", "Tests run one session at a time; state shared by mistake (caches, statics, thread-locals) shows only when two are alive.",
  [X + "noisesession.rs", X + "state.rs", X + "types.rs", X + "prims.rs", W + "encryptor.rs", W + "peer.rs", N + "noise_session.rs"], [("all state of a session is in the session", X + "noisesession.rs: NoiseSession"), ("state of a connection", W + "encryptor.rs, " + W + "peer.rs")], ["messages sent and accepted by each session", "keys and hashes of each"], [("NoiseSession", "handshake state, cipher states, counters", X + "noisesession.rs")])
p("C32", "Encoding and decoding depend on nothing but their input",
  "What a value encodes to and what bytes decode to is a function of the value and the bytes alone: it is the same again later, after failed writes, messages cut short, garbage or other messages were handled before, and while other threads use the codec.",
  ["histories", "schedules", "inputs"], "every message type after each kind of earlier activity, arbitrary bytes decoded twice with others in between, two threads", "Each test starts from a fresh process state and handles one message; leftovers of an earlier one (scratch buffers, caches) never show.",
  [C + "parser.rs", C + "serialize.rs", C + "deserialize.rs", C + "frame.rs", M + "message.rs", T + "strings.rs", T + "bytes.rs", T + "message_type.rs"], [("encoders and decoders of the types", T + "strings.rs, " + T + "bytes.rs, " + T + "fixed.rs, " + T + "primitives.rs"), ("framing", C + "frame.rs, " + C + "parser.rs")], ["encoded bytes", "decoded values or errors"])
NA = []
