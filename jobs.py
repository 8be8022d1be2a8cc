"""Which harnesses decide which property, with their bounds."""
FRAMED = range(15)
ALL = range(16)
def J(h, cost=1, optional=False, hook=False, thorough=False, deep=None, viol=4, **p):
    return dict(h=h, p=p, cost=cost, optional=optional, hook=hook, thorough=thorough, deep=deep or {}, viol=viol)

LEVEL_NOTE = {
    "text": "Every path of the compiled code (unoptimised LLVM IR of the current tree, std included) is executed symbolically for all inputs within the stated bounds; Z3 decides branches and assertions. Trusted: rustc's IR, the executor (its witnesses are replayed on the compiled code on every run), Z3. Nothing is claimed outside the bounds.",
    "assumptions": [
        "rustc's unoptimised LLVM IR with overflow checks is what is executed; LLVM's scalar clean-up passes (sroa, early-cse, simplifycfg, instcombine) are trusted",
        "allocation never fails; the executor's memory model puts every allocation at its own address with guard space",
    ],
}
CRYPTO = [
    "primitives are modelled: ChaCha20-Poly1305 as an ideal cipher (a keystream function of key, nonce and block; a message decrypts exactly if this key, nonce, data and ciphertext were sealed before); X25519 as an uninterpreted function with commuting Diffie-Hellman and zero for low-order points; BLAKE2s' compression function as an uninterpreted function (no collision where stated)",
]

PROPS = {}
def P(pid, jobs, bounds, outside, assumptions=()):
    PROPS[pid] = dict(jobs=jobs, bounds=bounds, outside=outside, assumptions=list(assumptions))

P("C01", [J("h_c01_prims"), J("h_c01_fixed"), J("h_c01_parser", cost=5)],
  "every value of every fixed-width type; the parser over every pair of reads from buffers of up to 5 bytes with every 64-bit length asked for",
  "reads in sequences longer than two")
P("C02", [J("h_c02_" + b, cost=3, max=300, deep={"max": 512}) for b in ("b31", "b32", "b255", "b64k", "b16m")]
  + [J("h_c02_b64k_big", cost=2), J("h_c02_b16m_big", cost=3, max=1 << 17, deep={"max": 1 << 20}), J("h_c02_short_b"), J("h_c02_short_str"), J("h_c02_str32"), J("h_c02_str255"),
     J("h_c02_utf8_32", window=4), J("h_c02_utf8_255", window=4)]
  + [J("h_c02_any_" + b, optional=True) for b in ("b31", "b32", "b255", "b64k", "b16m")],
  "contents fully symbolic for every length 0..300, then lengths around 255, 65535 and 16777215 limits; lengths fully symbolic up to 2^32+70000 for the length rule and prefix; text with every 4-byte symbolic window",
  "texts with more than 4 arbitrary adjacent bytes at lengths above the exhaustive range")
P("C03", [J("h_c03_layout", cost=10, msg=k) for k in ALL] + [J("h_c03_wide", cost=5, msg=k) for k in ALL],
  "all 16 message types, every field value; one variable-length field at a time takes the lengths 0,1,2,5,31..33,63,64,127..129,191,254,255 (within its limit) with fully symbolic text",
  "two variable-length fields long at the same time")
def lim(k): return 18 if k in (0, 3, 6) else 50
P("C04", [J("h_c04_arbitrary", cost=3, msg=k, max=lim(k), deep={"max": 24 if k in (0, 3, 6) else 90}) for k in ALL]
  + [J("h_c04_mutated", cost=8, msg=k, k=2, deep={"k": 3}) for k in ALL] + [J("h_c04_types", cost=3), J("h_c04_unframe", cost=4), J("h_c04_texts", cost=3)],
  "every byte string of up to 18 (connection setup) or 50 (others) bytes, and every valid encoding with any 2 adjacent bytes replaced or the last byte cut; frames of up to 6+ bytes",
  "longer arbitrary inputs that are not two bytes away from a valid encoding")
P("C05", [J("h_c05_arbitrary", cost=3, msg=k, max=lim(k), deep={"max": 24 if k in (0, 3, 6) else 90}) for k in ALL]
  + [J("h_c05_mutated", cost=8, msg=k, k=2, deep={"k": 3}) for k in ALL],
  "as C04", "as C04")
P("C06", [J("h_c06_small", cost=2), J("h_c06_big"), J("h_c06_any_length", optional=True), J("h_c06_decode", cost=4, have=5, deep={"have": 9})],
  "every message type and channel-bit/extension combination the registry can give, payload contents symbolic for small lengths and payload length symbolic up to 2^32+70000; decoding of every header with every 3-byte length and every buffer up to header+5 bytes",
  "payload contents of frames above the small lengths (opaque there)")
P("C07", [J("h_c07_registry"), J("h_c07_names"), J("h_c07_channel_bit")],
  "every one of the 256 type codes and every registered type", "nothing: the input space is finite and covered")
P("C08", [J("h_c08_framing", cost=3, msg=k) for k in FRAMED] + [J("h_c08_unframe_any", cost=2, msg=k, max=7, deep={"max": 12}) for k in FRAMED],
  "all 15 framed message types with symbolic contents, every type code and extension field in the received header, payloads up to 200 bytes, arbitrary payloads up to 7 bytes",
  "longer payloads")
P("C09", [J("h_c09_mining", cost=8), J("h_c09_jn", cost=8), J("h_c09_protocol")],
  "every version pair, flag word and port; every combination of empty/non-empty/short texts; every protocol byte", "texts longer than the sampled shapes (their contents do not enter the rule)")
P("C10", [J("h_c10_flags"), J("h_c10_combined")], "every 32-bit flag word of every flag type", "nothing: the input space is covered")
P("C11", [J("h_c11_setup_codes", cost=3), J("h_c11_open_codes", cost=3), J("h_c11_long", cost=3), J("h_c11_error_rule")],
  "every ASCII text of up to 255 bytes as an error code, and every text of four-byte characters after up to 3 ASCII characters; every flag word with every error code", "texts mixing characters of different sizes otherwise")
P("C12", [J("h_c12_messages", cost=4, msg=k, budget=1, deep={"budget": 2}) for k in ALL] + [J("h_c12_types", cost=3, budget=1, deep={"budget": 2})],
  "every message and type against every writer that makes at most one short write, interruption or failure at any call (two in the thorough run)",
  "writers misbehaving more often than that")

TEXT = CRYPTO
P("C13", [J("h_c13_verify", cost=2), J("h_c13_time"), J("h_c13_twice", cost=2), J("h_c13_key_text")],
  "every version, period, static key and clock (seconds and nanoseconds, before the epoch too); every alteration of the 74 message bytes, of the static key, and another authority; one verification after another; every non-base58 character at every position of the key text, key texts of 0..60 equal digits",
  "key texts mixing several wrong digits", CRYPTO + ["Ed25519 is ideal: exactly the signatures the authority made are valid (the native replay uses the real one)"])
P("C14", [J("h_c14_rule"), J("h_c14_wire")], "every version, period, key and every 74-byte message; every truncation", "nothing: the input space is covered",
  CRYPTO + ["Ed25519 is ideal: exactly the signatures the authority made are valid (the native replay uses the real one)"])
P("C15", [J("h_c15_convert"), J("h_c15_now")], "every time up to 2^62 s before and after the epoch, to the nanosecond", "times the operating system cannot represent")
P("C16", [J("h_c16_handshake", cost=2), J("h_c16_transport", steps=3, deep={"steps": 5})],
  "every private key, every prologue and payload of the lengths 0,1,15,16,31..33,63..65,96,128,160 (one at a time), transport messages of 0,1,16,70 bytes in every order of directions up to 3 messages (5 in the thorough run)",
  "lengths between those listed (C18 covers 0..130 and the limits)", CRYPTO)
P("C17", [J("h_c17_order", cost=2, steps=5, deep={"steps": 6}), J("h_c17_tamper", cost=2), J("h_c17_send_number", hook=True), J("h_c17_recv_number", hook=True, cost=2)],
  "every order of sending, delivering, replaying and skipping with up to 5 events (6 thorough); every 64-bit message number on either side; every alteration, cut or extension of messages of 0,1,5,16,33 bytes",
  "longer histories, except as far as they only change the message numbers", CRYPTO)
P("C18", [J("h_c18_" + w, cost=5 if w == "first" else 3, max=130, deep={"max": 300}) for w in ("first", "second", "transport")] + [J("h_c18_" + w, cost=6, big=1, deep={"big": 2}) for w in ("first", "second", "transport")],
  "every buffer length 0..130 with any content, and 65535, 65536 (thorough: 0..300, 65519, 65534..65537), for every operation of both parties", "lengths in between; contents of the large buffers", CRYPTO)
P("C19", [J("h_c19_key"), J("h_c19_text"), J("h_c19_first"), J("h_c19_second")],
  "every 32-byte string as a public key; every one of the 12 low-order encodings as text, ephemeral and static key in the handshake", "encodings of low-order points other than the 12 listed (the top bit set on a listed one)", CRYPTO)
P("C20", [J("h_c20_turns", cost=2, steps=7, deep={"steps": 9}), J("h_c20_keys", cost=4, steps=4, deep={"steps": 5}), J("h_c20_early"), J("h_c20_age", hook=True)],
  "every sequence of up to 7 sends and receives of both parties from the start (9 thorough); every sequence of 4 sends, rekeys and clears of both parties and directions (5 thorough); any number 2..2^63 of earlier messages", "longer sequences", CRYPTO)
P("C21", [J("h_c21_sequence", steps=8, deep={"steps": 12}), J("h_c21_concurrent", cost=2, switches=2, deep={"switches": 3}), J("h_c21_concurrent", cost=3, switches=2, count=2), J("h_c21_drains", switches=4, deep={"switches": 6})],
  "every sequence of 8 queueings and drains; two queueing threads and a draining one, and two draining ones, in every schedule with up to 2 (4) preemptions at atomic operations and lock waits", "more threads or preemptions; weak memory orders (sequentially consistent execution is assumed)")
P("C22", [J("h_c22_handshake"), J("h_c22_altered", cost=4), J("h_c22_turns", cost=3)],
  "every static key and all the randomness; every alteration of any 16 adjacent bytes at 8 places of either message; every set of calls out of turn between the steps", "alterations elsewhere (C24 covers every position at the session level)", CRYPTO + ["the thread's random number generator gives arbitrary new bytes"])
P("C23", [J("h_c23_good"), J("h_c23_window", cost=2, window=2, deep={"window": 3}), J("h_c23_length"), J("h_c23_keypair")],
  "every byte value in every case at every position; every two adjacent ASCII characters at every position (three thorough); every length 0..140 with every digit; every 32-byte private key", "texts with more than two wrong characters apart from each other; non-ASCII text", CRYPTO)
P("C24", [J("h_c24_first", cost=2), J("h_c24_second", cost=4), J("h_c24_prologue"), J("h_c24_other_session")],
  "every alteration of any set of bytes of either handshake message with payloads of 0,1,20 bytes, cuts of up to 40 bytes at either end, extensions by 1,2,16,33 bytes; every two different prologues of 0,1,16,40 bytes; answers to other sessions", "longer payloads and prologues",
  CRYPTO + ["no collision between the transcript hashes of the two sides"])
P("C25", [J("h_c25_ephemeral", cost=2, inj_dh=1), J("h_c25_connections", cost=2, inj_dh=1), J("h_c25_keypair", inj_dh=1), J("h_c25_static", cost=3, inj_dh=1), J("h_c25_entropy", cost=2), J("h_c25_channel")],
  "all randomness; two sessions of each role, with and without a refused call before; generated static, ephemeral and authority keys", "more sessions; quality of the operating system's randomness; samplers rejecting more than twice", CRYPTO + ["the thread's random number generator gives arbitrary new bytes", "different secret keys have different public keys"])
P("C26", [J("h_c26_frames", frames=3, cost=2), J("h_c26_arbitrary", cost=3, max=14, deep={"max": 20})] + [J("h_c26_messages", msg=k) for k in FRAMED],
  "three frames of 0..300 bytes with any contents, cut anywhere in the last one; every stream of 14 arbitrary bytes (20 thorough); every message type followed by another one", "longer streams")
EQ = [k for k in ALL if k != 6]
P("C27", [J("h_c27_strings"), J("h_c27_fixed"), J("h_c27_frames")] + [J("h_c27_messages", msg=k) for k in EQ],
  "every pair of values of every fixed-width type; byte strings and texts of 0,1,2,5,31 bytes; every pair of messages of each type with texts of 0..4 bytes", "longer contents; the common connection setup enum, which has no comparison")
P("C28", [J("h_c28_connection", cost=2), J("h_c28_session", cost=2)],
  "every static key of the server and of an impostor, two authorities, every clock up to 2^33 s, every alteration of the encrypted part of the answer", "certificates of other periods than the one used (C13 covers them)",
  CRYPTO + ["Ed25519 is ideal: exactly the signatures the authority made are valid (the native replay uses the real one)", "the thread's random number generator gives arbitrary new bytes"])
P("C29", [J("h_c29_messages", cost=3 if k in (0, 3, 6, 8, 11, 14) else 1, msg=k, **({"max": 130} if k == 6 else {})) for k in FRAMED],
  "every message type with every field value and every length of its last text or byte string up to 258 bytes (130 for the error text of one type), both directions, two messages in a row, each delivered a second time too", "longer conversations (C17)", CRYPTO)
P("C30", [J("h_c30_handshake"), J("h_c30_connection"), J("h_c30_keys", cost=2)],
  "all key material; the memory of the session object after the handshake and after every sequence of two rekeys and clears", "copies on the stack and in freed memory; keys kept outside the session object", CRYPTO)
P("C31", [J("h_c31_sessions", cost=2), J("h_c31_disturbed", cost=3), J("h_c31_threads", cost=2, switches=2, deep={"switches": 4}), J("h_c31_connections", cost=4), J("h_c31_peers", steps=6, deep={"steps": 8})],
  "all key material of two sessions with equal or different prologues; every interleaving of the two handshakes and a message each way, in one thread, and in two threads with up to 2 preemptions (4 thorough); 9 kinds of misuse of one session after 0..2 messages of the other; two clients of one server; every 6 (8) operations on two peers", "three or more sessions; longer histories", CRYPTO + ["the thread's random number generator gives arbitrary new bytes"])
P("C32", [J("h_c32_frames", msg=k) for k in FRAMED] + [J("h_c32_messages", msg=15), J("h_c32_again", cost=3, max=6, deep={"max": 10}), J("h_c32_threads", switches=3, deep={"switches": 5})],
  "every message type after each of: the same type cut at every byte, written to a writer failing at every byte, another value (texts of 4, 60 and the largest length), arbitrary 4 bytes decoded as 5 other types, a longer input; every 0..6 bytes (10 thorough) decoded twice as 14 types with 3 or 6 arbitrary bytes decoded in between; two threads with up to 3 preemptions (5)", "longer histories; more threads", CRYPTO[:0])
