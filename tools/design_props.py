"""Notes per property for DESIGN.md (tools/mkdesign.py joins them with jobs.py and the seeded bugs)."""
D = {
"C01": ("Each type's value is symbolic; it is serialized, the bytes are compared with a little-endian specification written with shifts in the harness, decoded again and compared bit by bit. The parser is run over every (buffer length, start, first amount, second amount), with the amounts full 64-bit symbols.", "specification bytes in the harness; reads must be sub-slices of the buffer"),
"C02": ("Contents of every length up to the exhaustive bound are symbolic; lengths around and above each limit are symbolic numbers with opaque contents (a vector whose bytes are never looked at), so that the 2^16 and 2^24 limits are reached without allocating. Text: UTF-8 validity of a symbolic 4-byte window at every place is decided against the Unicode table written as one formula.", "accepted iff min <= len <= max and valid UTF-8; prefix and contents compared with the specification"),
"C03": ("Every message type is built from symbolic fields; the encoding is compared with the concatenation of independently encoded fields (the layout table of the protocol, harness/src/msgs.rs), decoded and compared field by field, and every proper prefix must be refused.", "layout table in msgs.rs"),
"C04": ("Decoders run on arbitrary byte strings and on valid encodings with a symbolic 2-byte patch at every position or the end cut; panics, overflow (checks are compiled in), out-of-bounds accesses and loops beyond the step limit are violations found by the executor itself.", "no abnormal end; the executor's memory model"),
"C05": ("Same inputs as C04; if decoding succeeds, the value is re-encoded and must equal the consumed bytes, and each field is compared with an independent reading of the bytes.", "re-encoding; independent field reader"),
"C06": ("Frames are built for every registered type with symbolic payloads, and for symbolic payload lengths beyond 2^24 and 2^32; arbitrary headers are decoded with every 3-byte length and buffer size.", "header formula; registry of C07"),
"C07": ("All 256 codes and both extension fields are symbolic inputs of MessageType::new; all types are mapped back.", "protocol table in the harness"),
"C08": ("Each message type is framed and unframed as itself with symbolic contents, and unframed as a type whose code or extension differs (symbolic).", "same message back, or refusal"),
"C09": ("Constructors and decoders of the three setup requests get symbolic versions, flags, ports and texts of every emptiness pattern.", "rule written out as one boolean formula"),
"C10": ("The 32-bit flag word is one symbol, for each flag type.", "protocol's bit table"),
"C11": ("Error texts of each length 0..255 with symbolic ASCII (and four-byte) characters; setup errors with a symbolic flag word and code.", "list of codes in the harness; flag rule as a formula"),
"C12": ("A writer whose every call may (symbolically) write fewer bytes, be interrupted or fail, at most `budget` times.", "complete encoding and size, or error with a prefix written"),
"C13": ("Certificates are signed under an ideal signature scheme; message, key, authority and clock are then altered symbolically. The clock is a model of clock_gettime.", "accepts iff unaltered, same authority, valid_from <= now < not_valid_after"),
"C14": ("As C13, for construction, the bytes handed to the signer, and the 74-byte codec.", "layout and period rule"),
"C15": ("Seconds and nanoseconds are symbols.", "floor of the time if 0 <= t < 2^32"),
"C16": ("An independent implementation of Noise NX (harness, from the specification) runs next to the real one over the same uninterpreted primitives: equality of all outputs for every interpretation of the primitives is what the solver decides.", "the specification's NX transcript"),
"C17": ("A schedule of sends and deliveries chosen symbolically (one path per choice), with a model of which message must be accepted; message numbers are 64-bit symbols set through the hook.", "reference counter of each direction"),
"C18": ("Each operation of either party is called with each buffer length and symbolic contents; after a refusal the exchange is continued and compared with one that never saw the bad buffer.", "processed or refused-without-effect"),
"C19": ("A symbolic 32-byte key through from_bytes, from_str, and as ephemeral and static key of a handshake.", "membership in the list of forbidden encodings (RFC 7748/curve25519 low-order table)"),
"C20": ("Every sequence of operations is a path; a reference automaton says which must succeed; key changes are followed by a model of the keys of each direction.", "automaton and key model in the harness"),
"C21": ("Two or three threads run as symbolic threads over the compiled std Mutex (futex calls modelled); the scheduler forks at atomic operations within a preemption bound.", "multiset and per-sender order of drained messages; deadlock detection"),
"C22": ("ConnectionEncryptor pairs with symbolic randomness; messages altered by a symbolic patch; calls out of turn inserted at every step.", "completes iff unaltered and in turn"),
"C23": ("Texts with symbolic characters in symbolic windows, each length up to 140.", "hexadecimal value computed in the harness"),
"C24": ("A symbolic alteration (arbitrary bytes different from the genuine ones), cut, extension or exchange of either message; the initiator must refuse under the ideal-AEAD model.", "no completion, hash, remote key or further message"),
"C25": ("Draws of the generator are symbolic; sessions' public ephemerals are compared with those of earlier sessions; entropy: every byte of a generated secret must be able to take different values (satisfiability queries through vk::possible).", "distinctness; range of channel ids"),
"C26": ("A stream of three frames with symbolic contents and lengths, cut at a symbolic place, and arbitrary streams; the decoder loop is run over it with one parser.", "the frames sent, or an independent splitter"),
"C27": ("Two values with independent symbolic contents; `==` must equal the comparison of all fields (float fields by IEEE comparison), from both sides.", "conjunction of field comparisons"),
"C28": ("Client and server (or an impostor) with symbolic keys run the real handshake, then CertificateFormat::verify with the key learned.", "accepts iff certified by the trusted authority, for that key, now"),
"C29": ("serialize → frame → encrypt → decrypt → unframe → fields, for each message type with symbolic fields.", "fields sent"),
"C30": ("After completion (and after rekey/clear) the bytes of the session object are compared with each secret: `possible(secret occurs at offset i)` must be unsatisfiable beyond coincidence, as the secrets are symbols.", "no 16-byte window of the object is forced to equal a part of a secret"),
"C31": ("Two symbolic sessions are stepped in every interleaving (and in two symbolic threads); each output is compared with the reference formulas of its own keys. One session is misused while the other continues.", "each session equals its single-session reference"),
"C32": ("A first, arbitrary use of the codec (forked over kinds, cut places and symbolic bytes) is followed by encoding and decoding a symbolic message; or the same symbolic bytes are decoded twice around another decoding.", "equal to the specified bytes and fields; equal outcomes")
}
