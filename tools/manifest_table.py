HOOKS = None
EXP = "explicit-state / stateless exploration of the real requester and responder"
DONE = {
 "C01": (f"{EXP}: all orders of user operations up to a depth, all catalogued configurations",
         "Bounded: operation sequences to depth 3 (thorough 4) after five start states, ~220 configurations; honest peers, deterministic primitives. Finite transcript buffers of non-hashed builds bound the history length."),
 "C02": (f"{EXP}: all version lists and all pairs of offers per family; every single-byte change of ALGORITHMS, NEGOTIATE_ALGORITHMS and VERSION against an independent selection oracle",
         "Exhaustive over version lists, hash, DHE, AEAD, requester-signature subsets (quick: asymmetric subsets against subsets of size <=2 or >=7), all pairwise family conflicts under 8 capability profiles."),
 "C03": (f"{EXP}: every legal request history up to a depth, then every request that is not permitted there (one, and two in a row), then completion of everything open",
         "Histories to depth 3 (thorough 4) after three start states, 30 request kinds in every session, six configurations. Vendor-defined and repeated encapsulated requests in a handshake are served by design and excluded."),
 "C04": (f"{EXP}: every bit of every message of every authenticated flow flipped in flight, every cut, insertion, drop, substitution and replay",
         "One change per execution, flows of one to three authenticating operations, eight configurations; transport headers and bytes after the end of a message are outside the message. A 1.0/1.1 measurement signature does not cover connection setup, and a responder without PSK context cannot check the PSK_EXCHANGE it answers."),
 "C05": (f"{EXP}: every sequence of right, forged, misdirected and replayed finish messages and of data in two open sessions; every forged proof, flipped byte or foreign chain presented to the requester",
         "Two concurrent handshakes, sequences of depth 2-3 (thorough 3-4) over 26-32 events; 7 signature and 8 MAC forgeries, all bytes of the proving responses, six configurations."),
 "C06": (f"{EXP}: every order of delivery of genuine, replayed, reflected, cross-session, renumbered and handshake-phase records in two sessions; every bit of every byte of a record, every cut and extension, both directions",
         "Two sessions, a few messages per session, sequence depth 3-4, both transports and every AEAD; sequence number formats of both transports. Application requests carry no correlation, so delivery is checked as an in-order subsequence."),
 "C07": (f"{EXP}: every record encrypted by either endpoint over all sequences of operations, link faults on every frame, failing device and crypto calls, unsolicited records, in one and two sessions, and at the end of the sequence numbers",
         "Event sequences of depth 2 (thorough 3) over ~155 events, depth 3 (5) without faults, five configurations plus every catalogued configuration once; the monitor compares all key and nonce pairs of both endpoints, so reuse across directions and sessions counts."),
 "C08": (f"{EXP}: every sequence of key-update requests right, short, misversioned, of unknown operation, damaged, under past and coming keys, with each key derivation failing, against the responder; every misbehaviour of each key-update answer against the requester; every link or call fault between two real endpoints; then every key of another generation is tried; and every order of the session object's own update, confirm and roll-back calls against a model of both directions",
         "Sequences of depth 3 (thorough 4) over 38 events for the responder, 2 (3) over 85 for the requester, 2 (3) for both real; five configurations. An UPDATE without a following VERIFY is accepted again by design."),
 "C09": (f"{EXP}: every sequence of session letters (open by certificate/PSK, complete, forge, end, damage, refuse, reconnect, and an n-th failing primitive or a lost frame at each step) on the real responder and on the real requester, the place table compared after every letter and every place filled afterwards; and every opening/ending order with both sides real",
         "2 letters (3 thorough) over ~100 letters from up to three start tables; 6 (8) letters for the two-sided histories; 4 versions/transports/handshake modes"),
 "C10": (f"{EXP}: every single-field mutation, truncation and extension of every request of every protocol state (at message, plaintext and frame level, in the clear and sealed in the session), every header with every code, and all short frames; the one answer is parsed independently, the state compared, and afterwards the original request, a complete session life and a fresh connection must work",
         "15 states x all legal requests x ~10 values per byte of the first 64 bytes (all 256 in thorough), codes 0..255, frames up to 2 (3) bytes; 3 (6) configurations"),
 "C11": (f"{EXP}: every single-field mutation, truncation and extension of every response of every operation, before authentication (crafted by an authentic peer), after it, inside the record and at frame level; every response code and every ERROR code in place of every response; peers that repeat themselves for ever; afterwards a fresh connection must work",
         "14-29 operations x all responses x ~10 values per byte of the first 64 bytes (all 256 in thorough); 4 (6) configurations; at most 10000 frames per operation"),
 "C12": (f"{EXP}: every message of honest conversations decoded, re-encoded and varied (every byte value, pairs of bytes, lengths, codes, every prefix, every buffer size), every value of every field structure, every operation sequence of the byte reader and writer, against reference tables of reserved bits and an independent buffer model",
         "All 30 message kinds in three versions and six algorithm suites; bytes 0..160 (600 thorough), pairs in the first 14 (40); reader/writer sequences of depth 4 (5)"),
 "C13": (f"{EXP}: every payload length, message kind and buffer size of both transports and of the application layer, every header value, every length field, and every label on every frame of real conversations, against a reference of both bindings",
         "Payloads 0..4199 and the nine largest data objects; all 2^18 DOE length fields; all 256 MCTP types, DOE vendor, type and reserved bytes; one mislabelled frame per conversation"),
 "C14": (f"{EXP}: all chain sizes 0..4096 (quick: those around every portion boundary) in the clear and in a session; all 256 provisioned-slot masks times every slot byte; every portion size 1..512 and every sequence of portion sizes up to the depth; every offset times a set of lengths asked of the responder; 40 deviations of the k-th CERTIFICATE answer, judged by a reference reassembler; every single-byte damage, cut and removal of the chain plus 35 structural ones, judged by an independent verifier, with and without a trust anchor",
         "quick: portion sequences of length 4, deviation in answers 0..5; thorough: length 5, answers 0..29, every size and every damage"),
 "C15": (f"{EXP}: every single call to every crypto, random, secret, device and I/O callback on both sides, in long operation histories of every version, transport, handshake-in-the-clear setting and slot layout, failed in turn; pairs of failing calls; afterwards the answer must be an error or nothing, the operation fails, no session becomes established, and a fresh connection with all four sessions works",
         "quick: 11 configurations in two operation orders, neighbouring pairs; thorough: also every catalogue configuration, all pairs in a short history"),
 "C16": (f"{EXP}: every random-bearing field of every frame (nonces, random data, PSK contexts, key shares) traced to a draw of its own by the sending side since its previous frame, over every catalogue configuration in two operation orders, all short operation orders from every start state, every frame lost, damaged, duplicated or answered by an ERROR with the operation tried again, and every random or key-generation call failing or giving only part of what was asked",
         "quick: orders of depth 2; thorough: depth 3 with all variants"),
 "C27": (f"{EXP}: the format check compared with an independent parser on every byte position of every certificate file of the repository (single-byte values, cuts, insertions, removals), every pair of replaced length fields, all concatenations of two files, every chain of a grammar of ten parts in fourteen styles, every short string, ten algorithm values",
         "quick: files up to 2100 bytes, 20 values per byte, three malformed parts at once; thorough: files up to 6000 bytes, all 256 values, four parts"),
 "C28": ("exhaustive enumeration of bounded input spaces and hash-context histories on the real provider functions, each compared with an independent implementation of SHA-2, HMAC, HKDF, AES-GCM, ChaCha20-Poly1305, P-256/P-384 and ECDSA: every length, every split and operation order, every single-bit change and every cut of keys, nonces, tags, signatures, public values and certificate chains, every algorithm pair",
         "quick: lengths 0..299, hash histories of depth 5, every bit of short inputs and every 7th to 97th of long ones, one changed bit per chain byte; thorough: lengths 0..1099, depth 6, every bit; the three-certificate chains of the repository in every algorithm; RSA signing done with ring"),
 "C17": (f"{EXP}: event-sequence enumeration on the real requester and responder (honest, locally refused, answered with an error, lost, damaged operations) followed by every authentication, and an independent requester's transcripts with refused requests in between; and every short sequence of appends and resets on each transcript buffer, at its capacity and past it",
         "sequences of up to 2 events (thorough 3) out of ~70, 3 versions, with and without a session, then each of up to 8 authentications and a new connection; reference: up to 3 (thorough 4) of 20 requests"),
 "C18": (f"{EXP}: exhaustive enumeration of hostile encapsulated exchanges (one and two interleaved handshakes) and FINISH variants against the real responder, of misbehaving responders against the real requester, and of faults between both",
         "one session: up to 3 (thorough 4) of 28 steps x 12 FINISH; two sessions: up to 3 fully and 4 partly of 17 steps; 300 changes of each encapsulated message in 3 modes, all 256 mode bytes; loss, damage, errors and failing callbacks at each point"),
 "C25": (f"{EXP}: exhaustive enumeration of vendor-defined exchanges on the real requester and responder, plus malformed requests and answers from an independent peer and insertion at every point of histories",
         "every payload length 0..4087 both ways; 14 standards x 8 identifier lengths x 20 (thorough 40) lengths; in the clear and in each session; 40 raw requests, 26 forged answers; every position of the long histories of 6 (thorough: the whole catalogue of) configurations"),
 "C22": (f"{EXP}: every combination of the defined capability bits of both roles and versions announced to the real responder/requester, with every reserved bit and pair, every exponent, boundary sizes, the ends' own configurations and sequences of reconnections, compared with the specification's rules written independently as a table",
         "requester bits: all 2^14 x {reserved clear,set} x 3 versions; responder bits: all 2^22 for 1.2 (quick) and for all versions (thorough); reserved bits by ones and twos; 256 exponents; boundary sizes squared; 3 (quick) or 4 connections"),
 "C21": (f"{EXP}: every operation of full-length histories run with every announced size on either side: whatever fits must succeed with the right value, whatever does not must fail as one unsent request or exactly one ResponseTooLarge (secured like the request) that changes nothing; every SPDM message on the wire measured against the receiver's announcement; payloads of every length around the limit; whole chains through small portions; reconnections with other sizes; illegal sizes",
         "all sizes 42..longest message (quick: within 1 of each message length and every 4th), both sides and both, 2 transports, 3 (6) configurations; orders of 2 (3) operations at every dividing size"),
 "C19": (f"{EXP}: every payload of the alphabet (all first bytes, protocol-looking headers with every code, every request and answer) as application request, application reply, protocol message, or inner message of another type, in every session kind and phase, compared with the handler logs, the wire and the keys of a reference model; orders of application and protocol operations over two sessions",
         "about 4,500 payloads (quick), 27,000 (thorough) x session histories; orders of 4 (5) operations from 14"),
 "C20": (f"{EXP}: device tables of every shape, every index 0..255 and order of queries, in and out of sessions, against the fake device and an independent requester and responder; and a device whose measurement summaries have the wrong size",
         "14 (27) tables, all 256 indices, orders of 3 (4) queries, all content-change values and slots, deviant responders"),
 "C26": (f"{EXP}: every request kind refused with every error code at every position of histories, every device or crypto failure at the responder, misplaced and unknown requests: the answer must be exactly one ERROR of the right code, form and place, and the requester must report a failure and keep its state",
         "all 256 codes x request kinds, all request codes 0..255, all positions of the histories"),
 "C23": (f"{EXP}: operation sequences over sessions with every link fault and failing device call, rogue authenticated requests and answers; every byte handed to the device and every heap block of either endpoint (allocator instrumented) is searched for every secret and protected plaintext; records under keys of ended sessions are replayed and forged",
         "single faults (all frames, first 2-3 calls of each kind) after 5 starts x 5 configurations, fault-free and common-fault sequences to depth 2-3 (thorough: 3-4, first 12 calls, all pairs of faults), all request kinds x lengths x parameters in 4 states, one changed answer at each position; blocks over 16 KiB and the stack are not searched"),
 "C24": (f"{EXP} against an independent specification-derived requester and responder (explicit reference model), every byte and key compared after every operation",
         "The reference model is itself part of the trust base; bounded to operation sequences of depth 3 (thorough 4) after five start states and ~220 configurations."),
}
