#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is diffable)."""
import json,os
S='spdmlib/src/'
def m(*a): return [dict(name=n,where=w) for n,w in a]
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=False):
    a=dict(files=files,mechanism=mech,observe_at=observe)
    if state: a['state']=state
    a['hook_needed']=None
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))

prop('C01','Honest peers always reach agreement, for every compatible configuration',
 'For every pair of compatible configurations and every order of operations a user may issue (connect, digests, certificate, challenge, measurements, session by certificate or by PSK, heartbeat, key update, vendor and application traffic, end session, reconnect), a requester and a responder that both follow this library complete every operation successfully, within the capacity of their transcript buffers. Afterwards both sides agree on version, capabilities, algorithms, session identifiers, session state and traffic keys.',
 ['configurations','histories'],'all listed version/capability/algorithm/transport configurations times all operation sequences up to the stated depth, in each of the four transcript/mutual-authentication build variants',
 'the two state machines are only exercised end to end by a test that does not build here, and a handful of sequences cannot cover the product of configurations and operation orders in which transcripts and keys can diverge',
 [S+'requester/context.rs',S+'responder/context.rs',S+'common/mod.rs',S+'common/session.rs'],
 m(('requester operations',S+'requester/*_req.rs'),('responder dispatch',S+'responder/context.rs process_message'),('transcripts and key schedule',S+'common/mod.rs')),
 ['results of the public requester operations','wire bytes seen by the device I/O of both sides','session table of both contexts'])
prop('C02','Negotiation selects only mutually supported options, best first, on both sides',
 'After connection setup, the version and every selected algorithm are ones that both sides were configured with, each family has the highest-priority common choice (or none where the relevant feature is not common), and both sides record exactly the same selection. Bits the library does not know are reserved and ignored. If there is no common version or a required algorithm has no common choice, setup fails on both sides, and a responder whose answer selects something that was not offered, or more than one option, is rejected by the requester.',
 ['configurations','inputs'],'all pairs of offered sets per algorithm family, all pairs of version sets, and all single-field deviations of the VERSION, CAPABILITIES and ALGORITHMS responses',
 'the number of offered-set pairs is large and the selection is a priority rule whose errors show up only on particular subsets',
 [S+'responder/version_rsp.rs',S+'responder/capability_rsp.rs',S+'responder/algorithm_rsp.rs',S+'requester/get_version_req.rs',S+'requester/negotiate_algorithms_req.rs',S+'requester/get_capabilities_req.rs',S+'protocol/algo.rs'],
 m(('priority selection',S+'protocol/algo.rs prioritize/is_no_more_than_one_selected'),('handlers',S+'responder/algorithm_rsp.rs, '+S+'requester/negotiate_algorithms_req.rs')),
 ['negotiated parameters of both contexts','VERSION/CAPABILITIES/ALGORITHMS bytes on the wire'])
prop('C03','The responder obeys the SPDM request ordering and rejects out-of-order requests',
 'In every reachable state the responder serves a request only if the protocol permits it there (version before capabilities before algorithms before everything else; finish only in a handshaking session; heartbeat, key update, end session and in-session queries only inside an established session; encapsulated messages only in a handshake that asked for mutual authentication; a vendor-defined request also in a handshake; connection-level requests never inside a session). Any other request gets an ERROR response or no response, and leaves the connection state, the negotiated parameters, the sessions and the later answers unchanged.',
 ['histories','inputs'],'all sequences, up to the stated depth, of every request kind (well formed, wrong version, in the clear or inside each session state) issued to a live responder',
 'ordering errors need a particular sequence of requests; unit tests construct one state at a time',
 [S+'responder/context.rs',S+'responder/error_rsp.rs',S+'common/mod.rs'],
 m(('dispatch tables',S+'responder/context.rs dispatch_message/dispatch_secured_message'),('per-handler state checks',S+'responder/*_rsp.rs')),
 ['responses on the wire','connection state and session table after every request'])
prop('C04','Every byte of an authenticated conversation is bound by its signature or MAC',
 'If any byte of a message covered by an authentication transcript is changed in flight in either direction (connection setup, digests, certificates, challenge, measurements, session establishment), or a covered message is dropped, replayed or substituted, then the operation that authenticates that transcript fails on the side that verifies it. A requester never reports an authenticated identity, a measurement record with signature, or a session that the two sides would describe differently. (The measurement signature of versions 1.0 and 1.1 does not cover connection setup, and a PSK session without responder context has no finish step; neither is required to.)',
 ['fault_sequences','inputs'],'every single-byte (several bit patterns), truncation, extension, drop, replay and substitution of every message of every authenticated flow, for each version and build variant',
 'tests sample a few tampered messages; binding is a statement about each byte position of each covered message',
 [S+'common/mod.rs',S+'requester/challenge_req.rs',S+'requester/get_measurements_req.rs',S+'requester/key_exchange_req.rs',S+'requester/finish_req.rs',S+'responder/finish_rsp.rs',S+'responder/psk_finish_rsp.rs'],
 m(('transcript accumulation',S+'common/mod.rs append_message_*'),('signature and HMAC verification',S+'requester/*_req.rs, '+S+'responder/finish_rsp.rs')),
 ['result of the authenticating operation','session state on both sides'])
prop('C05','A session is established only with a peer that proves the negotiated key',
 'A requester reports a session as established only if the responder signed the exchange with the private key of the certificate it presented (or knew the pre-shared key) and both sides proved the handshake secret; a responder marks a session established only after a valid finish message of that very session. An impostor without the private key, the shared DH secret or the PSK, replaying or crafting any message, never gets an established session or a delivered message.',
 ['inputs','histories'],'an attacker alphabet of recorded, crafted and spliced handshake messages, in every order up to the stated depth, against a live responder and a live requester',
 'an attack needs a sequence of unusual messages; a test exercises only the honest one',
 [S+'requester/key_exchange_req.rs',S+'requester/finish_req.rs',S+'requester/psk_exchange_req.rs',S+'responder/key_exchange_rsp.rs',S+'responder/finish_rsp.rs',S+'responder/psk_exchange_rsp.rs',S+'responder/psk_finish_rsp.rs'],
 m(('finish HMAC/signature check',S+'responder/finish_rsp.rs, '+S+'responder/psk_finish_rsp.rs'),('exchange signature/HMAC check',S+'requester/key_exchange_req.rs, '+S+'requester/psk_exchange_req.rs')),
 ['session state of the responder and requester','return values of start of session'])
prop('C06','Secured messages are delivered exactly once, in order, unmodified, or not at all',
 'A message accepted inside a session is byte for byte the next message the peer sent in that session and direction. Any modified, truncated, extended, replayed, reordered, reflected or cross-session record is rejected: nothing of it is delivered or acted on, and at most the session it names stops working, whatever the transport sequence-number format.',
 ['fault_sequences','inputs'],'every single-byte change, every truncation, and every replay/reorder/reflect/cross-session delivery up to the stated depth over short multi-session histories, for every AEAD and session protection mode',
 'the property quantifies over all adversarial deliveries of a channel; tests check a few round trips',
 [S+'common/session.rs',S+'common/mod.rs',S+'requester/context.rs',S+'responder/context.rs'],
 m(('record protection',S+'common/session.rs encode_spdm_secured_message/decode_spdm_secured_message'),('routing by session id',S+'responder/context.rs process_message')),
 ['delivered plaintexts','responses on the wire'])
prop('C07','No traffic key and nonce pair is ever used twice',
 'Over the whole life of an endpoint, across sessions, key updates, errors and retries, two different plaintexts are never encrypted under the same key and nonce, including when the two directions or two sessions are considered together. When a sequence number would wrap the endpoint refuses to encrypt instead.',
 ['histories','fault_sequences'],'all operation/fault sequences up to the stated depth, with every AEAD call recorded, plus sequence counters started at the boundary values',
 'nonce reuse needs a particular history (failed operation, key update, wrap-around)',
 [S+'common/session.rs'],
 m(('per-direction sequence numbers',S+'common/session.rs'),('key update',S+'common/session.rs create_data_secret_update/activate_data_secret_update')),
 ['arguments of every AEAD encryption call'])
prop('C08','Key updates keep both sides synchronised and can never desynchronise a session',
 'Any sequence of update-own-key, update-all-keys and verify-new-key operations, interleaved with traffic, leaves both sides with the same new keys, the old keys stop working, and only the requested directions change. A refused, lost or corrupted key-update exchange leaves the previous keys usable or the session failed, never a state in which an endpoint accepts messages under a key the protocol has not activated.',
 ['histories','fault_sequences'],'all key-update operation sequences up to the stated depth with one or two faults at every message',
 'the pending/active key state machine is only wrong for particular interleavings of update, verify and failures',
 [S+'requester/key_update_req.rs',S+'responder/key_update_rsp.rs',S+'common/session.rs'],
 m(('pending secrets',S+'common/session.rs create_data_secret_update/activate_data_secret_update'),('handlers',S+'requester/key_update_req.rs, '+S+'responder/key_update_rsp.rs')),
 ['keys used for each record','success of traffic after each operation'])
prop('C09','Sessions are created, limited, ended and reclaimed correctly',
 'At most the supported number of sessions exist, live sessions have distinct non-zero identifiers, ending or failing one session erases its secrets, frees its place and affects no other session, and a further session can then be opened. A failed or abandoned attempt never permanently consumes a place on the side that failed it, and a new connection setup discards all sessions.',
 ['histories','fault_sequences'],'all sequences of open/close/use/failed-open operations over several concurrent sessions up to the stated depth',
 'leaks and identifier reuse need several sessions in a particular order',
 [S+'common/session.rs',S+'common/mod.rs',S+'requester/key_exchange_req.rs',S+'requester/psk_exchange_req.rs',S+'requester/end_session_req.rs',S+'responder/end_session_rsp.rs',S+'responder/key_exchange_rsp.rs',S+'responder/psk_exchange_rsp.rs'],
 m(('session table',S+'common/mod.rs session[], get_next_avaiable_session'),('setup/teardown',S+'common/session.rs')),
 ['session table of both contexts','success of later operations'])
prop('C10','A responder survives arbitrary bytes: no panic, no hang, at most one answer',
 'Whatever bytes arrive, in the clear or inside an authenticated session, in any state, the responder neither panics, overflows, loops nor reads out of bounds; it produces at most one response per request, every response is a well-formed SPDM message or secured record, and a request that is not answered successfully does not prevent later valid requests or a fresh connection from succeeding.',
 ['inputs','histories'],'every request kind mutated at every byte (boundary values), every truncation and several extensions, in every reachable protocol phase, sent raw and as authenticated in-session plaintext, each followed by a fresh honest connection',
 'robustness is about all inputs in all states; tests feed a few well-formed buffers',
 [S+'responder/context.rs',S+'responder/',S+'message/','codec/src/'],
 m(('dispatch and handlers',S+'responder/'),('decoders',S+'message/*.rs')),
 ['return of the message loop','number and form of responses','a fresh honest run afterwards'])
prop('C11','A requester survives arbitrary responses: no panic, no hang, no false success',
 'Whatever bytes come back for any request, the requester operation returns a success or an error in a bounded number of exchanges, without panic, overflow, out-of-bounds access or unbounded looping. After an error the requester can run a fresh connection to an honest responder.',
 ['inputs','histories'],'every response of every requester operation mutated at every byte (boundary values), truncated, extended, replaced by every other response kind and by every error code, each followed by a fresh honest connection',
 'robustness is about all responses at all points; tests feed the honest one',
 [S+'requester/',S+'message/','codec/src/'],
 m(('response handlers',S+'requester/*_req.rs'),('decoders',S+'message/*.rs')),
 ['return value of each operation','number of exchanges','a fresh honest run afterwards'])
prop('C12','Every message structure survives an encode/decode round trip and rejects garbage',
 'For every message and field structure and every legal value, decoding the encoding yields the same value, consumes exactly the bytes written, and re-encoding yields the same bytes; every strict prefix of a valid encoding is rejected without panic; a destination buffer that is too small yields an error, never a partial success. Reserved bits are written as zero and ignored on input, and unassigned enumeration values are preserved as unknown or rejected, never mapped to a valid value.',
 ['inputs'],'for each message kind, the product of small value domains for every field (all flag bits, all enumerators, boundary lengths), every prefix length, every destination size, and every single-byte substitution',
 'round-trip tests use one value per structure; length, flag and boundary combinations are what break',
 ['codec/src/codec.rs',S+'message/',S+'protocol/algo.rs',S+'protocol/capability.rs',S+'common/opaque.rs',S+'common/spdm_codec.rs'],
 m(('reader/writer','codec/src/codec.rs'),('message codecs',S+'message/*.rs'),('field codecs',S+'protocol/*.rs, '+S+'common/opaque.rs')),
 ['encoded bytes','decoded values'])
prop('C13','Transport encapsulation is lossless and rejects malformed frames',
 'For both transports, every payload and message type, decapsulating an encapsulated frame returns the payload (up to the documented padding) and its type, and frames with a wrong type, wrong length, missing header or a payload that does not fit the buffers are rejected with an error, never a panic or a partial copy.',
 ['inputs'],'all payload lengths around every boundary, all buffer sizes from zero to sufficient, all header byte values, both transports, for the plain and application layers',
 'boundary sizes of two buffers times header values cannot be sampled reliably',
 ['mctp_transport/src/mctp_transport.rs','pcidoe_transport/src/pcidoe_transport.rs'],
 m(('encap/decap','mctp_transport/src/mctp_transport.rs, pcidoe_transport/src/pcidoe_transport.rs')),
 ['frames and payloads returned by encapsulation and decapsulation'])
prop('C14','Certificate chains and digests are retrieved exactly and bad chains are refused',
 'For every provisioned slot and every chain size, the requester ends up with exactly the responder\'s chain for that slot, whatever portion sizes the responder returns, in or out of a session, and digests correspond to the provisioned slots. A chain whose length, root hash, trust anchor or signature chain is wrong, or a portion stream that is inconsistent, is refused, and an unprovisioned slot yields an error.',
 ['inputs','configurations'],'chain sizes around every portion and buffer boundary, every slot mask, every portion-size choice per step up to the bound, and each corruption class of the chain',
 'reassembly is an offset/length state machine whose errors appear only at particular sizes and splits',
 [S+'requester/get_certificate_req.rs',S+'requester/get_digests_req.rs',S+'responder/certificate_rsp.rs',S+'responder/digest_rsp.rs',S+'crypto/x509v3.rs',S+'common/mod.rs'],
 m(('reassembly loop',S+'requester/get_certificate_req.rs'),('portion computation',S+'responder/certificate_rsp.rs'),('chain construction',S+'common/mod.rs construct_my_cert_chain')),
 ['stored peer chain','DIGESTS/CERTIFICATE bytes on the wire'])
prop('C15','A failing crypto, random, secret or device call never turns into success',
 'If any one call to a cryptographic primitive, the random source, the secret store or the device fails, the current operation fails on that side: no response pretends success, no unsigned or placeholder-filled authentication field leaves the device, nothing panics, and no session becomes established. After the fault clears, a fresh connection succeeds and no session place has been lost.',
 ['fault_sequences'],'every single call to every callback in every flow failed in turn (and pairs in the thorough tier), in each version and build variant',
 'error paths are one per call site; tests exercise none of them',
 [S+'requester/',S+'responder/',S+'common/',S+'crypto/',S+'secret/'],
 m(('error propagation',S+'responder/*_rsp.rs, '+S+'requester/*_req.rs'),('callback dispatch',S+'crypto/mod.rs, '+S+'secret/mod.rs')),
 ['responses on the wire','return values','session tables','a fresh honest run afterwards'])
prop('C16','Nonces, random data, contexts and key shares are fresh for every message',
 'Every nonce, random field, PSK context and ephemeral key share that goes on the wire comes in full from the random source or key generator at the time of that message and is never constant, truncated, reused or predictable from earlier messages, in every role, version, retry and session. A failing random source is an error rather than a weaker value.',
 ['histories','configurations'],'all operation sequences up to the stated depth with every random-bearing field on the wire traced to distinct draws of a counting random source',
 'a constant or reused nonce passes every functional test',
 [S+'requester/challenge_req.rs',S+'responder/challenge_rsp.rs',S+'requester/get_measurements_req.rs',S+'responder/measurement_rsp.rs',S+'requester/key_exchange_req.rs',S+'responder/key_exchange_rsp.rs',S+'requester/psk_exchange_req.rs',S+'responder/psk_exchange_rsp.rs'],
 m(('random draws',S+'crypto/mod.rs rand'),('message construction',S+'requester/*, '+S+'responder/*')),
 ['random-bearing fields on the wire','calls to the random source'])
prop('C17','Transcripts reset and accumulate identically on both sides in every history',
 'After any history of successful, refused, repeated, interrupted or out-of-order operations, the next authenticated operation between honest peers succeeds, because both sides accumulate and reset the authentication and measurement transcripts by the same rules. A request that was answered with an error never contaminates a later transcript; a response that was lost makes at most the next authentication of that transcript fail, and a fresh connection always recovers.',
 ['histories','fault_sequences'],'all operation sequences up to the stated depth over transcript-relevant operations with at most one or two failures (error responses, malformed requests, lost messages) at every point, followed by a probe',
 'transcript contamination needs a particular failed or repeated operation before the signature',
 [S+'common/mod.rs',S+'requester/',S+'responder/'],
 m(('transcript buffers',S+'common/mod.rs append_message_*/reset_message_*, reset_buffer_via_request_code')),
 ['success of the probe operations','signed transcript hash versus an independent recomputation from the wire'])
prop('C18','Mutual authentication binds the requester identity into the session',
 'With mutual authentication requested, a session becomes established only if the requester delivered the certificate chain of the requested slot through the encapsulated exchange, that chain is acceptable, and the finish message carries a valid signature of its key over the whole handshake. Any tampering with or omission, reordering or failure of an encapsulated step, or a finish without the signature, leaves the session unestablished without panicking.',
 ['inputs','fault_sequences','configurations'],'all encapsulated-flow step sequences up to the stated depth, every byte mutation of each encapsulated message, requester chain sizes and slots, and versions',
 'the encapsulated flow is a nested state machine that no running test drives',
 [S+'responder/encap_rsp.rs',S+'responder/encap_get_certificate.rs',S+'responder/encap_get_digest.rs',S+'requester/encap_req.rs',S+'requester/encap_certificate.rs',S+'requester/encap_digest.rs',S+'requester/mutual_authenticate.rs',S+'responder/finish_rsp.rs',S+'requester/finish_req.rs'],
 m(('encapsulated request engine',S+'responder/encap_rsp.rs, '+S+'requester/encap_req.rs'),('finish signature',S+'requester/finish_req.rs, '+S+'responder/finish_rsp.rs')),
 ['session state of the responder','stored peer chain','wire messages'])
prop('C19','Application data can never act as protocol traffic, and the reverse',
 'Inside a session, application messages reach only the application handler and their replies come back as application messages, whatever bytes they contain and however short they are; SPDM messages never reach the application handler. No application payload changes any protocol, session or key state.',
 ['inputs','histories'],'all application request and reply payloads of the stated alphabet (every opcode value in the positions a protocol header would occupy, all short lengths) in every session phase',
 'only particular payload bytes collide with protocol opcodes',
 [S+'responder/context.rs',S+'responder/app_message_handler.rs','mctp_transport/src/mctp_transport.rs'],
 m(('post-send state change',S+'responder/context.rs send_secured_message'),('application dispatch',S+'responder/context.rs dispatch_secured_app_message')),
 ['calls of the application handler','session state after each exchange'])
prop('C20','Measurements returned to the user are exactly the device measurements requested',
 'For every index, block count, version, signature choice and slot, in or out of a session, the record and block count returned equal those the device provides for that request, and the responder refuses indices it does not have. With a signature requested the signed transcript covers exactly the measurement exchanges since the last reset, and the reported slot and content-change status are consistent with the request.',
 ['inputs','histories','configurations'],'device tables of zero to several blocks, every index value, every order of signed and unsigned queries up to the stated depth, versions and slots',
 'index, count and transcript-window errors appear only for particular tables and query orders',
 [S+'responder/measurement_rsp.rs',S+'requester/get_measurements_req.rs',S+'message/measurement.rs',S+'common/mod.rs'],
 m(('record construction',S+'responder/measurement_rsp.rs'),('record parsing and signature check',S+'requester/get_measurements_req.rs')),
 ['value returned to the caller','MEASUREMENTS bytes on the wire'])
prop('C21','Announced message-size limits are enforced in both directions',
 'Neither side ever sends an SPDM message longer than the data-transfer size the other side announced; an answer that would be too long is replaced by a single response-too-large error, which reaches the requester as a failure, in and out of a session, and does not alter protocol state. Illegal announced sizes are refused, and certificate portions shrink to fit.',
 ['configurations','inputs'],'announced sizes around every message length of every flow, on either side',
 'only particular sizes relative to particular messages exercise the limit',
 [S+'responder/context.rs',S+'requester/context.rs',S+'responder/certificate_rsp.rs',S+'responder/capability_rsp.rs',S+'message/capability.rs'],
 m(('size checks',S+'responder/context.rs send_message, '+S+'requester/context.rs send_message')),
 ['length of every SPDM message on the wire','result of the operation'])
prop('C22','Capability flags are validated and recorded exactly, for every combination',
 'An announced combination of capability flags is accepted exactly when it is legal for the announcing role and the negotiated version, and is then recorded exactly as announced with reserved bits cleared; an illegal combination is refused with no state change. Timing exponents and sizes announced alongside are recorded exactly or refused when out of range.',
 ['inputs','configurations'],'all combinations of flag bits of requester and responder for each version (in full for the defined bits), and all values of each other field',
 'there are tens of thousands of combinations with cross-bit rules',
 [S+'message/capability.rs',S+'protocol/capability.rs',S+'responder/capability_rsp.rs',S+'requester/get_capabilities_req.rs'],
 m(('flag rules',S+'message/capability.rs'),('handlers',S+'responder/capability_rsp.rs, '+S+'requester/get_capabilities_req.rs')),
 ['response to GET_CAPABILITIES','recorded capabilities of both contexts'])
prop('C23','Secrets and protected plaintext never reach the wire or other sessions',
 'Once a session has handshake keys, everything sent in it is a secured record (encrypted when encryption was negotiated; only FINISH and its answer go in the clear, where a clear handshake was negotiated, and an ERROR about a record that could not be read), and no session secret, pre-shared key or protected plaintext is ever visible in the bytes given to the device, including in error paths. Memory that held a secret is erased before it is given back. However a session ends or fails to start, neither endpoint keeps any of its secrets and records under its keys are no longer accepted; after a completed key update neither endpoint keeps the keys it replaced.',
 ['histories','fault_sequences'],'all operation and fault sequences up to the stated depth, with every byte given to the device searched for every secret and protected plaintext in use',
 'a leak appears only in some error or mode combination and never fails a functional test',
 [S+'common/session.rs',S+'responder/context.rs',S+'requester/context.rs',S+'responder/error_rsp.rs',S+'responder/finish_rsp.rs'],
 m(('record protection',S+'common/session.rs'),('teardown',S+'common/session.rs set_default'),('erasing types',S+'protocol/algo.rs create_sensitive_datatype')),
 ['bytes handed to the device','heap blocks an endpoint holds, and their contents when given back'])
prop('C24','The wire format, transcripts and key schedule follow the SPDM specification',
 'Every message sent by either side is byte for byte what the specification prescribes for the negotiated parameters, apart from free choices such as nonces; signatures and MACs cover exactly the specified transcript with the specified signing context, and the handshake, data, finished, export and updated keys and nonces are those of the specified key schedule. An independent implementation written from the specification interoperates with each side in every configuration.',
 ['configurations','histories'],'an independent reference requester and responder run against the real ones over all listed configurations and operation sequences, comparing every byte and every key',
 'both sides of the library share the same code, so self-tests cannot notice a deviation made consistently on both sides',
 [S+'common/key_schedule.rs',S+'common/session.rs',S+'common/mod.rs',S+'message/',S+'requester/',S+'responder/'],
 m(('key schedule',S+'common/key_schedule.rs'),('transcripts',S+'common/mod.rs'),('message layout',S+'message/*.rs')),
 ['wire bytes','AEAD keys and nonces used','data passed to sign, verify and HMAC'])
prop('C25','Vendor-defined exchanges pass data through and disturb nothing',
 'A vendor-defined request reaches the registered handler exactly once with exactly the payload that was sent, its answer comes back unchanged under the standard and vendor identifiers of the request, in the clear and inside a session, for every legal length; a failing handler yields an error response. The exchange changes no negotiated parameter, session or key on either side, and affects no authentication other than by restarting a measurement log as any other request does.',
 ['inputs','histories'],'all vendor identifier and payload lengths, in every protocol phase, combined with preceding and following operations up to the stated depth',
 'interference with other state needs a later operation; the tests issue the exchange alone',
 [S+'requester/vendor_req.rs',S+'responder/vendor_rsp.rs',S+'message/vendor.rs'],
 m(('request',S+'requester/vendor_req.rs'),('handler call',S+'responder/vendor_rsp.rs')),
 ['arguments and results of the vendor handler','success of later operations'])
prop('C26','Error responses end the operation correctly and only where required',
 'For every operation and every error code, an ERROR response makes the requester operation fail with no state left half-changed: the connection and other sessions keep working, and the operation can be retried successfully. Inside a session a decrypt error ends exactly that session on the requester, and the error the responder sends for each refusal carries the version, code and data the specification prescribes.',
 ['inputs','histories'],'every operation times every error code and error-data value, at every message of the operation, followed by a retry and by probes of the other sessions',
 'each pair of operation and error code is a separate path and its harm shows only in what follows',
 [S+'requester/handle_error_response_req.rs',S+'requester/',S+'responder/error_rsp.rs',S+'message/error.rs'],
 m(('error handling',S+'requester/handle_error_response_req.rs'),('error generation',S+'responder/error_rsp.rs')),
 ['result of the operation','session tables','later operations','ERROR bytes on the wire'])
prop('C27','The X.509 format check accepts exactly well-formed v3 chains and never panics',
 'For every byte string and every signature algorithm, the certificate chain format check returns without panicking. It accepts exactly a sequence of certificates that fill the input with no byte more or less, each a DER sequence of to-be-signed part, signature algorithm and signature value, whose to-be-signed part starts with version 3, serial number, signature algorithm, issuer, validity, subject and public key, no element reaching beyond its container, lengths of at most four octets, and where both signature algorithm identifiers of the last certificate are the one negotiated; the count returned is the number of certificates.',
 ['inputs'],'every single-byte change, cut, insertion and removal of every test certificate and chain, every pair of changed length fields, every chain of a grammar with several malformed parts, every short string, and all algorithms',
 'the input comes from the peer before anything is verified; tests hold a dozen well-formed certificates and a few short fragments',
 [S+'crypto/x509v3.rs'],
 m(('structure walk',S+'crypto/x509v3.rs check_cert_format, check_tbs_certificate'),('length decoding',S+'crypto/x509v3.rs check_length')),
 ['result of check_cert_chain_format'])
prop('C28','The bundled crypto provider computes and verifies exactly what was negotiated',
 'For every algorithm the ring-based provider offers and every input, its results are those of the published standards: hashes (whole or in any pieces, with contexts duplicated at any point), HMAC, HKDF extract and expand, AEAD encryption and decryption of every size, and Diffie-Hellman on both curves, where a public value that is not a point of the curve is refused. A signature verifies only for exactly the signed data, key and algorithm pair; decryption succeeds only for exactly the key, nonce, associated data, ciphertext and tag produced. A certificate chain is accepted only if every certificate in it is signed by the one before and nothing was changed, cut off, reordered or appended. Wrong sizes, unsupported algorithms and malformed values are refused without panicking.',
 ['inputs'],'every length up to the stated bound for every algorithm, every sequence of hash context operations up to the stated depth, every single-bit change and cut of keys, signatures, ciphertexts, public values and chains, and every wrong size, compared with independent implementations of the primitives',
 'the tests run a few vectors of some algorithms, and this provider is not built by the default test suite',
 [S+'crypto/spdm_ring/hash_impl.rs',S+'crypto/spdm_ring/hmac_impl.rs',S+'crypto/spdm_ring/hkdf_impl.rs',S+'crypto/spdm_ring/aead_impl.rs',S+'crypto/spdm_ring/dhe_impl.rs',S+'crypto/spdm_ring/asym_verify_impl.rs',S+'crypto/spdm_ring/cert_operation_impl.rs',S+'crypto/spdm_ring/rand_impl.rs'],
 m(('primitives',S+'crypto/spdm_ring/*.rs'),('dispatch',S+'crypto/mod.rs')),
 ['results of the provider functions'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in P:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p)+'\n')
print(len(P))
