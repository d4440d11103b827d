import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d['anchors']['observe_at']=obs
    P.append(d)
S='src/siotls/'
p('C01','Byte-stream primitives are exact and never cross a bound',
 "Whatever fixed-width integer, length-prefixed byte string, list of integers or list of byte strings is written to the byte stream is read back equal, consuming exactly the bytes that were written, and a value or length that does not fit its field is refused instead of being truncated. "
 "Reading a field returns exactly the bytes asked for, taken in order from the current position; asking for more than the data left or more than the innermost active limit raises a buffer error, and no read ever moves past that limit. "
 "Leaving a limited region, or asserting the end of the stream, while bytes remain unread is always a buffer error, and is never one otherwise.",
 ['inputs'],"every stream content and position, every limit nesting, every field width, every integer, byte string and list length",
 "tests/test_serial.py samples a few short literals; no test covers every width, every length, or limits nested over arbitrary positions.",
 [S+'serial.py'],[('read/read_exactly/read_int/read_var/read_listint/read_listvar',S+'serial.py:SerialIO'),('write_int/write_var/write_listint/write_listvar',S+'serial.py:SerialIO'),('limit/lookahead/is_eof/assert_eof',S+'serial.py:SerialIO')],
 [('_limits','stack of absolute end positions, innermost last',S+'serial.py')])
p('C02','Every message survives encoding followed by decoding',
 "For every alert, change-cipher-spec, application-data, heartbeat and supported handshake message whose fields are within their protocol ranges, serializing it and parsing the result yields an equal message and consumes every byte. "
 "The serialized form is the one the TLS 1.3 presentation language prescribes: every length prefix equals the length of what follows it, the handshake header carries the message's type and exact body length, and fields appear in the standard order.",
 ['inputs'],"every instance of every content type and of every implemented handshake message type, with any number of list entries and any legal field lengths",
 "The existing round-trip tests use a handful of hand-written messages; the quantifier is over all field values, entry counts and lengths, including the boundary lengths.",
 [S+'contents/alerts.py',S+'contents/application_data.py',S+'contents/change_cipher_spec.py',S+'contents/heartbeat.py',S+'contents/handshakes/'],
 [('serialize / parse of contents',S+'contents/*.py'),('Handshake.parse dispatch, serialize header',S+'contents/handshakes/__init__.py'),('parse_body / serialize_body per message',S+'contents/handshakes/*.py')])
p('C03','Every hello extension survives encoding followed by decoding',
 "For every supported extension whose fields are within their protocol ranges, serializing it and parsing the result in the context of the handshake message that may carry it yields an equal extension and consumes every byte, and an extension of unknown type is preserved verbatim. "
 "The serialized form is the one the TLS 1.3 presentation language prescribes: the 16-bit type, the exact 16-bit length of the body, and inside the body every length prefix equal to the length of what follows it.",
 ['inputs'],"every implemented extension class, each handshake context it may appear in, any number of entries and any legal field lengths, every unknown type number",
 "Existing tests parse a few captured hellos; most extension classes are never serialized and re-parsed, and lengths and entry counts are not varied.",
 [S+'contents/handshakes/extensions/'],
 [('Extension.parse dispatch on (type, message), serialize header',S+'contents/handshakes/extensions/__init__.py'),('parse_body / serialize_body per extension',S+'contents/handshakes/extensions/*.py')])
p('C04','Decoding arbitrary bytes ends in a message or a TLS error, nothing else',
 "For every byte string, parsing it as the body of any record content type or any handshake message (including every extension inside it) terminates and either returns a message or raises a TLS alert or the TLS buffer error; no other kind of exception escapes. "
 "No parse consumes bytes outside the string it was given, nor outside the length announced by the enclosing field.",
 ['inputs'],"every byte string, every content type, handshake type and extension type number including unassigned ones",
 "Tests feed well-formed messages and a few malformed ones; totality is a statement about all of the malformed inputs an attacker can send.",
 [S+'contents/',S+'serial.py',S+'connection.py'],
 [('Content.get_parser',S+'contents/__init__.py'),('parse of every content',S+'contents/*.py'),('parse_body of every handshake message and extension',S+'contents/handshakes/**')])
p('C05','Sent records carry exactly the content, within the size limits',
 "Whatever message is sent, the bytes queued for the peer are whole records whose header holds the legacy 1.2 version and the exact length of the body, and the record plaintexts concatenated in order are exactly the serialized message, all labelled with its content type. "
 "No record's plaintext fragment exceeds the maximum fragment length in force and no record body exceeds it by more than the 256 bytes the protocol allows for protection; a message that may not be fragmented and does not fit is refused without queueing anything. "
 "Once send keys are installed every record is protected: its outer type is application data, its header is authenticated, and the peer holding the key recovers fragment and true content type after removing zero padding.",
 ['inputs','configurations'],"every message and size from empty to several records, every cipher suite, every maximum fragment length, before and after keys are installed",
 "The interop tests send short strings under the default fragment size; sizes at the fragment and padding boundaries and the small fragment limits are never exercised.",
 [S+'connection.py',S+'crypto/ciphers.py'],
 [('_send_content fragmentation and framing',S+'connection.py'),('_encrypt inner plaintext, padding and header',S+'connection.py'),('_decrypt padding removal',S+'connection.py')],
 [('_output_data','bytes queued for the peer',S+'connection.py')],['data_to_send()'])
p('C06','What is received does not depend on how the bytes were chunked',
 "For every byte stream from the peer and every way of cutting it into successive non-empty chunks, the same messages are processed in the same order and the stream ends with the same outcome (same application data, same state, same alert) as when it is delivered at once. "
 "A handshake message cut over any number of records is reassembled exactly; nothing is processed before its last byte has arrived, interleaving another record type inside a handshake message is a fatal error, and a record longer than the limit in force is refused as a record overflow as soon as its header is complete.",
 ['inputs','schedules'],"every stream content, every sequence of chunk sizes, plaintext and protected",
 "Tests deliver whole flights as OpenSSL happens to write them; chunk boundaries inside headers, inside compatibility messages and inside fragmented handshake messages are never enumerated.",
 [S+'connection.py'],[('_read_next_record',S+'connection.py'),('_read_next_content',S+'connection.py'),('receive_data loop',S+'connection.py')],
 [('_input_data','received bytes not yet framed',S+'connection.py'),('_input_handshake','partial handshake message',S+'connection.py')])
p('C07','No nonce is ever used twice under a key, and usage limits are enforced',
 "Under each traffic key the n-th record (counting from zero, separately per direction) is protected with the nonce equal to the key's IV exclusive-or n on the suite's nonce length, so two records never share a nonce, and asking whether a rekey is due never consumes or skips one. "
 "Installing new traffic keys restarts the count at zero together with the new key and IV. "
 "For every cipher suite, once the suite's record limit is reached no further record is protected or accepted under that key.",
 ['histories','configurations'],"every sequence of encryptions, decryptions, rekey queries and key installations, every cipher suite",
 "Tests exchange a few records; sequence numbers beyond them, the limit and all suites other than the default one are never reached.",
 [S+'crypto/ciphers.py',S+'utils.py'],[('_next_read_nonce / _next_write_nonce',S+'crypto/ciphers.py'),('should_rekey, usage_limit',S+'crypto/ciphers.py'),('peekable',S+'utils.py')],
 [('_read_seq/_write_seq','per-key record counters',S+'crypto/ciphers.py')])
p('C08','The key schedule is RFC 8446 and both sides derive mirrored keys',
 "For every cipher suite, shared key and transcript hashes, the early, handshake, application, exporter and resumption secrets, the finished keys and the record keys and IVs are the values that RFC 8446 section 7 and HKDF prescribe. "
 "Two endpoints of opposite sides given the same shared key and transcripts use identical keys for each direction (one's send key and IV are the other's receive key and IV) and accept each other's finished value; a finished value differing in any way, or computed over another transcript, is refused.",
 ['inputs','configurations'],"every cipher suite, side, shared key of any length, transcript hash, label and output length",
 "Interop tests only exercise the suite that gets negotiated on one run and compare nothing against the specification.",
 [S+'crypto/hkdf.py',S+'crypto/ciphers.py'],[('hkdf_extract/expand/expand_label/derive_secret',S+'crypto/hkdf.py'),('_TLSSecrets',S+'crypto/ciphers.py'),('derive_*_secrets, sign_finish, verify_finish',S+'crypto/ciphers.py')],
 [('_salt','chained secret',S+'crypto/ciphers.py'),('state','key schedule stage',S+'crypto/ciphers.py')])
p('C09','The transcript hash covers exactly the handshake, in order, on both sides',
 "At every point of a handshake the transcript digest equals the negotiated hash of the concatenation of all handshake messages sent and received so far in order, where after a hello retry request the first client hello is replaced by the synthetic message-hash message, and client and server agree on it. "
 "A handshake message that is not the next one allowed by the TLS 1.3 message order for its sender is refused with an unexpected-message alert and leaves the digest unchanged; after the handshake has completed no further message alters it.",
 ['inputs','histories'],"every sequence of messages, senders and types, every set of candidate hash functions, with and without a hello retry request",
 "Tests run complete correct handshakes; the order check is a safety net that a correct peer never triggers, and retry handshakes are not completed by any test.",
 [S+'transcript.py',S+'states/client/wait_server_hello.py',S+'states/server/wait_client_hello.py'],
 [('ORDER, update',S+'transcript.py'),('post_init',S+'transcript.py'),('do_hrr_dance',S+'transcript.py')],
 [('_hashes','running hashes',S+'transcript.py'),('_order_i','position in the message order',S+'transcript.py')])
p('C10','A client only becomes connected to an authenticated server',
 "A client connection reaches the connected state only after it has verified, in order, a certificate verify signature made by the server's presented key over the transcript up to the certificate with an algorithm the client offered, and a finished value computed with the server's key over the transcript up to the certificate verify. "
 "If peer authentication is configured, the presented key belongs either to a certificate chain verified against the trust store for the requested host name and not revoked, or to one of the trusted raw public keys, of a certificate type that was negotiated. "
 "Any failure of one of these checks, or any message skipped or out of order, makes the connection fail with a fatal alert.",
 ['histories','inputs','configurations'],"every sequence of messages an attacker-controlled server may send and every client configuration",
 "Tests connect to honest OpenSSL servers; no test presents a wrong signature, an untrusted raw key, a wrong finished value or a truncated handshake.",
 [S+'states/client/',S+'crypto/signatures.py',S+'crypto/ciphers.py',S+'states/__init__.py'],
 [('_verify_chain, _get_verifier, _verify_revocation, _process_raw_public_key',S+'states/client/wait_certificate.py'),('signature check',S+'states/client/wait_certificate_verify.py'),('finished check',S+'states/client/wait_finished.py')],
 [('_state','protocol state object',S+'connection.py'),('nconfig.peer_certificate / peer_public_key','presented identity',S+'configuration.py')])
p('C11','A server proves its own key and only completes on a verified client finished',
 "The server answers an acceptable client hello with its certificate chain (or raw public key) and a signature, by its own private key and an algorithm both sides support, over the server context string and the transcript up to its certificate, followed by a finished value over the transcript up to that signature. "
 "It becomes connected, and switches to application keys, only upon a client finished value that verifies over the transcript up to the server's finished; a wrong value fails the connection with a decrypt-error alert, and a second hello whose random or selected algorithms differ from the first is refused.",
 ['histories','inputs','configurations'],"every client message sequence and content, every server configuration",
 "The only server tests stop at the hello retry or need an OpenSSL client that cannot complete here; wrong finished values and modified second hellos are not sampled.",
 [S+'states/server/'],[('_send_server_hello/_send_server_certificate/_send_finished',S+'states/server/wait_client_hello.py'),('finished check',S+'states/server/wait_finished.py')],
 [('_is_first_client_hello','whether a retry was requested',S+'states/server/wait_client_hello.py')])
p('C12','Application data only flows on an established, unclosed connection',
 "Application data is accepted for sending, and received application data is delivered to the user, only after the handshake completed and only under application traffic keys; at any earlier moment sending raises an error queueing nothing, and receiving it is a fatal unexpected-message error. "
 "After the sending end is closed (exactly one close-notify is queued) or the connection failed nothing more can be sent, after the receiving end is closed nothing more is delivered, and neither a close nor a failure ever turns an unfinished or failed handshake into a connection reported as connected. "
 "Delivered data is exactly the concatenation of the received application-data payloads, each byte delivered once and in order.",
 ['histories'],"every interleaving of public calls (initiate, send, receive, read, close either end) with every peer message, on both sides",
 "Tests follow the regular life cycle; closing or sending at unusual moments, and unprotected data during the handshake, are histories no test visits.",
 [S+'connection.py',S+'states/'],[('can_receive/can_send/can_send_application_data',S+'states/*.py'),('_send_content gate',S+'connection.py'),('close_receiving_end / close_sending_end / is_connected',S+'connection.py')],
 [('_state','protocol state object',S+'connection.py'),('_application_data','received payload not yet read',S+'connection.py')])
p('C13','Every receive error is signalled to the peer and is terminal',
 "Whenever processing received data raises (a call refused outright for being empty, or made after the receiving end was closed, processes nothing), the connection has moved to the failed state, and if it could still send, the last record queued for the peer is exactly one fatal alert: the alert that was raised, or internal-error when the error is not a TLS alert. "
 "A failed connection stays failed: it never again queues anything, delivers data or leaves that state whatever is received or called. "
 "A warning or close-notify alert from the peer is not answered with a fatal alert once the handshake has completed.",
 ['histories','inputs'],"every state, every received content and every later sequence of calls",
 "Tests check a few alert values; that every error path in every state reaches the same terminal situation is not something sampled runs can show.",
 [S+'connection.py',S+'states/',S+'contents/alerts.py'],[('receive_data exception handling, _fail',S+'connection.py'),('Failed state',S+'states/failed.py'),('State.process alert handling',S+'states/__init__.py')],
 [('_state','protocol state object',S+'connection.py'),('_output_data','bytes queued for the peer',S+'connection.py')])
p('C14','The server picks its most preferred mutually supported parameters',
 "For every client offer and server configuration, the cipher suite, key-exchange group, signature algorithm, certificate types and application protocol selected are each the first entry in the server's own order that the client also offered (and that the server's key can serve), and the answer sent to the client names exactly those. "
 "When no common entry exists, a mandatory extension is missing or TLS 1.3 is not offered, the handshake stops with the alert the protocol assigns to that case; a hello retry request naming the selected group is sent exactly when the client offered the group but no share for it. "
 "Optional answers (maximum fragment length, heartbeat, application protocol, certificate types) are only sent for extensions the client sent.",
 ['inputs','configurations'],"every client hello and every server configuration",
 "Unit tests sample a few lists per extension; the guarantee quantifies over all pairs of ordered lists and all combinations of extensions.",
 [S+'states/server/wait_client_hello.py'],[('_find_common_cipher_suite',S+'states/server/wait_client_hello.py'),('_negociate_*',S+'states/server/wait_client_hello.py')],
 [('nconfig','negotiated parameters',S+'configuration.py')])
p('C15','The client accepts only parameters it offered and offers its configuration',
 "The client hello offers exactly the configured cipher suites, groups, signature algorithms, application protocols and certificate types in their configured order, TLS 1.3 only, a key share for the first group, and the server name when it is a host name rather than an address. "
 "For every server answer, the client proceeds only if the selected cipher suite, version, group and key share, certificate types, application protocol (exactly one) and fragment length are ones it offered or configured, and records exactly those as negotiated; otherwise it stops with the alert the protocol assigns. "
 "At most one hello retry request is honoured.",
 ['inputs','configurations'],"every server hello, hello retry request and encrypted extensions, and every client configuration",
 "Unit tests sample a few values per extension and one honest server; answers that were not offered are barely sampled.",
 [S+'states/client/start.py',S+'states/client/wait_server_hello.py',S+'states/client/wait_encrypted_extensions.py'],[('initiate_connection',S+'states/client/start.py'),('process / _negociate_*',S+'states/client/wait_server_hello.py'),('_negociate_*',S+'states/client/wait_encrypted_extensions.py')],
 [('nconfig','negotiated parameters',S+'configuration.py')])
p('C16','Inconsistent configurations are refused and accepted ones are immutable',
 "A configuration is accepted exactly when it names at least one cipher suite, group and signature algorithm and, for a server, has a private key, a certificate chain or public key and the default fragment length, and for a client, no server-side host name list; everything else is refused with a value error at construction. "
 "Peer authentication is required exactly when a trust store or trusted public keys are given, the certificate types derived for own and peer side list X.509 first then raw public keys exactly as far as material for them is configured, and the peer side is the opposite of the configured side. "
 "No attribute of a configuration, nor of a set of negotiated parameters once frozen, can be assigned or deleted afterwards.",
 ['configurations'],"every combination of configuration fields and both sides",
 "Tests build a few valid configurations; the decision table over all combinations is not enumerated.",
 [S+'configuration.py'],[('__post_init__ checks',S+'configuration.py'),('require_peer_authentication, certificate_types, peer_certificate_types',S+'configuration.py'),('freeze/__setattr__/__delattr__',S+'configuration.py')])
p('C17','Only a valid, fresh and matching OCSP response is ever trusted or cached',
 "An OCSP response is accepted only if it is successful, reports the certificate good, names the same issuer name, issuer key and serial number as the request, is currently within its validity interval, and is signed by the issuer's key with the issuer's signature algorithm; otherwise it is refused with a value error, and the returned expiry is the response's own. "
 "The response cache never holds more than its fixed number of entries, never answers with an expired entry or with the response of another request, and forgets an entry on demand. "
 "A response is only ever asked for at a plain http url with a non-empty authority, is refused when it announces another media type than that of OCSP responses or a length beyond the fixed maximum, and at most that number of bytes of it is ever read. Client and server only cache responses they have so validated, until the expiry of the response.",
 ['inputs','histories'],"every request/response pair, every time, every sequence of cache operations, every http answer",
 "There are no tests of the OCSP code; each condition has to hold for every response and the cache invariant for every history.",
 [S+'crypto/ocsp.py',S+'ocsp_over_http.py'],[('validate_ocsp',S+'crypto/ocsp.py'),('request/cache/uncache',S+'ocsp_over_http.py')],
 [('_cache, _cache_limits','cached responses and their expiry heap',S+'ocsp_over_http.py')])
p('C18','Secrets are only ever logged when key logging is enabled, and then exactly',
 "When key logging is disabled in the configuration, no secret is written to the key log by any operation, on either side, for any cipher suite. "
 "When it is enabled, each key installation writes the NSS key-log lines of the traffic secrets just derived, one line per secret, labelled with the standard label of that secret and identified by the client's random, with the exact value of that secret in hexadecimal.",
 ['configurations','histories'],"both sides, every cipher suite, every secret and client random, key logging on and off",
 "The only key-log test needs curl and cannot run here; absence of logging over all operations is not tested at all.",
 [S+'crypto/ciphers.py',S+'connection.py'],[('log lines in derive_*_secrets',S+'crypto/ciphers.py'),('log_keys plumbing',S+'states/client/wait_server_hello.py, states/server/wait_client_hello.py')])
p('C19','The socket wrapper moves every byte, in order, in both directions',
 "Whatever the transport accepts or returns per call, every byte the connection queues during handshake, reading, writing and closing is handed to the transport completely and in order, including alerts queued by an operation that then raises, and every byte received is given to the connection in order. "
 "A read returns all received application data not returned before, blocks only while the connection is connected and there is none, and returns empty once the peer closed; end of stream from the transport closes the receiving end, which during the handshake ends it unsuccessfully.",
 ['schedules','fault_sequences'],"every pattern of partial sends and receives, chunk sizes, end of stream positions and connection outcomes",
 "Tests run over a loopback socket where partial writes do not occur.",
 [S+'wrapper.py'],[('do_handhskake/read/write/close',S+'wrapper.py')])
p('C20','Key exchange rejects invalid shares and agrees otherwise',
 "For every supported group, two parties that each create a private key and share and combine their private key with the other's share obtain the same shared key, and each share sent has the exact size and encoding the standard fixes for the group. "
 "A peer share that is not a valid public value of the group (wrong size, point not on the curve, finite-field value outside the open interval from 1 to p-1, or low-order value giving an all-zero secret) is rejected with an error that the handshake turns into a fatal alert, and never yields a shared key. "
 "The finite-field groups use the primes, generators and subgroup orders published in RFC 7919.",
 ['inputs'],"every group and every byte string received as a key share",
 "Tests exchange honest shares of one or two groups; invalid shares are not sampled and the group constants are not compared with the standard.",
 [S+'crypto/key_exchanges.py',S+'crypto/ffdhe.py'],[('init/resume per group',S+'crypto/key_exchanges.py'),('group constants',S+'crypto/key_exchanges.py, crypto/ffdhe.py')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
