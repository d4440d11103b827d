"""What is left unchecked; copied in the evidence of every run."""

TRUSTED = [
    'z3 5.3 (python3-vt) decides the obligations; cvc5 1.4 re-discharges them in the thorough tier',
    'the symbolic semantics of the Python subset in /verif/pyvc (instr.py, rt.py, sym.py, loops.py); instr.py is what the '
    'extraction does to the source of /repo: it rewrites operators, calls, subscripts, attribute reads, comparisons, '
    'branches, loops and comprehensions of every function in /repo/src/siotls into calls of the runtime, drops nothing else, '
    'and is redone from the current source on every run',
    'CPython 3.12 executes the instrumented code; its integers are the mathematical ones',
    'a loop whose body is symbolic is cut by an invariant inferred from the code and checked to be preserved by one '
    'arbitrary iteration',
    'functions outside of /repo (standard library, cryptography, idna) are replaced by the contracts listed per property',
    'the type annotations and docstrings of /repo are not read; logging has no effect on the properties',
]

PER = {}
BOUNDED = {}

PER['C01'] = [
    'io.BytesIO has the documented semantics of a byte array with a position (modelled in pyvc/rt.py)',
    'widths of integers and length prefixes are those used by the code (1, 2, 3, 4, 8, 16 bytes); the lengths, values and '
    'positions are arbitrary; nesting of limits is proved for zero, one and two enclosing limits (only the innermost is read)',
]
PER['C02'] = [
    'extensions inside of a message are replaced by the contract of Extension.parse and serialize, which is property C03; '
    'certificate entries inside of a Certificate by the contract proved by the task certificate_entry',
    'x509.load_der_x509_certificate and load_der_public_key invert public_bytes',
    'the extensions of one message have pairwise distinct types; strings are printable ASCII where the standard says so',
]
PER['C03'] = [
    'idna.decode inverts idna.encode on host names in canonical form; str.encode and bytes.decode are inverse on ASCII',
    'the DER codecs of cryptography (names, OIDs, OCSP requests and responses) are inverse of each other',
]
PER['C04'] = [
    'inside of a message, an extension consumes a type and the body it announces, and is returned or refused with an '
    'alert: this is what the extension tasks of the same property prove; likewise for certificate entries',
    'cryptography, idna and the str codecs raise only the exceptions they document on malformed input '
    '(ValueError, UnsupportedAlgorithm, UnicodeError, IDNAError)',
    'client_hello is proved in the thorough tier only; the quick tier relies on the bounded executable contract for it',
]
BOUNDED['C04'] = ['ClientHello.parse_body on arbitrary bytes: mutations and truncations of generated hellos, in the quick tier']
PER['C07'] = [
    'the AEAD constructors of cryptography compute what their name says from key, nonce, data and header; the obligations '
    'are about the arguments they are given',
    'exclusive-or of integers is an uninterpreted function with the facts: involution, identity, commutativity and width',
    'the first question about rekeying may come after any number of received records, further ones at any record',
]
PER['C08'] = [
    'SHA-2 and HMAC are uninterpreted functions of their input bytes (equal inputs, equal outputs); trailing zeros of an '
    'HMAC key are no part of it',
    'an AEAD opens what it sealed with the same key, nonce and header, and nothing else that was sealed',
    'hmac.compare_digest is equality of bytes; differing inputs of a hash or HMAC may still collide: a finished value over '
    'another transcript is refused unless its HMAC is the same value',
    'hkdf_expand is proved for output lengths of one byte up to three blocks (the schedule uses 12 to 48)',
]
PER['C18'] = [
    'the key log is written by the methods of siotls.key_logger only; logging formats %s with str()',
    'EXPORTER_SECRET and EARLY_EXPORTER_SECRET may be written too, with their value',
]
BOUNDED['C18'] = ['that the option of the configuration and the random of the client are those handed to the suite: live '
                  'handshakes on both sides with and without a retry']

STATES = ['what a state calls is replaced by its contract: the queueing of a message (C05), the transcript (C09), the key schedule '
          '(C08), the shares (C20), the certificate and OCSP checks (C10, C17)',
          'a connection in a state has the attributes the earlier states of a handshake leave it; the states are those of '
          'siotls.states']
PER['C05'] = [
    'sealing is a function of the number of the record, the plaintext and the header, and adds the length of the tag (C07)',
    'the serialized form of a message is arbitrary bytes (C02, C03)',
]
PER['C09'] = [
    'SHA-2 is an uninterpreted function of its input; copy() of a hash object continues it independently',
    'that every handshake message sent and received, and no other, is given to the transcript is proved by the tasks of C05 '
    '(sending) and C13 (receiving); the retry rewriting by those of C10 and C11',
]
PER['C10'] = STATES + [
    'cryptography: PolicyBuilder builds a verifier of the store and the subject it is given, verify() returns the chain of '
    'trust or raises VerificationError; public_key().verify raises InvalidSignature unless the signature is one; '
    'public_bytes is injective on keys; a revocation list finds by serial number',
    'rsa_pss_pss and rsa_pss_rsae share one key type: the key loses the distinction when it is loaded',
]
PER['C11'] = STATES + ['the sign method of a private key produces a signature of its data by this key',
                       'the chain and the key of a configuration belong together (C16 does not check it)']
PER['C12'] = ['protection of records by C07; parsing of a message by C04: an arbitrary message or an alert',
              'the message given to the user in one call has arbitrary length; sent application data is at most one record here, '
              'longer data is split by C05']
PER['C13'] = ['parsing of a record and of a message ends in an arbitrary message, a buffer error, an alert or any other '
              'exception; deprotection in arbitrary bytes or an alert; processing in a change of state or any exception',
              'the queueing of a message is its contract (C05)']
PER['C14'] = STATES + ['the lists of a hello have at least one entry, as its parser requires (C02)']
PER['C15'] = STATES + [
    'ipaddress.ip_address accepts exactly the literal addresses (an arbitrary name is one, or is not); the encoding of the name '
    'is C03',
    'the constructors of the messages and extensions keep the lists they are given in order (executed), their bytes are C02 and C03',
]

PER['C16'] = [
    'immutable means that no attribute can be assigned or deleted (what dataclasses and freeze promise); the lists a configuration '
    'holds are not copied, and object.__setattr__ is out of scope',
    'that the key, the chain and the public key of a configuration belong together is not checked by the code nor asked by the property',
    'policy builders, keys, stores and certificates are arbitrary objects: only whether they are given matters',
]
PER['C17'] = [
    'cryptography parses requests and responses as documented, raises ValueError on malformed ones and UnsupportedAlgorithm on unknown '
    'hashes; verify() of a public key returns only on a good signature, raises InvalidSignature otherwise, TypeError on other arguments',
    'the key of the issuer is a key that can verify (an X25519 key in an issuer is not modelled)',
    'the clock does not go back; heapq keeps the number of the elements and pops an element (its order is not needed)',
    'urlsplit, Request, urlopen, getheader and read behave as documented: read(n) returns at most n bytes; redirects are followed by '
    'urllib itself, a missing Content-Type is taken for that of OCSP and a missing Content-Length for the maximum (by design of the code)',
]
PER['C20'] = [
    'the key exchanges of cryptography: exchange() of a private key with a public key is symmetric; X25519 and X448 refuse a zero '
    'shared secret; from_encoded_point refuses points off the curve; DH public_key() refuses y outside of 2..p-2',
    'two parties draw distinct keys',
    'a generated finite field value short of more than 16 bytes is not considered (probability 2^-128); a received value that is '
    'valid but starts with many zero bytes may be refused',
]
PER['C06'] = [
    'the contract is on one step, from the start of _read_next_content to its outcome or to the next head of its loop; that any two '
    'deliveries of the same bytes then agree is by induction on the number of the steps (a step that waits for more bytes changes '
    'nothing, a later step reads no local variable of an earlier one: both are obligations)',
    'opening a record is a function of its number, its bytes and its header (C07); what a message does is a function of the message '
    'and the state, and touches neither buffer (C13); the usage limit of the keys is not reached',
    'calls after the connection failed or closed are out of scope: the stream ends there',
]
PER['C19'] = [
    'sendall() of a transport takes all the bytes or raises, send() takes at least one of them or raises, recv(n) returns between one and '
    'n bytes, no byte at its end, or raises; what was queued when the transport itself fails is out of scope',
    'what the connection does with what it is given is its contract: bytes are queued, data is delivered, a state is entered or an '
    'exception is raised (C12, C13); a refused send_data queues nothing (C12), below the usage limit of the keys',
    'the connection is used through its wrapper: nothing is queued between two calls of the wrapper',
]
