"""property -> (level, technique, note)"""
VC = ('contract-based deductive verification: obligations generated from the current Python source by symbolic '
      'execution with inferred, checked loop invariants, discharged by z3; refutations replayed on the real code')
T = ' Trusted: the symbolic semantics of Python in pyvc, z3, and the contracts of the libraries listed in the evidence.'
CLAIMS = {
    'C01': ('proof', VC, 'every primitive of SerialIO is executed from its current source on an arbitrary stream, position, '
            'limit and argument; loops are cut by invariants.' + T),
    'C02': ('proof', VC, 'serialize then parse of every message class on arbitrary fields, against the bytes of the standard; '
            'extensions and certificate entries by their contracts.' + T),
    'C03': ('proof', VC, 'serialize then parse of each of the 31 extension classes and of unknown extensions on arbitrary '
            'fields, against the bytes of the standard.' + T),
    'C04': ('proof', VC, 'every parser is executed on an arbitrary byte string; only alerts and buffer errors leave it, within '
            'the announced bounds, and its loops make progress. The client hello is bounded in the quick tier.' + T),
    'C07': ('proof', VC, 'any number of records is sent and received under the keys of every stage, suite and side, in loops '
            'cut by invariants: each uses the nonce of its number, none is protected past the limit.' + T),
    'C08': ('proof', VC, 'every secret, key, IV and finished value of every suite against an independent statement of the '
            'schedule, hashes and HMAC uninterpreted; what one side sends the other opens.' + T),
    'C18': ('proof', VC, 'the lines of every key installation of every suite and side, with logging on and off, for arbitrary '
            'secrets; the plumbing of the option is bounded (live handshakes).' + T),
    'C05': ('proof', VC, '_send_content and _send_record on an arbitrary message, kind, size limit and queue: the chunking loop is '
            'cut by an invariant over the queue, each record sealed as the standard says; the aligned padding is exact.' + T),
    'C09': ('proof', VC, 'any message of any sender after any prefix of the message order, before and after a retry, for every '
            'set of hashes: digests against an independent statement of the order; refusals change nothing.' + T),
    'C10': ('proof', VC, 'every state a client passes, on any message, for every kind of key, certificate material, stapled '
            'response and trust configuration; verification, chain and revocation by the contracts of cryptography.' + T),
    'C11': ('proof', VC, 'every state a server passes, on any message and hello, for every kind of key, suite, group and '
            'optional answer; what is signed, by whom and when is read off the calls.' + T),
    'C12': ('proof', VC, 'every public method of TLSConnection in every state and combination of its flags, on any data and any '
            'received message; the queues before and after are compared.' + T),
    'C13': ('proof', VC, 'receive_data on arbitrary bytes in every state and combination of its flags, with every way its parts '
            'may raise; every method of a failed connection.' + T),
    'C14': ('proof', VC, 'the answer of a server to any hello, lists of any length on both sides, against the first entry of '
            'the own order that the hello has; refusals against the alert of the standard.' + T),
    'C15': ('proof', VC, 'the hello of a client of any configuration, and its reaction to any server hello, hello retry request '
            'and encrypted extensions, first or after a retry; lists of any length.' + T),
    'C06': ('proof', VC, '_read_next_content on any two states of the buffers that hold the same bytes or the same fragments, one step '
            'at a time, in any state, protected or not; a schedule of deliveries is any sequence of these steps.' + T),
    'C16': ('proof', VC, 'the constructor on every combination of fields given and left out, on both sides, with lists of any length; '
            'every field and attribute, assigned and deleted, before and after freezing.' + T),
    'C17': ('proof', VC, 'validation of any response to any request at any time; the cache by an invariant every operation keeps, for an '
            'arbitrary entry; any answer of an http server; what client and server cache.' + T),
    'C19': ('proof', VC, 'every method of the wrapper on a connection in any state and any transport; its loops by an invariant on all that '
            'was queued, sent, received, given, delivered and returned, proved first and after any iteration.' + T),
    'C20': ('proof', VC, 'the ten groups: any share of any length against the public values of the group, any two keys for the agreement, '
            'what client and server do with a refused share; the primes are computed from RFC 7919.' + T),
}
NOT = {}
