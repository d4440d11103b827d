"""The TLS presentation language, written from the RFCs, on concrete values.

An extension or a message is described by JSON: a dict of fields (bytes as hex). `ext_body` and `msg_body` give the
bytes the RFC prescribes, `ext_make` and `msg_make` the object of the real code."""
import importlib

X = importlib.import_module('siotls.contents.handshakes.extensions')
iana = importlib.import_module('siotls.iana')


def H(h): return bytes.fromhex(h)
def u(n, v): return int(v).to_bytes(n, 'big')
def vec(n, b): return u(n, len(b)) + b


def cls(name):
    for m in (X, importlib.import_module(X.__name__ + '.early_data')):
        if hasattr(m, name):
            return getattr(m, name)


def E(name, v):
    """the member of the enumeration, or the number itself"""
    try:
        return getattr(iana, name)(v)
    except ValueError:
        return v


CH, SH, EE, CR, CE, HRR, NST = ('CLIENT_HELLO', 'SERVER_HELLO', 'ENCRYPTED_EXTENSIONS', 'CERTIFICATE_REQUEST',
                                'CERTIFICATE', 'HELLO_RETRY_REQUEST', 'NEW_SESSION_TICKET')


def ht(name):
    return iana.HandshakeType_[name] if name == HRR else iana.HandshakeType[name]


def known(o, enum):
    return int(o.rng.choice(list(getattr(iana, enum))))


def code(o, enum, width):
    r = o.rng.random()
    if r < .7:
        return known(o, enum)
    return o.rng.choice([0, 1, 256 ** width - 1, o.rng.randrange(256 ** width)])


def codes(o, enum, width, lo=0, hi=None):
    hi = hi or o.rng.choice([1, 2, 3, 5, 12, 60])
    n = o.rng.randint(lo, max(lo, hi))
    return [code(o, enum, width) for _ in range(n)]


def blob(o, lo=0, hi=70000):
    n = o.rng.choice([x for x in o.small(hi) if x >= lo] or [lo]) if o.rng.random() < .25 else o.rng.randint(lo, min(hi, lo + 40))
    return o.bytes(n).hex() if o.rng.random() < .8 else '00' * n


def blobs(o, lo, hi, n=None):
    return [blob(o, lo, hi) if o.rng.random() < .2 else blob(o, lo, min(hi, lo + 30))
            for _ in range(o.rng.choice([0, 1, 2, 3, 7]) if n is None else n)]


def name(o):
    a = 'abcdefghijklmnopqrstuvwxyz0123456789'
    labels = [''.join(o.rng.choice(a) for _ in range(o.rng.choice([1, 2, 5, 20, 60]))) for _ in range(o.rng.randint(1, 4))]
    return '.'.join(labels)


def proto(o):
    if o.rng.random() < .4:
        return str(o.rng.choice([p.value for p in iana.ALPNProtocol if all(32 <= ord(c) <= 126 for c in p.value)]))
    return ''.join(chr(o.rng.randint(32, 126)) for _ in range(o.rng.choice([1, 2, 8, 30, 255])))


def enumlist(enum, width, pre, attr):
    return (lambda o: {attr: codes(o, enum, width)},
            lambda f: [[E(enum, v) for v in f[attr]]],
            lambda f: vec(pre, b''.join(u(width, v) for v in f[attr])))


def nothing(*_): return {}


EMPTY = (nothing, lambda f: [], lambda f: b'')


def distinct(o, l):
    return list(dict.fromkeys(l))


def psk_make(f):
    return [[X.PskIdentity(H(i), a) for i, a in f['identities']], [H(b) for b in f['binders']]]


def gen_psk(o):
    n = o.rng.choice([0, 1, 2, 5])
    return dict(identities=[[blob(o, 1, 300), o.rng.choice([0, 1, 2 ** 32 - 1, o.rng.randrange(2 ** 32)])] for _ in range(n)],
                binders=blobs(o, 32, 255, n))


# name -> (type, carriers, generator of fields, constructor arguments, body)
EXT = {
    'ServerNameListRequest': (0, (CH,), lambda o: dict(name=name(o)),
                              lambda f: [[X.HostName(f['name'])]],
                              lambda f: vec(2, u(1, 0) + vec(2, f['name'].encode()))),
    'ServerNameResponse': (0, (EE,), *EMPTY),
    'MaxFragmentLength': (1, (CH, EE), lambda o: dict(code=o.rng.randint(1, 4)),
                          lambda f: [iana.MaxFragmentLengthCode(f['code'])], lambda f: u(1, f['code'])),
    'OCSPStatusRequest': (5, (CH, CR), lambda o: dict(ids=blobs(o, 1, 60000), exts=blob(o, 0, 60000)),
                          lambda f: [[H(i) for i in f['ids']], H(f['exts'])],
                          lambda f: u(1, 1) + vec(2, b''.join(vec(2, H(i)) for i in f['ids'])) + vec(2, H(f['exts']))),
    'OCSPStatus': (5, (CE,), lambda o: dict(r=blob(o, 1, 65000)), lambda f: [H(f['r'])], lambda f: u(1, 1) + vec(3, H(f['r']))),
    'SupportedGroups': (10, (CH, EE), *enumlist('NamedGroup', 2, 2, 'groups')),
    'SignatureAlgorithms': (13, (CH, CR), *enumlist('SignatureScheme', 2, 2, 'schemes')),
    'UseSRTP': (14, (CH, EE), lambda o: dict(p=[[o.rng.randrange(256), o.rng.randrange(256)] for _ in range(o.rng.randint(0, 5))], mki=blob(o, 0, 255)),
                lambda f: [[tuple(x) for x in f['p']], H(f['mki'])],
                lambda f: vec(2, b''.join(bytes(x) for x in f['p'])) + vec(1, H(f['mki']))),
    'Heartbeat': (15, (CH, EE), lambda o: dict(m=known(o, 'HeartbeatMode')), lambda f: [iana.HeartbeatMode(f['m'])], lambda f: u(1, f['m'])),
    'ALPN': (16, (CH, EE), lambda o: dict(p=[proto(o) for _ in range(o.rng.choice([1, 1, 2, 5]))]),
             lambda f: [[iana.ALPNProtocol(p) if p in {x.value for x in iana.ALPNProtocol} else p for p in f['p']]],
             lambda f: vec(2, b''.join(vec(1, p.encode()) for p in f['p']))),
    'SignedCertificateTimestamp': (18, (CH, CE, CR), *EMPTY),
    'ClientCertificateTypeRequest': (19, (CH,), lambda o: dict(t=codes(o, 'CertificateType', 1, 1)),
                                     lambda f: [[E('CertificateType', v) for v in f['t']]], lambda f: vec(1, bytes(f['t']))),
    'ClientCertificateTypeResponse': (19, (EE,), lambda o: dict(t=known(o, 'CertificateType')),
                                      lambda f: [iana.CertificateType(f['t'])], lambda f: u(1, f['t'])),
    'ServerCertificateTypeRequest': (20, (CH,), lambda o: dict(t=codes(o, 'CertificateType', 1, 1)),
                                     lambda f: [[E('CertificateType', v) for v in f['t']]], lambda f: vec(1, bytes(f['t']))),
    'ServerCertificateTypeResponse': (20, (EE,), lambda o: dict(t=known(o, 'CertificateType')),
                                      lambda f: [iana.CertificateType(f['t'])], lambda f: u(1, f['t'])),
    'Padding': (21, (CH,), lambda o: dict(n=o.rng.choice(o.small(65535))), lambda f: [f['n']], lambda f: bytes(f['n'])),
    'PreSharedKeyRequest': (41, (CH,), gen_psk, psk_make,
                            lambda f: vec(2, b''.join(vec(2, H(i)) + u(4, a) for i, a in f['identities']))
                            + vec(2, b''.join(vec(1, H(b)) for b in f['binders']))),
    'PreSharedKeyResponse': (41, (SH,), lambda o: dict(i=o.rng.choice(o.small(65535))), lambda f: [f['i']], lambda f: u(2, f['i'])),
    'EarlyData': (42, (CH, EE), *EMPTY),
    'NewSessionEarlyData': (42, (NST,), lambda o: dict(n=o.rng.choice([0, 1, 2 ** 32 - 1, 2 ** 31, 16384, 65535, 65536])), lambda f: [f['n']], lambda f: u(4, f['n'])),
    'SupportedVersionsRequest': (43, (CH,), *enumlist('TLSVersion', 2, 1, 'versions')),
    'SupportedVersionsResponse': (43, (SH, HRR), lambda o: dict(v=0x304), lambda f: [iana.TLSVersion(f['v'])], lambda f: u(2, f['v'])),
    'Cookie': (44, (CH, HRR), lambda o: dict(c=blob(o, 1, 65000)), lambda f: [H(f['c'])], lambda f: vec(2, H(f['c']))),
    'PskKeyExchangeModes': (45, (CH,), *enumlist('PskKeyExchangeMode', 1, 1, 'modes')),
    'CertificateAuthorities': (47, (CH, CR), lambda o: dict(a=blobs(o, 1, 30000)), lambda f: [[H(a) for a in f['a']]],
                               lambda f: vec(2, b''.join(vec(2, H(a)) for a in f['a']))),
    'OIDFilters': (48, (CR,), lambda o: dict(f=[[blob(o, 1, 255), blob(o, 0, 3000)] for _ in range(o.rng.choice([0, 1, 2, 5]))]),
                   lambda f: [[X.OIDFilter(H(a), H(b)) for a, b in f['f']]],
                   lambda f: vec(2, b''.join(vec(1, H(a)) + vec(2, H(b)) for a, b in f['f']))),
    'PostHandshakeAuth': (49, (CH,), *EMPTY),
    'SignatureAlgorithmsCert': (50, (CH, CR), *enumlist('SignatureScheme', 2, 2, 'schemes')),
    'KeyShareRequest': (51, (CH,), lambda o: dict(s=[[g, blob(o, 1, 3000)] for g in distinct(o, codes(o, 'NamedGroup', 2, 0, 6))]),
                        lambda f: [{E('NamedGroup', g): H(b) for g, b in f['s']}],
                        lambda f: vec(2, b''.join(u(2, g) + vec(2, H(b)) for g, b in f['s']))),
    'KeyShareResponse': (51, (SH,), lambda o: dict(g=known(o, 'NamedGroup'), k=blob(o, 1, 60000)),
                         lambda f: [iana.NamedGroup(f['g']), H(f['k'])], lambda f: u(2, f['g']) + vec(2, H(f['k']))),
    'KeyShareRetry': (51, (HRR,), lambda o: dict(g=known(o, 'NamedGroup')), lambda f: [iana.NamedGroup(f['g'])], lambda f: u(2, f['g'])),
}
LIMITS = {'ClientCertificateTypeRequest': 255, 'ServerCertificateTypeRequest': 255, 'PskKeyExchangeModes': 255,
          'SupportedVersionsRequest': 254}


def ext_make(n, f): return cls(n)(*EXT[n][3](f))
def ext_body(n, f): return EXT[n][4](f)
def ext_wire(n, f): return u(2, EXT[n][0]) + vec(2, ext_body(n, f))


def too_long(n, f):
    """some length does not fit in its field"""
    try:
        b = ext_body(n, f)
    except (OverflowError, ValueError):
        return True
    return len(b) > 65535


def gen_ext(o, n):
    return EXT[n][2](o)


def extensions(o, carrier, k=None):
    """a list of extensions of distinct types that the message may carry"""
    by = {}
    for n, e in EXT.items():
        if carrier in e[1]:
            by.setdefault(e[0], []).append(n)
    types = list(by)
    o.rng.shuffle(types)
    out = []
    for t in types[:o.rng.choice([0, 1, 2, 4, 9]) if k is None else k]:
        n = o.rng.choice(by[t])
        f = gen_ext(o, n)
        if not too_long(n, f) and len(ext_wire(n, f)) < 4000:
            out.append([n, f])
    if o.rng.random() < .3:
        t = o.rng.choice([0xabcd, 0x0a0a, 65535, 17, 3])
        out.append([t, dict(data=blob(o, 0, 300))])
    o.rng.shuffle(out)
    return out


def any_make(n, f):
    if isinstance(n, int):
        return X.Extension.parse(importlib.import_module('siotls.serial').SerialIO(any_wire(n, f)), handshake_type=ht(CH))
    return ext_make(n, f)


def any_wire(n, f):
    return u(2, n) + vec(2, H(f['data'])) if isinstance(n, int) else ext_wire(n, f)


def fields(x):
    """structure of a value, for comparison"""
    if isinstance(x, dict):
        return {k: fields(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [fields(v) for v in x]
    if type(x).__module__.startswith('siotls') and hasattr(x, '__dict__') and not isinstance(x, (int, str)):
        return (type(x).__name__, {k: fields(v) for k, v in vars(x).items()})
    return x
