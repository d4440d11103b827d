"""Messages: the bytes the RFCs prescribe, and the objects of the real code."""
from oracle import wire as W, pki
from oracle.wire import u, vec, H, E, iana
import siotls.contents as C
import siotls.contents.handshakes as HS
from siotls.contents import alerts
from siotls.configuration import TLSConfiguration, TLSNegotiatedConfiguration

HRR_RANDOM = H('CF21AD74E59A6111BE1D8C021E65B891C2A211167ABB8C5E079E09E2C8A8339C')
HANDSHAKES = {'client_hello': 1, 'server_hello': 2, 'hello_retry_request': 2, 'encrypted_extensions': 8,
              'certificate_request': 13, 'certificate': 11, 'certificate_verify': 15, 'finished': 20}
CARRIER = {'client_hello': W.CH, 'server_hello': W.SH, 'hello_retry_request': W.HRR, 'encrypted_extensions': W.EE,
           'certificate_request': W.CR}
PLAIN = {'alert': 21, 'change_cipher_spec': 20, 'application_data': 23, 'heartbeat': 24}


def gen(o, kind):
    r = o.rng
    f = dict(kind=kind)
    if kind in CARRIER:
        f['exts'] = W.extensions(o, CARRIER[kind])
    if kind == 'client_hello':
        types = [n if isinstance(n, int) else W.EXT[n][0] for n, _ in f['exts']]
        if 41 in types:
            psk = f['exts'].pop(types.index(41))
            if 45 not in types:
                f['exts'].append(['PskKeyExchangeModes', dict(modes=[1])])
            f['exts'].append(psk)
        f |= dict(random=o.bytes(32).hex(), sid=o.bytes(r.choice([0, 1, 8, 32])).hex(),
                  suites=W.codes(o, 'CipherSuites', 2, 1, r.choice([1, 3, 20, 400])))
    elif kind in ('server_hello', 'hello_retry_request'):
        f |= dict(random=o.bytes(32).hex(), sid=o.bytes(r.choice([0, 1, 8, 32])).hex(), suite=W.code(o, 'CipherSuites', 2))
    elif kind == 'certificate_request':
        f['ctx'] = o.bytes(r.choice([0, 1, 32, 255])).hex()
        if not any(n == 'SignatureAlgorithms' for n, _ in f['exts']):
            f['exts'].append(['SignatureAlgorithms', W.gen_ext(o, 'SignatureAlgorithms')])
    elif kind == 'certificate':
        f |= dict(ctx=o.bytes(r.choice([0, 0, 1, 255])).hex(), type=r.choice([0, 2]), side=r.choice(['client', 'server']),
                  entries=[[r.randrange(len(SUBJECTS)), W.extensions(o, W.CE)] for _ in range(r.choice([0, 1, 1, 2, 4]))])
    elif kind == 'certificate_verify':
        f |= dict(alg=W.code(o, 'SignatureScheme', 2), sig=W.blob(o, 0, 65535))
    elif kind == 'finished':
        f |= dict(data=o.bytes(r.choice([32, 48, 0, 1, 64])).hex())
    elif kind == 'alert':
        f |= dict(level=r.choice([1, 2]), desc=r.randrange(256) if r.random() < .3 else W.known(o, 'AlertDescription'))
    elif kind == 'application_data':
        f |= dict(data=W.blob(o, 0, 70000))
    elif kind == 'heartbeat':
        n = r.choice([0, 1, 100, 16381, r.randrange(16382)])
        f |= dict(type=W.known(o, 'HeartbeatMessageType'), payload=o.bytes(n).hex(),
                  padding=o.bytes(r.choice([0, 16, 16381 - n]) if n + 16 <= 16381 else 16381 - n).hex())
    return f


SUBJECTS = [('example.com', 'p256'), ('a.example', 'ed25519'), ('b.example', 'ed448'), ('c.example', 'p521')]


def subject(i): return pki.leaf(*SUBJECTS[i])


def exts(f): return vec(2, b''.join(W.any_wire(n, x) for n, x in f))


def body(f):
    k = f['kind']
    if k == 'client_hello':
        return (u(2, 0x303) + H(f['random']) + vec(1, H(f['sid'])) + vec(2, b''.join(u(2, s) for s in f['suites']))
                + b'\x01\x00' + exts(f['exts']))
    if k in ('server_hello', 'hello_retry_request'):
        return (u(2, 0x303) + (HRR_RANDOM if k == 'hello_retry_request' else H(f['random'])) + vec(1, H(f['sid']))
                + u(2, f['suite']) + b'\0' + exts(f['exts']))
    if k == 'encrypted_extensions':
        return exts(f['exts'])
    if k == 'certificate_request':
        return vec(1, H(f['ctx'])) + exts(f['exts'])
    if k == 'certificate':
        out = b''
        for i, x in f['entries']:
            c, key = subject(i)
            out += vec(3, pki.der(c) if f['type'] == 0 else pki.spki(key.public_key())) + exts(x)
        return vec(1, H(f['ctx'])) + vec(3, out)
    if k == 'certificate_verify':
        return u(2, f['alg']) + vec(2, H(f['sig']))
    if k in ('finished', 'application_data'):
        return H(f['data'])
    if k == 'alert':
        return bytes([f['level'], f['desc']])
    if k == 'change_cipher_spec':
        return b'\1'
    if k == 'heartbeat':
        return u(1, f['type']) + vec(2, H(f['payload'])) + H(f['padding'])


def wire(f):
    b = body(f)
    return u(1, HANDSHAKES[f['kind']]) + vec(3, b) if f['kind'] in HANDSHAKES else b


def content_type(f):
    return PLAIN.get(f['kind'], 22)


def make(f):
    k = f['kind']
    ex = lambda l: [W.any_make(n, x) for n, x in l]
    if k == 'client_hello':
        m = HS.ClientHello(H(f['random']), [E('CipherSuites', s) for s in f['suites']], ex(f['exts']))
        m.legacy_session_id = H(f['sid'])
        return m
    if k == 'server_hello':
        return HS.ServerHello(H(f['random']), H(f['sid']), E('CipherSuites', f['suite']), ex(f['exts']))
    if k == 'hello_retry_request':
        return HS.HelloRetryRequest(HS.HelloRetryRequest.random, H(f['sid']), E('CipherSuites', f['suite']), ex(f['exts']))
    if k == 'encrypted_extensions':
        return HS.EncryptedExtensions(ex(f['exts']))
    if k == 'certificate_request':
        return HS.CertificateRequest(H(f['ctx']), ex(f['exts']))
    if k == 'certificate':
        from siotls.contents.handshakes import certificate as c
        out = []
        for i, x in f['entries']:
            crt, key = subject(i)
            out.append(c.X509(crt, ex(x)) if f['type'] == 0 else c.RawPublicKey(key.public_key(), ex(x)))
        return HS.Certificate(H(f['ctx']), out)
    if k == 'certificate_verify':
        return HS.CertificateVerify(E('SignatureScheme', f['alg']), H(f['sig']))
    if k == 'finished':
        return HS.Finished(H(f['data']))
    if k == 'alert':
        try:
            return alerts.Alert[iana.AlertDescription(f['desc'])](level=iana.AlertLevel(f['level']))
        except ValueError:
            return None
    if k == 'change_cipher_spec':
        return C.ChangeCipherSpec()
    if k == 'application_data':
        return C.ApplicationData(H(f['data']))
    if k == 'heartbeat':
        return C.Heartbeat(iana.HeartbeatMessageType(f['type']), H(f['payload']), H(f['padding']))


def receiver(f=None):
    """configurations of the side that reads the message"""
    f = f or {}
    side = f.get('side', 'client')
    if side == 'client':
        c = TLSConfiguration('client')
    else:
        crt, k = subject(0)
        c = TLSConfiguration('server', private_key=k, certificate_chain=[crt])
    n = TLSNegotiatedConfiguration()
    t = iana.CertificateType(f.get('type', 0))
    # as in a handshake where both ends present the same or different kinds of certificates
    if c.other_side == 'client':
        n.client_certificate_type, n.server_certificate_type = t, iana.CertificateType(2 - t)
    else:
        n.server_certificate_type, n.client_certificate_type = t, iana.CertificateType(2 - t)
    return c, n
