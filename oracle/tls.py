"""An independent TLS 1.3 peer in the small (RFC 8446), to talk with the real code: it sends whatever it is told."""
import hashlib
import hmac
import os
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec, ed448, ed25519, padding, rsa, x25519, x448
from cryptography.hazmat.primitives.ciphers import aead
from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
from cryptography.exceptions import InvalidTag


def u(n, v): return int(v).to_bytes(n, 'big')
def vec(n, b): return u(n, len(b)) + b


# code: (hash, aead, key length, tag length)
SUITES = {
    0x1301: ('sha256', aead.AESGCM, 16, 16),
    0x1302: ('sha384', aead.AESGCM, 32, 16),
    0x1303: ('sha256', aead.ChaCha20Poly1305, 32, 16),
    0x1304: ('sha256', lambda k: aead.AESCCM(k), 16, 16),
    0x1305: ('sha256', lambda k: aead.AESCCM(k, tag_length=8), 16, 8),
}
CURVES = {23: ec.SECP256R1, 24: ec.SECP384R1, 25: ec.SECP521R1}
XS = {29: (x25519.X25519PrivateKey, x25519.X25519PublicKey), 30: (x448.X448PrivateKey, x448.X448PublicKey)}


def rfc7919(n, x):
    """p = 2^n - 2^(n-64) + (floor(2^(n-130) e) + X) 2^64 - 1"""
    # e by its series, with plenty of guard bits
    bits = n + 64
    e, term, k = 0, 1 << bits, 0
    while term:
        e += term
        k += 1
        term //= k
    return 2 ** n - 2 ** (n - 64) + ((e >> (bits - (n - 130))) + x) * 2 ** 64 - 1


FFDHE = {256: (2048, 560316), 257: (3072, 2625351), 258: (4096, 5736041), 259: (6144, 15705020), 260: (8192, 10965728)}
_P = {}


def prime(g):
    if g not in _P:
        _P[g] = rfc7919(*FFDHE[g])
    return _P[g]


class Share:
    """a private value of a group"""
    def __init__(self, group):
        self.group = group
        if group in XS:
            self.k = XS[group][0].generate()
            self.share = self.k.public_key().public_bytes_raw()
        elif group in CURVES:
            self.k = ec.generate_private_key(CURVES[group]())
            self.share = self.k.public_key().public_bytes(Encoding.X962, PublicFormat.UncompressedPoint)
        else:
            n = FFDHE[group][0] // 8
            self.k = int.from_bytes(os.urandom(64), 'big') | 1
            self.share = pow(2, self.k, prime(group)).to_bytes(n, 'big')

    def shared(self, other):
        g = self.group
        if g in XS:
            return self.k.exchange(XS[g][1].from_public_bytes(other))
        if g in CURVES:
            return self.k.exchange(ec.ECDH(), ec.EllipticCurvePublicKey.from_encoded_point(CURVES[g](), other))
        return pow(int.from_bytes(other, 'big'), self.k, prime(g)).to_bytes(FFDHE[g][0] // 8, 'big')


def expand_label(h, secret, label, context, n):
    info = u(2, n) + vec(1, b'tls13 ' + label) + vec(1, context)
    out, t, i = b'', b'', 1
    while len(out) < n:
        t = hmac.new(secret, t + info + bytes([i]), h).digest()
        out += t
        i += 1
    return out[:n]


def derive(h, secret, label, thash):
    return expand_label(h, secret, label, thash, hashlib.new(h).digest_size)


def extract(h, salt, ikm): return hmac.new(salt, ikm, h).digest()


class Schedule:
    def __init__(self, suite):
        self.h = h = SUITES[suite][0]
        self.suite = suite
        self.n = hashlib.new(h).digest_size
        self.empty = hashlib.new(h).digest()
        self.early = extract(h, bytes(self.n), bytes(self.n))

    def handshake(self, shared, th):
        h = self.h
        self.hs = extract(h, derive(h, self.early, b'derived', self.empty), shared)
        self.c_hs, self.s_hs = derive(h, self.hs, b'c hs traffic', th), derive(h, self.hs, b's hs traffic', th)
        self.master = extract(h, derive(h, self.hs, b'derived', self.empty), bytes(self.n))

    def application(self, th):
        h, m = self.h, self.master
        self.c_ap, self.s_ap = derive(h, m, b'c ap traffic', th), derive(h, m, b's ap traffic', th)
        self.exporter = derive(h, m, b'exp master', th)

    def key_iv(self, secret):
        return expand_label(self.h, secret, b'key', b'', SUITES[self.suite][2]), \
            expand_label(self.h, secret, b'iv', b'', 12)

    def finished(self, secret, th):
        return hmac.new(expand_label(self.h, secret, b'finished', b'', self.n), th, self.h).digest()


class Protect:
    def __init__(self, suite, key, iv):
        self.a, self.iv, self.seq, self.tag = SUITES[suite][1](key), iv, 0, SUITES[suite][3]

    def nonce(self):
        n = bytes(a ^ b for a, b in zip(self.iv, u(12, self.seq)))
        self.seq += 1
        return n


# ---------------------------------------------------------------- signatures
def sign(key, alg, msg):
    pss = lambda h: padding.PSS(padding.MGF1(h), padding.PSS.DIGEST_LENGTH)  # noqa: E731
    H = {4: hashes.SHA256(), 5: hashes.SHA384(), 6: hashes.SHA512()}
    if alg in (0x0403, 0x0503, 0x0603):
        return key.sign(msg, ec.ECDSA(H[alg >> 8]))
    if alg in (0x0804, 0x0805, 0x0806):
        return key.sign(msg, pss(H[alg & 15]), H[alg & 15])
    if alg in (0x0809, 0x080a, 0x080b):
        h = H[(alg & 15) - 5]
        return key.sign(msg, pss(h), h)
    if alg in (0x0401, 0x0501, 0x0601):
        return key.sign(msg, padding.PKCS1v15(), H[alg >> 8])
    return key.sign(msg)


def verify(pub, alg, sig, msg):
    pss = lambda h: padding.PSS(padding.MGF1(h), padding.PSS.DIGEST_LENGTH)  # noqa: E731
    H = {4: hashes.SHA256(), 5: hashes.SHA384(), 6: hashes.SHA512()}
    try:
        if alg in (0x0403, 0x0503, 0x0603):
            assert isinstance(pub, ec.EllipticCurvePublicKey)
            pub.verify(sig, msg, ec.ECDSA(H[alg >> 8]))
        elif alg in (0x0804, 0x0805, 0x0806):
            pub.verify(sig, msg, pss(H[alg & 15]), H[alg & 15])
        elif alg in (0x0809, 0x080a, 0x080b):
            h = H[(alg & 15) - 5]
            pub.verify(sig, msg, pss(h), h)
        elif alg in (0x0401, 0x0501, 0x0601):
            pub.verify(sig, msg, padding.PKCS1v15(), H[alg >> 8])
        elif alg == 0x0807:
            assert isinstance(pub, ed25519.Ed25519PublicKey)
            pub.verify(sig, msg)
        elif alg == 0x0808:
            assert isinstance(pub, ed448.Ed448PublicKey)
            pub.verify(sig, msg)
        else:
            return False
        return True
    except Exception:  # noqa: BLE001
        return False


def alg_for(key):
    if isinstance(key, ec.EllipticCurvePrivateKey):
        return {256: 0x0403, 384: 0x0503, 521: 0x0603}[key.curve.key_size]
    if isinstance(key, rsa.RSAPrivateKey):
        return 0x0804
    return 0x0807 if isinstance(key, ed25519.Ed25519PrivateKey) else 0x0808


def cv_input(th, side=b'server'):
    return b' ' * 64 + b'TLS 1.3, ' + side + b' CertificateVerify\0' + th


# ---------------------------------------------------------------- messages
CH, SH, EE, CT, CR, CV, FIN = 1, 2, 8, 11, 13, 15, 20
HRR_RANDOM = bytes.fromhex('CF21AD74E59A6111BE1D8C021E65B891C2A211167ABB8C5E079E09E2C8A8339C')


def hs(t, body): return u(1, t) + vec(3, body)
def ext(t, body): return u(2, t) + vec(2, body)


class Reader:
    def __init__(self, b): self.b, self.i = bytes(b), 0

    def take(self, n):
        if self.i + n > len(self.b):
            raise ValueError('short')
        r = self.b[self.i:self.i + n]
        self.i += n
        return r

    def num(self, n): return int.from_bytes(self.take(n), 'big')
    def vec(self, n): return self.take(self.num(n))
    def more(self): return self.i < len(self.b)


def exts(b):
    r, out = Reader(b), []
    while r.more():
        out.append((r.num(2), r.vec(2)))
    return out


def parse_ch(m):
    r = Reader(m[4:])
    assert r.num(2) == 0x0303
    d = dict(random=r.take(32), session=r.vec(1))
    s = r.vec(2)
    d['suites'] = [int.from_bytes(s[i:i + 2], 'big') for i in range(0, len(s), 2)]
    d['compression'] = r.vec(1)
    d['ext'] = exts(r.vec(2))
    assert not r.more()
    d['e'] = dict(d['ext'])
    return d


def parse_sh(m):
    r = Reader(m[4:])
    assert r.num(2) == 0x0303
    d = dict(random=r.take(32), session=r.vec(1), suite=r.num(2), compression=r.num(1), ext=exts(r.vec(2)))
    assert not r.more()
    d['e'] = dict(d['ext'])
    return d


def nums(b, n=2): return [int.from_bytes(b[i:i + n], 'big') for i in range(0, len(b), n)]


def client_shares(b):
    r, out = Reader(Reader(b).vec(2)), {}
    while r.more():
        g = r.num(2)
        out[g] = r.vec(2)
    return out


class Peer:
    """what both sides need; `tr` is the list of the messages hashed"""
    def __init__(self):
        self.tr = []
        self.suite = None
        self.out = self.inn = None       # protections
        self.buf = b''
        self.hsbuf = b''
        self.records = []                # (outer type, version, inner type, plaintext, length on the wire)
        self.got = []                    # (type, payload) messages received, handshakes reassembled
        self.hfrag = 16384
        self.bad = None

    # -- records
    def record(self, t, payload, pad=0, version=0x0303, plain=False):
        if self.out is None or plain:
            return u(1, t) + u(2, version) + vec(2, payload)
        data = payload + u(1, t) + bytes(pad)
        head = b'\x17\x03\x03' + u(2, len(data) + self.out.tag)
        return head + self.out.a.encrypt(self.out.nonce(), data, head)

    def send(self, t, payload, frag=16384, pad=0):
        if not payload:
            return self.record(t, b'', pad)
        return b''.join(self.record(t, payload[i:i + frag], pad) for i in range(0, len(payload), frag))

    def feed(self, data):
        """records queued by the real code"""
        self.buf += bytes(data)
        while len(self.buf) >= 5:
            t, v, n = self.buf[0], int.from_bytes(self.buf[1:3], 'big'), int.from_bytes(self.buf[3:5], 'big')
            if len(self.buf) < 5 + n:
                break
            head, body, self.buf = self.buf[:5], self.buf[5:5 + n], self.buf[5 + n:]
            if t == 20 and body == b'\1':
                self.records.append((t, v, t, body, n))
                self.got.append((20, body))
                continue
            it = t
            if self.inn is not None:
                if t != 23:
                    self.bad = self.bad or f'record of type {t} under protection'
                try:
                    body = self.inn.a.decrypt(self.inn.nonce(), body, head)
                except (InvalidTag, ValueError):
                    self.bad = self.bad or 'record that does not decrypt'
                    self.records.append((t, v, None, body, n))
                    self.got.append((None, body))
                    continue
                body = body.rstrip(b'\0')
                it, body = (body[-1], body[:-1]) if body else (None, b'')
            self.records.append((t, v, it, body, n))
            if it == 22:
                self.hsbuf += body
                while len(self.hsbuf) >= 4 and len(self.hsbuf) >= 4 + int.from_bytes(self.hsbuf[1:4], 'big'):
                    n = 4 + int.from_bytes(self.hsbuf[1:4], 'big')
                    m, self.hsbuf = self.hsbuf[:n], self.hsbuf[n:]
                    self.got.append((22, m))
                    self.message(m)
            else:
                self.got.append((it, body))

    def message(self, m):
        self.tr.append(m)

    # -- transcript
    def th(self, upto=None):
        tr = self.tr if upto is None else self.tr[:upto]
        return hashlib.new(self.sch.h, b''.join(tr)).digest()

    def alerts(self):
        return [tuple(p) for t, p in self.got if t == 21]

    def keys(self, w, r):
        self.out = Protect(self.suite, *self.sch.key_iv(w)) if w else self.out
        self.inn = Protect(self.suite, *self.sch.key_iv(r)) if r else self.inn


class Client(Peer):
    """talks with a server of the real code"""
    def __init__(self, groups=(29,), shares=None, suites=(0x1303, 0x1302, 0x1301), algs=None, extra=(), random=None,
                 session=b'', drop=(), versions=(0x0304,)):
        Peer.__init__(self)
        self.groups, self.suites = list(groups), list(suites)
        self.shares = {g: Share(g) for g in (self.groups[:1] if shares is None else shares)}
        self.algs = list(algs if algs is not None else
                         [0x0807, 0x0808, 0x0403, 0x0503, 0x0603, 0x0809, 0x080a, 0x080b, 0x0804, 0x0805, 0x0806])
        self.extra, self.random, self.session = list(extra), random or os.urandom(32), session
        self.drop, self.versions = set(drop), list(versions)
        self.done = False

    def hello(self, **over):
        shares = over.pop('shares', None) or {g: s.share for g, s in self.shares.items()}
        random = over.pop('random', self.random)
        suites = over.pop('suites', self.suites)
        algs = over.pop('algs', self.algs)
        groups = over.pop('groups', self.groups)
        ks = b''.join(u(2, g) + vec(2, s) for g, s in shares.items())
        es = [(43, vec(1, b''.join(u(2, v) for v in self.versions))), (13, vec(2, b''.join(u(2, a) for a in algs))),
              (10, vec(2, b''.join(u(2, g) for g in groups))), *self.extra, (51, vec(2, ks))]
        body = b'\3\3' + random + vec(1, self.session) + vec(2, b''.join(u(2, s) for s in suites)) + b'\1\0' \
            + vec(2, b''.join(ext(t, b) for t, b in es if t not in self.drop))
        m = hs(CH, body)
        self.tr.append(m)
        return self.send(22, m)

    def message(self, m):
        if m[0] == SH:
            d = self.sh = parse_sh(m)
            self.suite = d['suite']
            self.sch = Schedule(self.suite)
            if d['random'] == HRR_RANDOM:
                self.hrr = d
                self.tr = [hs(254, hashlib.new(self.sch.h, self.tr[0]).digest()), m]
                return
            self.tr.append(m)
            r = Reader(d['e'][51])
            self.group, share = r.num(2), r.vec(2)
            self.sch.handshake(self.shares[self.group].shared(share), self.th())
            self.keys(self.sch.c_hs, self.sch.s_hs)
            return
        if m[0] == EE:
            self.ee = dict(exts(Reader(m[4:]).vec(2)))
        elif m[0] == CR:
            self.cr = m
        elif m[0] == CT:
            r = Reader(m[4:])
            self.ctx = r.vec(1)
            r2, self.certs = Reader(r.vec(3)), []
            while r2.more():
                self.certs.append((r2.vec(3), dict(exts(r2.vec(2)))))
            self.th_cert = None
        elif m[0] == CV:
            self.th_cert = self.th()
            r = Reader(m[4:])
            self.cv = (r.num(2), r.vec(2))
        elif m[0] == FIN:
            self.fin_ok = m[4:] == self.sch.finished(self.sch.s_hs, self.th())
            self.tr.append(m)
            self.done = True
            self.th_fin = self.th()
            self.sch.application(self.th_fin)
            # from now on the server sends under the keys it installs on our finished
            return
        self.tr.append(m)

    def finished(self, value=None):
        v = self.sch.finished(self.sch.c_hs, self.th_fin) if value is None else value
        m = hs(FIN, v)
        r = self.send(22, m)
        self.tr.append(m)
        return r

    def application(self):
        self.keys(self.sch.c_ap, self.sch.s_ap)


class Server(Peer):
    """talks with a client of the real code"""
    def __init__(self, suite=None, group=None, cert=None, key=None):
        Peer.__init__(self)
        self.want_suite, self.want_group, self.cert, self.key = suite, group, cert, key
        self.random = os.urandom(32)

    def message(self, m):
        if m[0] == CH:
            self.ch = parse_ch(m)
            self.tr.append(m)
            return
        if m[0] == FIN:
            self.th_before = self.th()
            self.fin_ok = m[4:] == self.sch.finished(self.sch.c_hs, self.th_before)
            self.keys(self.sch.s_ap, self.sch.c_ap)
        self.tr.append(m)

    def choose(self, suite=None, group=None):
        self.suite = suite or self.want_suite or self.ch['suites'][0]
        self.sch = Schedule(self.suite)
        self.group = group or self.want_group or next(iter(client_shares(self.ch['e'][51])))

    def say(self, m, **k):
        self.tr.append(m)
        return self.send(22, m, **k)

    def retry(self, suite=None, group=None, es=None, cookie=None):
        self.choose(suite, group)
        if es is None:
            es = [(43, u(2, 0x0304)), (51, u(2, self.group))]
            if cookie:
                es.append((44, vec(2, cookie)))
        m = hs(SH, b'\3\3' + HRR_RANDOM + vec(1, self.ch['session']) + u(2, self.suite) + b'\0'
               + vec(2, b''.join(ext(*e) for e in es)))
        self.tr = [hs(254, hashlib.new(self.sch.h, self.tr[0]).digest())]
        return self.say(m)

    def hello(self, suite=None, group=None, es=None, share=None, frag=16384):
        self.choose(suite, group)
        s = Share(self.group) if self.group in XS or self.group in CURVES or self.group in FFDHE else None
        if es is None:
            es = [(43, u(2, 0x0304)), (51, u(2, self.group) + vec(2, share if share is not None else s.share))]
        m = hs(SH, b'\3\3' + self.random + vec(1, self.ch['session']) + u(2, self.suite) + b'\0'
               + vec(2, b''.join(ext(*e) for e in es)))
        r = self.say(m, frag=frag)
        cs = client_shares(self.ch['e'][51])
        if s and self.group in cs:
            self.sch.handshake(s.shared(cs[self.group]), self.th())
            self.keys(self.sch.s_hs, self.sch.c_hs)
        return r

    def encrypted(self, es=(), **k):
        return self.say(hs(EE, vec(2, b''.join(ext(*e) for e in es))), **k)

    def request(self):
        return self.say(hs(CR, b'\0' + vec(2, ext(13, vec(2, u(2, 0x0807))))))

    def certificate(self, entries, **k):
        body = b'\0' + vec(3, b''.join(vec(3, c) + vec(2, b''.join(ext(*e) for e in es)) for c, es in entries))
        return self.say(hs(CT, body), **k)

    def certificate_verify(self, alg=None, key=None, data=None, sig=None, **k):
        key = key or self.key
        alg = alg_for(key) if alg is None else alg
        if sig is None:
            sig = sign(key, alg if data is None or True else alg, cv_input(self.th()) if data is None else data)
        return self.say(hs(CV, u(2, alg) + vec(2, sig)), **k)

    def finished(self, value=None, **k):
        v = self.sch.finished(self.sch.s_hs, self.th()) if value is None else value
        r = self.say(hs(FIN, v), **k)
        self.sch.application(self.th())
        return r


# ---------------------------------------------------------------- the real code
def siotls():
    import importlib
    return importlib.import_module('siotls.configuration'), importlib.import_module('siotls.connection'), \
        importlib.import_module('siotls.iana')


def receive(conn, data):
    """exception raised by receive_data"""
    try:
        conn.receive_data(data)
    except Exception as e:  # noqa: BLE001
        return e


def state(conn): return type(conn._state).__name__
