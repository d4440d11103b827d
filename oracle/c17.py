"""C17: real OCSP responses, good and not; histories of the cache; answers of a real HTTP server (on the loopback)."""
import datetime
import functools
import http.server
import importlib
import os
import threading
from cryptography import x509
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import padding
from cryptography.x509 import ocsp as X
from oracle.run import case, Fail
from oracle import tls, live, pki

for _v in ('http_proxy', 'HTTP_PROXY', 'all_proxy', 'ALL_PROXY'):
    os.environ.pop(_v, None)
conf, conn, iana = tls.siotls()
V = importlib.import_module('siotls.crypto.ocsp')
M = importlib.import_module('siotls.ocsp_over_http')
LIMIT = getattr(M, 'OCSP_MAX_RESPONSE_SIZE', 20480)
ENTRIES = getattr(M, 'CACHE_ENTRIES', 64)


def need(x, what):
    if not x:
        raise Fail(what)


def now():
    return datetime.datetime.now(datetime.timezone.utc).replace(tzinfo=None)


# -- validation --------------------------------------------------------------------------------------

ISSUER = ('test ca', 'p256')
BAD = ['none', 'revoked', 'unknown', 'unsuccessful', 'future', 'expired', 'no expiry', 'serial', 'issuer name', 'issuer key', 'hash', 'signer',
       'signature', 'signed part', 'garbage', 'truncated', 'empty', 'pss']


def validations(o):
    for kind in ('p256', 'p384', 'rsa', 'ed25519', 'ed448'):
        for bad in BAD:
            yield dict(kind=kind, bad=bad, hours=1, seconds=4, bit=100)
    while True:
        r = o.rng
        yield dict(kind=r.choice(['p256', 'p384', 'p521', 'rsa', 'ed25519', 'ed448']), bad=r.choice(BAD), hours=r.randrange(1, 200),
                   seconds=r.choice([3, 60, 3600, 10 ** 6]), bit=r.randrange(4000))


def tlv(t, b):
    n = len(b)
    k = (n.bit_length() + 7) // 8
    return bytes([t]) + (bytes([n]) if n < 128 else bytes([128 + k]) + n.to_bytes(k, 'big')) + b


PSS = padding.PSS(padding.MGF1(hashes.SHA256()), 32)


@functools.cache
def pss_issuer():
    cc, ck = pki.ca('x', 'rsa')
    return (x509.CertificateBuilder().subject_name(cc.subject).issuer_name(cc.subject).public_key(ck.public_key()).serial_number(5)
            .not_valid_before(cc.not_valid_before_utc).not_valid_after(cc.not_valid_after_utc).sign(ck, hashes.SHA256(), rsa_padding=PSS))


def by_pss(cert):
    """a response signed with RSASSA-PSS, and its issuer"""
    c, (cc, ck) = pss_issuer(), pki.ca('x', 'rsa')
    tbs = X.load_der_ocsp_response(pki.status(cert, cc, ck)).tbs_response_bytes
    d = pki.der(c)
    i = d.index(bytes.fromhex('06092a864886f70d01010a'))
    alg = next(d[j:j + 2 + d[j + 1]] for j in range(i - 4, i) if d[j] == 0x30 and d[j + 1] < 128)
    return c, whole(tbs, alg, ck.sign(tbs, PSS, hashes.SHA256()))


@case(validations)
def validated(kind, bad, hours, seconds, bit):
    """accepted only if everything about it is right"""
    who = ('ocsp ' + kind, kind)
    cc, ck = pki.ca(*who)
    cert = pki.leaf('a.example', 'p256', who)[0]
    other, ok = pki.leaf('b.example', 'p256', who, 1)[0], pki.key(kind, 8)
    req = V.make_ocsp_request(cert, cc)
    k = dict(this=-hours, next_=hours)
    s = seconds / 3600
    if bad == 'revoked':
        k['good'] = False
    elif bad == 'unknown':
        k['unknown'] = True
    elif bad == 'unsuccessful':
        k['successful'] = False
    elif bad == 'future':
        k['this'] = s
        k['next_'] = s + hours
    elif bad == 'expired':
        k['next_'] = -s
        k['this'] = -s - hours
    elif bad == 'no expiry':
        k['next_'] = None
    elif bad == 'serial':
        cert = other
    elif bad == 'hash':
        k['algorithm'] = hashes.SHA256
    by = cc
    if bad == 'pss':
        by, res = by_pss(cert)
    else:
        res = pki.status(cert, cc, ck, **k)
    r = X.load_der_ocsp_response(res)
    if bad == 'signer':
        res = again(res, ok)
    elif bad in ('issuer name', 'issuer key'):
        h = r.issuer_name_hash if bad == 'issuer name' else r.issuer_key_hash
        res = again(res, ck, h, h[:bit % 20] + bytes([h[bit % 20] ^ 1 << bit % 8]) + h[bit % 20 + 1:])
    elif bad == 'none' and bit % 2:
        res = again(res, ck)
    if bad in ('signature', 'signed part'):
        r = X.load_der_ocsp_response(res)
        what = r.signature if bad == 'signature' else r.tbs_response_bytes
        i = res.index(what) + bit % len(what)
        res = res[:i] + bytes([res[i] ^ (1 << bit % 8)]) + res[i + 1:]
    elif bad == 'garbage':
        res = bytes(bit % 200) + res[bit % 200:]
        if not bit % 200:
            res = b'\1' + res[1:]
    elif bad == 'truncated':
        res = res[:bit % len(res)]
    elif bad == 'empty':
        res = b''
    try:
        got = V.validate_ocsp(by, req, res)
    except ValueError:
        need(bad != 'none', 'a good response is refused')
        return
    except Exception as e:
        raise Fail(f'a response ({bad}) is refused with {e!r}') from e
    if bad == 'none':
        n = X.load_der_ocsp_response(res)
        need(got.replace(tzinfo=None) == n.next_update_utc.replace(tzinfo=None), f'the expiry is {got}')
        return
    if bad == 'pss':
        need(got is not None, 'no expiry')
        return
    raise Fail(f'a response is accepted: {bad}')


def raw(key, data):
    """a signature with the algorithm of test certificates"""
    from cryptography.hazmat.primitives.asymmetric import ec, rsa
    if isinstance(key, rsa.RSAPrivateKey):
        return key.sign(data, padding.PKCS1v15(), hashes.SHA256())
    if isinstance(key, ec.EllipticCurvePrivateKey):
        return key.sign(data, ec.ECDSA(hashes.SHA256()))
    return key.sign(data)


def again(res, key, old=b'', new=b''):
    """the response with other contents, signed"""
    tbs = X.load_der_ocsp_response(res).tbs_response_bytes
    i = res.index(tbs) + len(tbs)
    alg = res[i:i + 2 + res[i + 1]]
    assert old in tbs and len(old) == len(new)
    tbs = tbs.replace(old, new)
    return whole(tbs, alg, raw(key, tbs))


def whole(tbs, alg, sig):
    basic = tlv(0x30, tbs + alg + tlv(3, b'\0' + sig))
    return tlv(0x30, tlv(10, b'\0') + tlv(0xa0, tlv(0x30, bytes.fromhex('06092b0601050507300101') + tlv(4, basic))))


# -- the cache ---------------------------------------------------------------------------------------

def histories(o):
    r = o.rng
    for n in (ENTRIES - 1, ENTRIES, ENTRIES + 1, 3 * ENTRIES):
        for order in (1, -1):
            yield dict(steps=[['cache', i, 10 + order * i / 100, i] for i in range(n)] + [['request', i, 0, 0] for i in range(n)])
    while True:
        n = r.choice([3, 10, 70, 200])
        ops = r.choice([['cache'], ['cache', 'request'], ['cache', 'uncache', 'request'], ['cache'] * 4 + ['uncache', 'request']])
        yield dict(steps=[[r.choice(ops), r.randrange(n), r.choice([-5, -.001, 1, 1, 2, 3, r.random() * 50]), r.randrange(1000)]
                          for _ in range(r.choice([5, 80, 400]))])


@case(histories)
def cached(steps):
    """the cache after any history"""
    M._cache.clear()
    M._cache_limits.clear()
    given = {}
    try:
        for what, i, hours, v in steps:
            req = b'request %d' % i
            if what == 'cache':
                until = now() + datetime.timedelta(hours=hours)
                M.cache(until, req, b'response %d %d' % (i, v))
                given.setdefault(i, {})[b'response %d %d' % (i, v)] = max(until, given.get(i, {}).get(b'response %d %d' % (i, v), until))
            elif what == 'uncache':
                M.uncache(req)
                given.pop(i, None)
                need(asked(req) is None, 'an entry that was forgotten is answered')
            else:
                t = now()
                got = asked(req)
                if got is not None:
                    need(got in given.get(i, {}), 'the answer is not the response cached for the request')
                    need(given[i][got] >= t, 'an expired response is answered')
            need(len(M._cache) <= ENTRIES and len(M._cache_limits) <= ENTRIES, f'{len(M._cache)} entries are cached')
        need(sum(asked(b'request %d' % i) is not None for i in given) <= ENTRIES, 'too many entries are answered')
    finally:
        M._cache.clear()
        M._cache_limits.clear()


def asked(req):
    """what is answered without a network"""
    try:
        return M.request('nothing://x/', req)
    except ValueError:
        return None


# -- over http ---------------------------------------------------------------------------------------

class Handler(http.server.BaseHTTPRequestHandler):
    def do_POST(self):  # noqa: N802
        s = self.server
        s.seen.append((self.headers.get('Content-Type'), self.rfile.read(int(self.headers.get('Content-Length', 0)))))
        self.send_response(200)
        for k, v in s.headers:
            self.send_header(k, v)
        self.end_headers()
        try:
            self.wfile.write(s.body)
        except OSError:
            pass

    do_GET = do_POST

    def log_message(self, *a):
        pass


@functools.cache
def http_server():
    s = http.server.HTTPServer(('127.0.0.1', 0), Handler)
    s.seen = []
    threading.Thread(target=s.serve_forever, kwargs=dict(poll_interval=.01), daemon=True).start()
    return s


TYPE = 'application/ocsp-response'


def answers(o):
    r = o.rng
    types = [TYPE, None, 'text/html', 'application/ocsp-request', TYPE + 'x', '', 'application/octet-stream']
    sizes = [0, 1, 500, LIMIT - 1, LIMIT, LIMIT + 1, 5 * LIMIT]
    for t in types:
        yield dict(scheme='http', host=1, type=t, length='right', size=500, req=40)
    for n in sizes:
        for l in ('right', 'none', 'more', 'less'):
            yield dict(scheme='http', host=1, type=TYPE, length=l, size=n, req=40)
    for l in ('negative', 'text'):
        yield dict(scheme='http', host=1, type=TYPE, length=l, size=500, req=40)
    for s in ('https', 'ftp', 'file', 'data', '', 'HTTP', 'http:', ' http', 'httpx'):
        for h in (1, 0):
            yield dict(scheme=s, host=h, type=TYPE, length='right', size=500, req=40)
    yield dict(scheme='http', host=0, type=TYPE, length='right', size=500, req=40)
    while True:
        yield dict(scheme=r.choice(['http'] * 9 + ['https', 'ftp', 'file']), host=r.randrange(9), type=r.choice([TYPE] * 9 + types),
                   length=r.choice(['right', 'right', 'none', 'more', 'less', 'negative']), size=r.choice([*sizes, r.randrange(3 * LIMIT)]),
                   req=r.randrange(1, 400))


@case(answers)
def fetched(scheme, host, type, length, size, req):
    """what an HTTP server answers"""
    s = http_server()
    s.seen.clear()
    s.body = bytes(i % 251 for i in range(size))
    s.headers = [] if type is None else [('Content-Type', type)]
    announced = {'right': size, 'none': None, 'more': size + 1, 'less': size // 2, 'negative': -1, 'text': 'many'}[length]
    if announced is not None:
        s.headers.append(('Content-Length', str(announced)))
    q = bytes(i % 256 for i in range(req))
    url = f'{scheme}://{"127.0.0.1:%d" % s.server_port if host else ""}/ocsp'
    if scheme == 'file':
        url = f'file://{"" if host else "localhost"}{os.path.abspath(__file__)}'
    elif scheme == 'data':
        url = 'data:application/ocsp-response,hello'
    plain = scheme.strip().lower() == 'http' and host
    try:
        got = M.request(url, q)
    except Exception as e:
        need(not (plain and scheme == 'http' and type == TYPE and length == 'right' and size <= LIMIT and size), f'a good answer is refused: {e!r}')
        return
    finally:
        M._cache.clear()
        M._cache_limits.clear()
    need(plain and s.seen, f'{url} is asked')
    need(s.seen[0] == ('application/ocsp-request', q) and len(s.seen) == 1, f'{s.seen[0]} is what is sent')
    need(type is None or type == TYPE, f'an answer of type {type} is accepted')
    need(not isinstance(announced, int) or 0 <= announced <= LIMIT, f'an answer of {announced} bytes is accepted')
    need(len(got) <= LIMIT, f'{len(got)} bytes are read')
    need(s.body.startswith(got), 'the answer is not what the server has sent')
    need(not (length == 'right' and got != s.body), 'the answer is cut')


# -- the handshakes ----------------------------------------------------------------------------------

class Service:
    def __init__(self, response):
        self.response, self.log = response, []

    def request(self, url, req):
        return self.response

    def cache(self, until, req, res):
        self.log.append((until, req, res))

    def uncache(self, req):
        self.log = [x for x in self.log if x[1] != req]


@functools.cache
def leaf_with_url():
    c, k = pki.leaf('example.com')
    cc, ck = pki.ca()
    b = x509.CertificateBuilder().subject_name(c.subject).issuer_name(c.issuer).public_key(k.public_key()).serial_number(777)
    b = b.not_valid_before(c.not_valid_before_utc).not_valid_after(c.not_valid_after_utc)
    for e in c.extensions:
        b = b.add_extension(e.value, e.critical)
    return b.add_extension(x509.AuthorityInformationAccess([x509.AccessDescription(
        x509.oid.AuthorityInformationAccessOID.OCSP, x509.UniformResourceIdentifier('http://ocsp.example/'))]), False).sign(ck, pki.digest(ck)), k


def caches(o):
    while True:
        for side in ('client', 'server'):
            for how in ('good', 'revoked', 'expired', 'future', 'other', 'signer', 'garbage'):
                yield dict(side=side, how=how, suite=o.rng.choice(live.SUITES))


@case(caches)
def handshakes(side, how, suite):
    """only what is valid is cached by a handshake"""
    cert, key = leaf_with_url()
    cc, ck = pki.ca()
    k = {'revoked': dict(good=False), 'expired': dict(this=-5, next_=-1), 'future': dict(this=1, next_=5)}.get(how, {})
    who = pki.leaf('other.example')[0] if how == 'other' else cert
    res = pki.status(who, cc, ck, **k)
    if how == 'signer':
        res = again(res, pki.key('p256', 8))
    if how == 'garbage':
        res = b'\0\1\2'
    s = Service(res)
    if side == 'client':
        n = live.client('example.com', s)
        p = tls.Server(suite=suite, key=key)
        p.chain = [(pki.der(cert), []), (pki.der(cc), [])]
        n.initiate_connection()
        p.feed(n.data_to_send())
        for step in (p.hello, p.encrypted, lambda: p.certificate(p.chain)):
            e = tls.receive(n, step())
        need((e is None) == (how == 'good'), f'a certificate whose status is {how}: {e!r}')
    else:
        n = conn.TLSConnection(conf.TLSConfiguration('server', private_key=key, certificate_chain=[cert, cc]), ocsp_service=s)
        p = tls.Client(suites=live.SUITES, groups=[29], shares=[29], extra=[(5, b'\1\0\0\0\0')])
        n.initiate_connection()
        e = tls.receive(n, p.hello())
        need(e is None, f'a hello is refused: {e!r}')
    if how == 'good':
        need(len(s.log) == 1, 'a valid response is not cached')
        until, req, r = s.log[0]
        need(req == V.make_ocsp_request(cert, cc) and r == res, 'another response is cached')
        need(until.replace(tzinfo=None) == X.load_der_ocsp_response(res).next_update_utc.replace(tzinfo=None), f'it is cached until {until}')
    else:
        need(not s.log, f'a response that is not valid ({how}) is cached')
