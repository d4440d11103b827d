"""C17: only a valid, fresh and matching OCSP response is trusted or cached."""
import heapq
from datetime import datetime, UTC
from urllib.parse import urlsplit
from urllib.request import Request, urlopen
from cryptography.exceptions import InvalidSignature, UnsupportedAlgorithm
from cryptography.hazmat._oid import SignatureAlgorithmOID as OIDS
from cryptography.x509 import ocsp as X
from contracts.states import *
from contracts import states as S
from pyvc.core import ctx

TASKS = []


# -- time --------------------------------------------------------------------------------------------

class Time:
    """a date"""
    __vc_ok__ = True
    __vc_copy__ = True
    tzinfo = None

    def __init__(self, t):
        self.t = t

    def _cmp(self, o, f):
        if not isinstance(o, Time):
            return NotImplemented
        return sym.mkbool(f(nz(self.t), nz(o.t)))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b) if isinstance(o, Time) else False
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b) if isinstance(o, Time) else True
    __hash__ = None

    def replace(self, **k):
        if set(k) - {'tzinfo'}:
            raise Unsupported('replace of a date')
        return self


def clock():
    """the clock does not go back"""
    def now(*a, **k):
        l = ghost().setdefault('times', [])
        t = sint(f'time {len(l)}')
        if l:
            assume(T(t) >= T(l[-1]))
        l.append(t)
        return Time(T(t))
    rt.MODELS[datetime.utcnow] = rt.MODELS[datetime.now] = now
    return now


def span():
    """when it was while the function ran"""
    l = ghost()['times']
    return T(l[0]), T(l[-1])


# -- validation --------------------------------------------------------------------------------------

KNOWN = {'rsa sha256': OIDS.RSA_WITH_SHA256, 'rsa sha384': OIDS.RSA_WITH_SHA384, 'rsa sha512': OIDS.RSA_WITH_SHA512,
         'pss': OIDS.RSASSA_PSS, 'ecdsa sha256': OIDS.ECDSA_WITH_SHA256, 'ecdsa sha384': OIDS.ECDSA_WITH_SHA384,
         'ecdsa sha512': OIDS.ECDSA_WITH_SHA512, 'ed25519': OIDS.ED25519, 'ed448': OIDS.ED448,
         'rsa sha1': OIDS.RSA_WITH_SHA1, 'dsa': OIDS.DSA_WITH_SHA256}


class Response:
    """a response: what it does not have raises, as in cryptography"""
    __vc_ok__ = True

    def __init__(self, oid, other):
        self._oid, self._other = oid, other
        self.response_status = choose([X.OCSPResponseStatus.SUCCESSFUL, X.OCSPResponseStatus.TRY_LATER,
                                       X.OCSPResponseStatus.UNAUTHORIZED])

    def _only(self, v):
        if self.response_status != X.OCSPResponseStatus.SUCCESSFUL:
            raise ValueError('OCSP response status is not successful so the property has no value')
        return v

    def _pick(self, name, options):
        d = ghost().setdefault('picked', {})
        if name not in d:
            d[name] = choose(options)
        return d[name]

    @property
    def certificate_status(self):
        return self._only(self._pick('status', [X.OCSPCertStatus.GOOD, X.OCSPCertStatus.REVOKED, X.OCSPCertStatus.UNKNOWN]))

    issuer_name_hash = property(lambda s: s._only(bvar('issuer name of the response')))
    issuer_key_hash = property(lambda s: s._only(bvar('issuer key of the response')))
    serial_number = property(lambda s: s._only(sint('serial of the response')))
    this_update = this_update_utc = property(lambda s: s._only(Time(T(sint('this update')))))
    signature = property(lambda s: s._only(bvar('signature of the response')))
    tbs_response_bytes = property(lambda s: s._only(bvar('signed part of the response')))
    signature_algorithm_oid = property(lambda s: s._only(s._oid))

    @property
    def next_update(self):
        return self._only(self._pick('next', [Time(T(sint('next update'))), None]))
    next_update_utc = next_update

    @property
    def signature_hash_algorithm(self):
        self._only(0)
        if self._pick('hash of the response', ['known', 'unknown']) == 'unknown':
            raise UnsupportedAlgorithm('not recognized')
        return Opaque('hash', 'hash of the response')


class Issuer:
    __vc_ok__ = True

    def __init__(self, oid, key):
        self.signature_algorithm_oid, self._key = oid, key

    def public_key(self):
        return self._key

    @property
    def signature_hash_algorithm(self):
        if Response._pick(self, 'hash of the issuer', ['known', 'unknown']) == 'unknown':
            raise UnsupportedAlgorithm('not recognized')
        return Opaque('hash', 'hash of the issuer')


def verifies(name):
    """the public key of the issuer: it verifies a signature by it, with the parameters it is given"""
    def verify(signature, data, *a):
        r = choose(['ok', 'bad', 'type'])
        event('verify', name, signature, data, a, r)
        if r == 'bad':
            raise InvalidSignature
        if r == 'type':
            raise TypeError('verify() of another kind of key')
    return Opaque('pubkey', name, verify=verify)


def parameters(a, name):
    """those of the algorithm the object identifier stands for"""
    from cryptography.hazmat.primitives.asymmetric import ec, padding
    kind, _, h = name.partition(' ')
    if kind in ('ed25519', 'ed448'):
        return len(a) == 0
    if kind == 'rsa':
        return len(a) == 2 and isinstance(a[0], padding.PKCS1v15) and a[1].name == h
    if kind == 'ecdsa':
        return len(a) == 1 and isinstance(a[0], ec.ECDSA) and a[0].algorithm.name == h
    if kind == 'pss':
        return len(a) == 2 and isinstance(a[0], padding.PSS)
    return False


def validation(name):
    def f():
        from siotls.crypto import ocsp
        clock()()
        oid = KNOWN[name]
        other = choose([oid, KNOWN['ed25519' if name != 'ed25519' else 'ed448']])
        res, issuer = Response(other, None), Issuer(oid, verifies('key of the issuer'))
        req = Opaque('request', 'request', issuer_name_hash=bvar('issuer name of the request'),
                     issuer_key_hash=bvar('issuer key of the request'), serial_number=sint('serial of the request'))
        b, q = bvar('response'), bvar('request')

        def load_response(x):
            prove('it is the response that is read', beq(x, b))
            if not choose([1, 0]):
                raise ValueError('error parsing asn1 value')
            return res

        def load_request(x):
            prove('it is the request that is read', beq(x, q))
            return req
        rt.MODELS[X.load_der_ocsp_response], rt.MODELS[X.load_der_ocsp_request] = load_response, load_request
        got, e = attempt(ocsp.validate_ocsp, issuer, q, b)
        clock()()
        if e is not None:
            prove('a response is refused with a value error', isinstance(e, ValueError), exc_name(e))
            cover('refused')
            return
        cover('accepted')
        start, end = span()
        prove('only a successful response is accepted', res.response_status == X.OCSPResponseStatus.SUCCESSFUL)
        if res.response_status != X.OCSPResponseStatus.SUCCESSFUL:
            return
        prove('only a good certificate is accepted', res.certificate_status == X.OCSPCertStatus.GOOD)
        prove('the issuer is named as in the request', beq(res.issuer_name_hash, req.issuer_name_hash))
        prove('the key of the issuer is named as in the request', beq(res.issuer_key_hash, req.issuer_key_hash))
        prove('the certificate is the one of the request', T(res.serial_number) == T(req.serial_number))
        prove('a response from the future is refused', T(res.this_update.t) <= end)
        n = res.next_update
        prove('a response without an expiry is refused', n is not None)
        if n is not None:
            prove('an expired response is refused', T(n.t) >= start)
            prove('what is returned is the expiry of the response', isinstance(got, Time) and T(got.t) == T(n.t))
        prove('the algorithm is the one of the issuer', res.signature_algorithm_oid == issuer.signature_algorithm_oid)
        v = of('verify')
        prove('the signature is verified', any(x[5] == 'ok' for x in v))
        good = [x for x in v if x[5] == 'ok']
        if good:
            prove('by the key of the issuer, over the response, with the parameters of the algorithm', Or(*[And(
                x[1] == 'key of the issuer', beq(x[2], res.signature), beq(x[3], res.tbs_response_bytes), parameters(x[4], name)) for x in good]))
    return f


for _n in KNOWN:
    TASKS.append(Task(f'validation, {_n}', validation(_n), cost=3))


# -- the cache ---------------------------------------------------------------------------------------

def which(k):
    """the number of a request: equal bytes, equal numbers (the cases are split)"""
    known = ghost().setdefault('requests', [])
    for i, r in enumerate(known):
        if r is k or branch(beq(r, k)):
            return i
    known.append(k)
    return len(known) - 1


class Cache:
    """any set of cached responses; each is the response cached for its request, until its expiry"""
    __vc_ok__ = True

    def __init__(self):
        self.ups = []

    def find(self, k):
        """(response, until) or None"""
        i = which(k)
        for j, v in reversed(self.ups):
            if j == i:
                return v
        if not before(i):
            return None
        return bvar(f'response cached for {i}'), Time(T(sint(f'expiry of {i}')))

    def __contains__(self, k):
        return self.find(k) is not None

    def __getitem__(self, k):
        v = self.find(k)
        if v is None:
            raise KeyError(k)
        return v

    def get(self, k, d=None):
        v = self.find(k)
        return d if v is None else v

    def __setitem__(self, k, v):
        self.ups.append((which(k), v))

    def __delitem__(self, k):
        self.pop(k)

    def pop(self, k, *d):
        v = self.find(k)
        if v is None:
            if d:
                return d[0]
            raise KeyError(k)
        self.ups.append((which(k), None))
        return v

    def setdefault(self, k, v):
        x = self.find(k)
        if x is None:
            self[k] = v
        return v if x is None else x

    def __len__(self):
        raise Unsupported('size of the cache')


def before(i):
    """was it cached before"""
    return bool(sym.atom('cached before', str(i)))


class Limits:
    """the heap of expiries: its length, and how often one arbitrary request is in it"""
    __vc_ok__ = True

    def __init__(self, key):
        self.key = key
        self.n, self.count = T(sint('length of the heap', 0)), T(sint('count of the request', 0))
        assume(self.count <= self.n)

    def __len__(self):
        return sym.mkint(self.n)

    def __bool__(self):
        return branch(self.n > 0)

    def pop(self):
        if not branch(self.n >= 1):
            raise IndexError('index out of range')
        i = len(of('popped'))
        k = bvar(f'request popped {i}')
        event('popped', k)
        if which(k) == 0:
            assume(self.count >= 1)
            self.count = self.count - 1
        else:
            assume(self.count < self.n)
        self.n = self.n - 1
        return (Time(T(sint(f'expiry popped {i}'))), k)

    def push(self, item):
        t, k = item
        if which(k) == 0:
            self.count = self.count + 1
        self.n = self.n + 1
        event('pushed', t, k)


def world():
    """the module with any contents of its cache that the invariant allows: what is cached is in the heap,
    the heap has at most the fixed number of entries; for one arbitrary request"""
    from siotls import ocsp_over_http as m
    if not type(getattr(m, '_cache', None)) in (dict, Cache, rt.VDict if hasattr(rt, 'VDict') else dict) or not hasattr(m, '_cache_limits'):
        raise Unsupported('the cache is another')
    heap()
    clock()
    k0 = bvar('any request')
    assert which(k0) == 0
    m._cache, m._cache_limits = Cache(), Limits(k0)
    n = int(m.CACHE_ENTRIES)
    assume(m._cache_limits.n <= n)
    if before(0):
        assume(m._cache_limits.count >= 1)
    return m, k0, n


def heap():
    rt.MODELS[heapq.heappop] = lambda h: h.pop()
    rt.MODELS[heapq.heappush] = lambda h, x: h.push(x)


def invariant(m, k0, n):
    h = m._cache_limits
    prove('the heap never has more than the fixed number of entries', And(h.n >= 0, h.n <= n))
    v = m._cache.find(k0)
    if v is not None:
        prove('what is cached is in the heap', h.count >= 1)
    return v


def caching():
    """cache(): the invariant is kept, for an arbitrary request"""
    m, k0, n = world()
    old = m._cache.find(k0)
    until, req, res = Time(T(sint('until'))), bvar('ocsp request'), bvar('ocsp response')
    mine = which(req) == 0
    _, e = attempt(m.cache, until, req, res)
    prove('caching does not fail', e is None, exc_name(e))
    v = invariant(m, k0, n)
    if v is None:
        cover('not cached')
        return
    r, t = v
    if old is not None and branch(And(beq(r, old[0]), T(t.t) == T(old[1].t))):
        cover('cached before')
        return
    prove('what is cached is the response of the request', mine)
    prove('what is cached is the response given, until the expiry given', And(beq(r, res), T(t.t) == T(until.t)))
    cover('cached')


def uncaching():
    m, k0, n = world()
    old = m._cache.find(k0)
    req = bvar('ocsp request')
    mine = which(req) == 0
    _, e = attempt(m.uncache, req)
    prove('forgetting does not fail', e is None, exc_name(e))
    v = invariant(m, k0, n)
    if mine:
        prove('what is forgotten is no more cached', v is None)
        cover('forgotten')
    else:
        prove('forgetting adds nothing', v is None or old is not None and And(beq(v[0], old[0]), T(v[1].t) == T(old[1].t)))


class Http:
    """the answer of an HTTP server"""
    __vc_ok__ = True

    def __init__(self):
        self.status = 200

    def getheader(self, name, default=None):
        event('header', name)
        k = name.lower()
        d = ghost().setdefault('headers', {})
        if k not in d:
            d[k] = choose([None, SymStr_(f'header {k}')])
        return default if d[k] is None else d[k]

    def read(self, n=-1):
        event('read', n)
        b = bvar(f'body {len(of("read"))}')
        if n is not None:
            assume(Implies(T(n) >= 0, T(blen(b)) <= T(n)))
        return b

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def SymStr_(label):
    from pyvc.sym import SymStr
    return SymStr(label)


def requesting():
    m, k0, n = world()
    scheme, netloc = SymStr_('scheme'), SymStr_('authority')
    url, req = SymStr_('url'), bvar('ocsp request')
    rt.MODELS[urlsplit] = lambda u, *a, **k: Opaque('url', 'split', scheme=scheme, netloc=netloc) if u is url else fail('another url is split')

    def new(u, data=None, headers=None, **k):
        return Opaque('http request', 'request', url=u, data=data, more=k)
    rt.MODELS[Request] = new

    def opened(r, *a, **k):
        event('open', r)
        if choose([0, 1]):
            raise OSError('no route')
        return Http()
    rt.MODELS[urlopen] = opened
    old = m._cache.find(req)
    other = m._cache.find(k0)
    clock()()
    got, e = attempt(m.request, url, req)
    clock()()
    start, end = span()
    opens, reads = of('open'), of('read')
    if opens:
        prove('a response is asked for once', len(opens) == 1)
        r = opens[0][1]
        prove('it is asked at the url given', getattr(r, 'url', r) is url)
        data = r.attrs.get('data') if isinstance(r, Opaque) else None
        prove('the request is what is sent', data is not None and beq(data, req))
        prove('only plain http is used', cond(scheme == 'http'))
        prove('the authority is not empty', cond(sym.atom('strnonempty', netloc)))
    limit = int(getattr(m, 'OCSP_MAX_RESPONSE_SIZE', 20480))
    total = z3.IntVal(0)
    for x in reads:
        prove('a number of bytes is read', x[1] is not None and And(T(x[1]) >= 0))
        if x[1] is not None:
            total = total + T(x[1])
    if reads:
        prove('at most the fixed number of bytes is read', total <= limit)
    if e is None:
        if not opens:
            prove('without a request the answer is the one cached', old is not None and beq(got, old[0]))
            if old is not None:
                prove('an expired response is not given', T(old[1].t) >= start)
            cover('cached')
        else:
            h = ghost().get('headers', {}).get('content-type')
            prove('the media type is looked at', any(x[1].lower() == 'content-type' for x in of('header')))
            prove('another media type is refused', h is None or cond(h == 'application/ocsp-response'))
            length = ghost().get('headers', {}).get('content-length')
            if length is not None:
                length = rt.call(int, length)
                prove('a length beyond the fixed number is refused', And(T(length) >= 0, T(length) <= limit))
            prove('the answer is what is read', len(reads) == 1 and beq(got, bvar('body 1')))
            cover('fetched')
    else:
        prove('nothing is read once refused', not reads)
        cover('refused')
    v = invariant(m, k0, n)
    prove('a request adds nothing to the cache', v is None or other is not None and And(
        beq(v[0], other[0]), T(v[1].t) == T(other[1].t)))


# -- the handshakes ----------------------------------------------------------------------------------

def client_caches(name):
    """a certificate message of any length: what the client caches"""
    def f():
        from contracts import c10
        from siotls import iana
        c = c10.client(('store',), name)
        enter(c, 'ClientWaitCertificate', must_authentify=choose([0, 1]))
        c.nconfig.server_certificate_type = iana.CertificateType.X509

        def cached(until, req, res):
            prove('only a validated response is cached, for its request', cond(
                sym.atom('valid', c10.cert(req.idx[1]), req, res)))
            prove('it is cached until its own expiry', c10._eq(until, Opaque('date', 'expiry', req.idx)))
            cover('cached')
        ghost()['on cache'] = cached
        l, types = c10.entries()
        e = c10.message(c, 11, certificate_list=l)
        cover('refused' if e is not None else 'accepted')
    return f


TASKS += [Task(f'what a client caches, host {n}', client_caches(n), cost=3) for n in ('none', 'name', 'address')]


def server_caches():
    from contracts import serverflow as F
    c = F.server({'status'}, ocsp=True)
    h = F.hello({'status'})
    F.receive(c, h)
    v = of('valid')
    for _, until, req, res in of('cache'):
        prove('only a validated response is cached, for its request', len(v) == 1 and v[0][2] == req and v[0][3] is res)
        prove('it is validated with the key of the issuer', len(v) == 1 and v[0][1] is c.config.certificate_chain[1])
        prove('it is cached until its own expiry', isinstance(until, Opaque) and until.kind == 'date')
        cover('cached')
    if not of('cache'):
        cover('not cached')


TASKS += [Task('what a server caches', server_caches, cost=3)]


# -- an empty cache to begin with ----------------------------------------------------------------------

def initially():
    from siotls import ocsp_over_http as m
    prove('the cache is empty at first', len(m._cache) == 0 and len(m._cache_limits) == 0)


TASKS += [Task('at first', initially)]
TASKS += [Task('cache', caching, cost=3), Task('uncache', uncaching), Task('request', requesting, cost=5)]
