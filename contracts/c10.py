"""C10: a client only becomes connected to an authenticated server."""
import ipaddress
import itertools
from cryptography import x509
from contracts.states import *
from contracts import states as S
from pyvc import rt

TASKS = []
CONTEXT = b' ' * 64 + b'TLS 1.3, server CertificateVerify' + b'\0'


def task(name, **o):
    def deco(f):
        TASKS.append(Task(name, f, **o))
        return f
    return deco


# ------------------------------------------------- contracts of the libraries
class VPolicyBuilder:
    """x509.verification: verify() returns, or raises VerificationError"""
    __vc_ok__ = True

    def __init__(self, store=None, depth=None):
        self._store, self._depth = store, depth

    def store(self, s):
        if s is None:
            raise TypeError('a store is needed')
        return VPolicyBuilder(s, self._depth)

    def max_chain_depth(self, d):
        return VPolicyBuilder(self._store, d)

    def build_client_verifier(self):
        return VVerifier(self._store, None)

    def build_server_verifier(self, subject):
        return VVerifier(self._store, subject)


class VVerifier:
    __vc_ok__ = True

    def __init__(self, store, subject):
        self.store, self.subject = store, subject

    def verify(self, leaf, intermediates):
        from cryptography.x509.verification import VerificationError
        ok = choose([1, 0])
        event('verify_chain', self.store, self.subject, leaf, intermediates, ok)
        if not ok:
            raise VerificationError('not verified')
        return Opaque('chain', 'verified')


rt.MODELS[x509.verification.PolicyBuilder] = VPolicyBuilder
rt.MODELS[x509.DNSName] = lambda n: ('dns', n)
rt.MODELS[x509.IPAddress] = lambda n: ('ip', n)


def entries():
    """any list of entries, of any length"""
    from siotls.iana import CertificateType
    f = z3.Function('type of entry', z3.IntSort(), z3.IntSort())

    def entry(k):
        i = nz(k)
        ctx().assume(z3.Or(f(i) == 0, f(i) == 2))
        x = Opaque('extensions', 'of entry', (i,), get=lambda t, d=None: status(i) if int(t) == 5 else d)
        return Opaque('entry', 'entry', (i,), certificate_type=SymEnum(CertificateType, f(i)), certificate=cert(i),
                      public_key=models.pubkey('raw', (i,)), extensions=x)
    return slist('entries', None, entry), f


def cert(i):
    serial = Opaque('serial', 'serial', (i,))
    return Opaque('cert', 'cert', (i,), public_key=lambda: models.pubkey('key of cert', (i,)), serial_number=serial)


def status(i):
    from siotls.iana import CertificateStatusType
    if bool(sym.atom('stapled', i)):
        return Opaque('status', 'status', (i,), status_type=CertificateStatusType.OCSP,
                      ocsp_response=Opaque('response', 'stapled', (i,)))
    return None


def revocation():
    return Opaque('crl', 'crl', get_revoked_certificate_by_serial_number=lambda s:
                  Opaque('revoked', 'revoked', s.idx) if bool(sym.atom('revoked', *s.idx)) else None)


def ocsp_contracts():
    """siotls.crypto.ocsp, which is C17"""
    from siotls.crypto import ocsp

    def validate(issuer, req, res):
        if not bool(sym.atom('valid', issuer, req, res)):
            raise ValueError('not valid')
        return Opaque('date', 'expiry', req.idx)
    rt.MODELS[ocsp.validate_ocsp] = validate
    rt.MODELS[ocsp.make_ocsp_request] = lambda c, i: Opaque('request', 'request', (*c.idx, *i.idx))
    rt.MODELS[ocsp.get_ocsp_url] = lambda c: 'http://ocsp.example/' if bool(sym.atom('has url', *c.idx)) else None


def service():
    return Opaque('service', 'service', request=lambda url, req: Opaque('response', 'fetched', req.idx),
                  cache=lambda *a: ghost().get('on cache', lambda *a: None)(*a), uncache=lambda *a: None)


def host(kind):
    """the name asked for"""
    if kind == 'none':
        return None
    if kind == 'name':
        return 'server.example'
    return '192.0.2.1'


def message(c, kind, **kw):
    """the next message of the server: it joins the transcript, then is processed"""
    from siotls import iana
    t = iana.HandshakeType(kind)
    c._transcript.done.append(('message', 'server', kind))
    return process(c, Content_(content_type=iana.ContentType.HANDSHAKE, msg_type=t, **kw))


def client(trust, kind, **over):
    """a client configured to trust a store, or raw keys, or both, or nobody"""
    S.contracts()
    ocsp_contracts()
    d = {}
    if 'store' in trust:
        d['trust_store'] = Opaque('store', 'trust store')
        d['revocation_list'] = revocation() if choose([0, 1]) else None
    if 'keys' in trust:
        d['trusted_public_keys'] = slist('trusted', None, lambda k: models.pubkey('trusted', (nz(k),)))
        assume(T(d['trusted_public_keys'].n) >= 1)
    c = connection('client', config('client', **d, **over), [('message', 'client', 1), ('message', 'server', 2)], host(kind),
                   choose([None, service()]) if 'store' in trust else None)
    negotiated(c)
    c._cipher = suite()
    c._cipher.must_encrypt = c._cipher.must_decrypt = True
    return c


def flow(trust, kind):
    """EncryptedExtensions to Finished, with any content"""
    def f():
        from siotls.contents.handshakes import extensions as X
        from siotls import iana
        c = client(trust, kind)
        enter(c, 'ClientWaitEncryptedExtensions')
        ee = {}
        if choose([0, 1]):
            t = senum(iana.CertificateType, 'certificate type selected')
            ee[iana.ExtensionType.SERVER_CERTIFICATE_TYPE] = Content_(certificate_type=t)
        e = message(c, 8, extensions=ee)
        if e is not None:
            prove('a type that was not offered is refused with an alert', is_alert(e, 'IllegalParameter'), exc_name(e))
            prove('a refused message leaves the state', state(c) == 'ClientWaitEncryptedExtensions')
            return
        if choose([0, 1]):
            e = message(c, 13)
            prove('a certificate request is accepted', e is None, exc_name(e))
        l, types = entries()
        e = message(c, 11, certificate_list=l)
        th_cert = c._transcript.digest()
        if e is not None:
            prove('a refused certificate does not advance', state(c) != 'Connected' and not of('sent'))
            cover('certificate refused')
            return
        scheme = senum(iana.SignatureScheme, 'algorithm')
        e = message(c, 15, algorithm=scheme, signature=bvar('signature'))
        th_cv = c._transcript.digest()
        if e is not None:
            prove('a refused signature does not advance', state(c) != 'Connected' and not of('sent'))
            cover('signature refused')
            return
        e = message(c, 20, verify_data=bvar('finished'))
        if e is not None:
            prove('a refused finished does not advance', state(c) != 'Connected')
            cover('finished refused')
            return
        prove('the handshake ends in the connected state', state(c) == 'Connected', state(c))
        cover('connected')
        verified(c, trust, kind, ee, l, types, scheme, th_cert, th_cv)
    return f


def verified(c, trust, kind, ee, l, types, scheme, th_cert, th_cv):
    """everything C10 asks for took place, in order"""
    from siotls import iana
    sigs, fins = of('verify'), of('verify_finish')
    prove('one signature was verified, and it was good', len(sigs) == 1 and sigs[0][5] == 'ok')
    prove('one finished value was verified, and it was good', len(fins) == 1 and fins[0][3] == 1)
    prove('the signature was verified before the finished', position('verify') < position('verify_finish'))
    _, number, key, signature, data, _ = sigs[0]
    prove('the algorithm is that of the message', T(scheme) == number)
    prove('the algorithm is one of the key presented', fits(number, key))
    prove('the algorithm was offered', isin(scheme, c.config.signature_algorithms))
    prove('the signature is that of the message', beq(signature, bvar('signature')))
    prove('it covers the context and the transcript up to the certificate', beq(data, concat(CONTEXT, th_cert)))
    _, th, value, _, cipher = fins[0]
    prove('the finished value is that of the message', beq(value, bvar('finished')))
    prove('it covers the transcript up to the certificate verify', beq(th, th_cv))
    prove('it is verified by the suite of the connection', cipher is c._cipher)
    t = next(iter(ee.values())).certificate_type if ee else iana.CertificateType.X509
    raw = branch(T(t) == 2)
    mine = models.pubkey('raw', (I(0),)) if raw else models.pubkey('key of cert', (I(0),))
    prove('the server has presented a key', T(l.n) >= 1)
    prove('the signature is by the key presented', _eq(key, mine))
    k = sint('some entry', 0)
    assume(T(k) < T(l.n))
    if trust:
        prove('the entries are of the type negotiated', Or(types(T(k)) == T(t)))
    chains = of('verify_chain')
    if not trust:
        return
    prove('the type was configured', 'keys' in trust if raw else 'store' in trust)
    if raw:
        prove('the key is one of those trusted', isin(models.pubkey("raw", (I(0),)), c.config.trusted_public_keys))
        return
    prove('the chain was verified', len(chains) == 1 and chains[0][5] == 1)
    _, store, subject, leaf, rest, _ = chains[0]
    prove('against the trust store', store is c.config.trust_store)
    want = {'none': None, 'name': ('dns', 'server.example'), 'address': ('ip', ipaddress.ip_address('192.0.2.1'))}[kind]
    prove('for the name asked for', subject == want, f'{subject}')
    prove('the certificate of the key is the leaf', _eq(leaf, cert(I(0))))
    rest = desym(rest)
    rest = SList([('c', list(rest))]) if isinstance(rest, list) else rest
    prove('the chain is the one presented', T(rest.n) == T(l.n) - 1)
    if branch(And(T(k) >= 1)):
        prove('the chain is the one presented, in order', _eq(rest.at(simp(T(k) - 1)), cert(T(k))))
    if c.config.revocation_list is not None:
        prove('no certificate is revoked', Not(sym.atom('revoked', T(k))))
    if branch(T(k) < T(l.n) - 1):
        req = Opaque('request', 'request', (T(k), T(k) + 1))
        prove('a stapled status is valid', Implies(sym.atom('stapled', T(k)), sym.atom(
            'valid', cert(T(k) + 1), req, Opaque('response', 'stapled', (T(k),)))))
        if c.ocsp_service is not None:
            prove('a status that can be fetched is valid', Implies(
                And(Not(sym.atom('stapled', T(k))), sym.atom('has url', T(k))),
                sym.atom('valid', cert(T(k) + 1), req, Opaque('response', 'fetched', req.idx))))


def _eq(a, b):
    r = a == b
    return z3.BoolVal(r) if isinstance(r, bool) else cond(r)


for _t in ((), ('store',), ('keys',), ('store', 'keys')):
    for _k in ('none', 'name', 'address'):
        TASKS.append(Task(f"a client that trusts {' and '.join(_t) or 'nobody'}, host {_k}", flow(_t, _k), cost=10))

for _s in S.CLIENT:
    TASKS.append(Task(f'{_s}: any other message', stray(_s)))


# RFC 8446 4.2.3: number -> (key, hash, padding or curve)
SCHEMES = {
    0x0401: ('rsa', 'sha256', 'pkcs1'), 0x0501: ('rsa', 'sha384', 'pkcs1'), 0x0601: ('rsa', 'sha512', 'pkcs1'),
    0x0403: ('ec', 'sha256', 'secp256r1'), 0x0503: ('ec', 'sha384', 'secp384r1'), 0x0603: ('ec', 'sha512', 'secp521r1'),
    0x0804: ('rsa', 'sha256', 'pss'), 0x0805: ('rsa', 'sha384', 'pss'), 0x0806: ('rsa', 'sha512', 'pss'),
    0x0807: ('ed25519', None, None), 0x0808: ('ed448', None, None),
    0x0809: ('rsa-pss', 'sha256', 'pss'), 0x080a: ('rsa-pss', 'sha384', 'pss'), 0x080b: ('rsa-pss', 'sha512', 'pss'),
}


def parameters(args, scheme):
    """are these the arguments RFC 8446 4.2.3 fixes for the algorithm"""
    from cryptography.hazmat.primitives.asymmetric import padding, ec
    kind, h, what = SCHEMES[scheme]
    if kind.startswith('ed'):
        return not args
    if kind == 'ec':
        return len(args) == 1 and isinstance(args[0], ec.ECDSA) and args[0].algorithm.name == h
    if len(args) != 2 or args[1].name != h:
        return False
    if what == 'pkcs1':
        return isinstance(args[0], padding.PKCS1v15)
    p = args[0]
    size = args[1].digest_size
    salt = p._salt_length
    return isinstance(p, padding.PSS) and p._mgf._algorithm.name == h and \
        (salt is padding.PSS.DIGEST_LENGTH or salt == size)


def signatures(scheme):
    """a suite verifies with the key it was given, with the parameters of its algorithm"""
    def f():
        from siotls.crypto import TLSSignatureSuite
        from cryptography.exceptions import InvalidSignature
        calls = []

        def verify(*a):
            calls.append(a)
            if choose([0, 1]):
                raise InvalidSignature

        def sign(*a):
            calls.append(a)
            return bvar('signature made')
        key = Opaque('key', 'a key', verify=verify, sign=sign)
        suite, e = attempt(lambda: TLSSignatureSuite[scheme](key))
        prove('the algorithm has a suite', e is None, exc_name(e))
        if e is not None:
            return
        sig, data = bvar('signature'), bvar('data')
        if choose([0, 1]):
            got, e = attempt(suite.sign, data)
            prove('signing uses the key once', e is None and len(calls) == 1, exc_name(e))
            prove('the signature is that of the data, with the parameters of the algorithm',
                  And(beq(calls[0][0], data), parameters(calls[0][1:], scheme)))
            prove('the signature is returned', beq(got, bvar('signature made')))
            cover('signed')
            return
        _, e = attempt(suite.verify, sig, data)
        prove('verifying uses the key once', len(calls) == 1)
        prove('the signature is verified over the data, with the parameters of the algorithm',
              And(beq(calls[0][0], sig), beq(calls[0][1], data), parameters(calls[0][2:], scheme)))
        prove('only a good signature is accepted', e is None or isinstance(e, InvalidSignature), exc_name(e))
        cover('verified' if e is None else 'not verified')
    return f


for _n in SCHEMES:
    TASKS.append(Task(f'signature {_n:04x}', signatures(_n)))


def keys():
    """which algorithms are those of a key, for every kind of key and algorithm"""
    from siotls.crypto import TLSSignatureSuite
    from contracts.serverflow import public, ALGORITHMS
    for kind in ALGORITHMS:
        for n in SCHEMES:
            got, e = attempt(TLSSignatureSuite[n].can_sign_with, public(kind))
            want = n in ALGORITHMS[kind] or kind == 'rsa' and n in (0x0809, 0x080a, 0x080b)
            prove('an algorithm is accepted exactly for its kind of key', e is None and bool(got) == want, f'{kind} {n:04x}')
    cover('keys')


TASKS.append(Task('the algorithms of a key', keys))
