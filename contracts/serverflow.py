"""A server with an arbitrary configuration, from an arbitrary client hello to the end of the handshake."""
from contracts.states import *
from contracts import states as S

CONTEXT = b' ' * 64 + b'TLS 1.3, server CertificateVerify' + b'\0'
# RFC 8446 4.2.3: the algorithms of a kind of key
ALGORITHMS = {
    'rsa': {0x0401, 0x0501, 0x0601, 0x0804, 0x0805, 0x0806}, 'p256': {0x0403}, 'p384': {0x0503}, 'p521': {0x0603},
    'ed25519': {0x0807}, 'ed448': {0x0808},
}
OIDS = {'rsa': 'RSAES_PKCS1_v1_5', 'p256': 'EC_PUBLIC_KEY', 'p384': 'EC_PUBLIC_KEY', 'p521': 'EC_PUBLIC_KEY',
        'ed25519': 'ED25519', 'ed448': 'ED448'}
_keys = {}


def public(kind):
    """a public key of that kind"""
    if kind not in _keys:
        from cryptography.hazmat.primitives.asymmetric import ec, ed25519, ed448, rsa
        _keys[kind] = {'rsa': lambda: rsa.generate_private_key(65537, 2048), 'ed25519': ed25519.Ed25519PrivateKey.generate,
                       'ed448': ed448.Ed448PrivateKey.generate, 'p256': lambda: ec.generate_private_key(ec.SECP256R1()),
                       'p384': lambda: ec.generate_private_key(ec.SECP384R1()),
                       'p521': lambda: ec.generate_private_key(ec.SECP521R1())}[kind]().public_key()
    return _keys[kind]


class Cert:
    """a certificate for that key"""
    __vc_ok__ = True

    def __init__(self, name, key, kind):
        from cryptography.hazmat._oid import PublicKeyAlgorithmOID
        self.name, self.key, self.public_key_algorithm_oid = name, key, getattr(PublicKeyAlgorithmOID, OIDS[kind])

    def public_key(self):
        return self.key


class Shares:
    """the key shares of a hello: a group has one, or none"""
    __vc_ok__ = True

    def __init__(self, which):
        self.which = which

    def __contains__(self, g):
        return bool(sym.atom(f'{self.which} share offered', T(g)))

    def __getitem__(self, g):
        if g not in self:
            raise KeyError(g)
        return bvar(f'{self.which} share', idx=(T(g),))

    def get(self, g, d=None):
        return self[g] if g in self else d

    def __bool__(self):
        raise Unsupported('whether there is any share')


def theirs(name, vary, fixed):
    return intlist(name, 0, 65535) if vary else list(fixed)


def extension(**kw):
    return Content_(**kw)


def hello(vary, which='first', second=False):
    """any client hello; what is in `vary` is arbitrary, the rest has one usable value"""
    from siotls import iana
    E = iana.ExtensionType
    x = {}

    def has(what):
        return what not in vary or choose([1, 0])
    if has('versions'):
        x[E.SUPPORTED_VERSIONS] = extension(versions=theirs(f'{which} versions', 'versions' in vary, [iana.TLSVersion.TLS_1_3]))
    if has('groups'):
        x[E.SUPPORTED_GROUPS] = extension(named_group_list=theirs(f'{which} groups', 'groups' in vary, [29]))
    if has('algorithms'):
        x[E.SIGNATURE_ALGORITHMS] = extension(supported_signature_algorithms=theirs(
            f'{which} algorithms', 'algorithms' in vary, sorted(set().union(*ALGORITHMS.values()))))
    if has('shares'):
        x[E.KEY_SHARE] = extension(client_shares=Shares(which))
    for t, n in ((E.CLIENT_CERTIFICATE_TYPE, 'client types'), (E.SERVER_CERTIFICATE_TYPE, 'server types')):
        if n in vary and choose([1, 0]):
            x[t] = extension(certificate_types=theirs(f'{which} {n}', True, ()))
    if 'fragments' in vary and choose([1, 0]):
        x[E.MAX_FRAGMENT_LENGTH] = extension(octets=senum(iana.MaxFragmentLengthOctets, 'length asked for'))
    if 'alpn' in vary and choose([1, 0]):
        x[E.APPLICATION_LAYER_PROTOCOL_NEGOTIATION] = extension(protocol_name_list=theirs(f'{which} protocols', True, ()))
    if 'heartbeat' in vary and choose([1, 0]):
        x[E.HEARTBEAT] = extension(mode=senum(iana.HeartbeatMode, 'heartbeat mode of the client'))
    if 'status' in vary and choose([1, 0]):
        x[E.STATUS_REQUEST] = extension(status_type=senum(iana.CertificateStatusType, 'status asked for'))
    for t, m in x.items():
        m.extension_type = t
    return Content_(content_type=iana.ContentType.HANDSHAKE, msg_type=iana.HandshakeType.CLIENT_HELLO,
                    cipher_suites=theirs(f'{which} suites', 'suites' in vary, [0x1301]),
                    random=bvar(f'{which} random', 32), legacy_session_id=bvar(f'{which} session id'), extensions=x)


def server(vary, kind='ed25519', material='x509', ocsp=False):
    """a server; what is in `vary` is arbitrary in its configuration"""
    from siotls import iana
    contracts()
    over = {}
    if 'suites' not in vary:
        over['cipher_suites'] = [iana.CipherSuites(0x1301)]
    if 'groups' not in vary:
        over['key_exchanges'] = [iana.NamedGroup(29)]
    if 'algorithms' not in vary:
        over['signature_algorithms'] = [iana.SignatureScheme(n) for n in sorted(set().union(*ALGORITHMS.values()))]
    if 'alpn' in vary:
        over['alpn'] = intlist('our protocols', 0, 65535)
    if 'heartbeat' in vary:
        over['can_echo_heartbeat'] = choose([True, False])
    key = public(kind)
    if material in ('x509', 'both'):
        chain = [Cert('leaf', key, kind), Cert('issuer', public('ed25519'), 'ed25519')]
        over['certificate_chain'] = chain[:choose([2, 1])] if 'status' in vary else chain
    over['public_key'] = key if material in ('raw', 'both') else None
    c = connection('server', config('server', **over), ocsp=service() if ocsp else None)
    c._transcript.names = ['sha256', 'sha384']
    enter(c, 'ServerWaitClientHello')
    return c


def service():
    from siotls.crypto import ocsp

    def validate(issuer, req, res):
        event('validate', issuer, req, res)
        if not choose([1, 0]):
            raise ValueError('not valid')
        event('valid', issuer, req, res)
        return Opaque('date', 'expiry')
    rt.MODELS[ocsp.validate_ocsp] = validate
    rt.MODELS[ocsp.make_ocsp_request] = lambda c, i: ('request', c.name, i.name)
    rt.MODELS[ocsp.get_ocsp_url] = lambda c: ('url', c.name)

    def request(url, req):
        event('request', url, req)
        return Opaque('response', 'fetched')
    return Opaque('service', 'service', request=request, cache=lambda *a: event('cache', *a),
                  uncache=lambda *a: event('uncache', *a))


def receive(c, m):
    """the message joins the transcript, then is processed"""
    c._transcript.done.append(('message', 'client', int(m.msg_type)))
    return process(c, m)


def ext(m, t):
    """the extension of a message, or None; there must be at most one"""
    x = m.extensions
    return x.get(t)


def kinds(m):
    return sorted(int(t) for t in m.extensions)


def index(value, name):
    """the index of an element of the symbolic list of that name, or None"""
    t = z3.simplify(nz(zi(value)))
    return t.arg(0) if z3.is_app(t) and t.num_args() == 1 and t.decl().name() == f'el:{name}' else None


def first_common(what, value, ours, name, offered, also=None):
    """value is the first element of ours that was offered (and satisfies also)"""
    ok = lambda v: And(isin(v, offered), also(v) if also else True)  # noqa: E731
    prove(f'{what} selected was offered', ok(value))
    if not isinstance(desym(ours), SList):
        l = list(ours)
        for i, v in enumerate(l):
            prove(f'{what} selected is the first one of ours', Or(*[T(value) == T(w) for w in l[:i + 1]], Not(ok(v))))
        return
    j = index(value, name)
    prove(f'{what} selected is one of ours', j is not None, str(value))
    if j is None:
        return
    n = T(desym(ours).n)
    prove(f'{what} selected is within ours', And(j >= 0, j < n))
    i = sint('an earlier one', 0)
    assume(T(i) < j)
    prove(f'{what} selected is the first one of ours', Not(ok(desym(ours).at(T(i)))))


def none_common(what, ours, offered, also=None):
    """no element of ours is offered: for an arbitrary one"""
    ok = lambda v: And(isin(v, offered), also(v) if also else True)  # noqa: E731
    if not isinstance(desym(ours), SList):
        return And(*[Not(ok(v)) for v in ours])
    i = sint('any of ours', 0)
    assume(T(i) < T(desym(ours).n))
    return Not(ok(desym(ours).at(T(i))))


def which_algorithm(c, ours):
    """the element of our list that was selected: the one whose suite is in use"""
    number = c._signature.iana_id
    l = desym(ours)
    if not isinstance(l, SList):
        return number
    from pyvc.core import ctx
    j = next((t for t in looked(l, 'our algorithms') if ctx().must(nz(t) == int(number))), None)
    return number if j is None else mkint(j)


def looked(l, name):
    """the terms name(i) that occur in what is known"""
    from pyvc.core import ctx
    out, seen = [], set()

    def go(t):
        if z3.is_quantifier(t) or t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_app(t) and t.num_args() == 1 and t.decl().name() == f'el:{name}':
            out.append(t)
        for ch in t.children():
            go(ch)
    for p in ctx().pc:
        go(p)
    return out
