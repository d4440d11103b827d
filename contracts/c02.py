"""C02: every message: the bytes are those of the presentation language, and are read back."""
import types
from pyvc.harness import *
from pyvc.harness import Task
from contracts import wire
from pyvc import models
from contracts.wire import u, vec

TASKS = []


def iana():
    import siotls.iana as m
    return m


def HS():
    import siotls.contents.handshakes as m
    return m


def contents():
    import siotls.contents as m
    return m


class LazySide:
    """the configuration of either side, decided when it is first looked at"""
    __vc_ok__ = True

    def __init__(self):
        object.__setattr__(self, '_c', None)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if self._c is None:
            object.__setattr__(self, '_c', sides()[0])
        return getattr(self._c, n)


def either_side():
    from siotls.configuration import TLSNegotiatedConfiguration
    return LazySide(), TLSNegotiatedConfiguration()


def sides():
    """configurations of the receiver"""
    from siotls.configuration import TLSConfiguration, TLSNegotiatedConfiguration
    side = choose(['client', 'server'])
    if side == 'client':
        c = TLSConfiguration('client')
    else:
        c = TLSConfiguration('server', private_key=sym.Opaque('privkey', 'own'), certificate_chain=[sym.Opaque('cert', 'own')])
    return c, TLSNegotiatedConfiguration()


def roundtrip(tag, msg, number, body, config, nconfig, cls=None, handshake=True, extra=None):
    """number: handshake type or content type; body: the bytes the RFC prescribes"""
    got, e = attempt(msg.serialize)
    limit = 1 << 24
    fits = nz(blen(body)) < limit if handshake else z3.BoolVal(True)
    if e is not None:
        prove(f'{tag}: only refuses to serialize what does not fit', Or(Not(fits), wire.too_long()), exc_name(e))
        return None
    prove(f'{tag}: serialized only when it fits', And(fits, Not(wire.too_long())))
    want = concat(u(1, number), wire.item(3, body)) if handshake else body
    prove(f'{tag}: the bytes are those of the presentation language', beq(got, want))
    import siotls.serial as ser
    s = ser.SerialIO(got)
    C = contents().Content
    parser, e = attempt(C.get_parser, int(msg.content_type))
    prove(f'{tag}: its content type has a parser', e is None)
    if e is not None:
        return None
    back, e = attempt(parser.parse, s, config=config, nconfig=nconfig)
    if e is not None:
        fail(f'{tag}: read back', exc_name(e))
        return None
    prove(f'{tag}: every byte is consumed', T(s.tell()) == nz(blen(got)))
    prove(f'{tag}: read back as the same class', type(back) is (cls or type(msg)), type(back).__name__)
    if type(back) is (cls or type(msg)):
        for a in sorted(set(vars(msg)) | set(vars(back))):
            if a in ('args', '__cause__'):
                continue
            prove(f'{tag}: field {a} is read back equal', wire.same(vars(back).get(a), vars(msg).get(a)))
    cover(tag)
    return back


def task(name, **o):
    def deco(f):
        TASKS.append(Task(name, f, **o))
        return f
    return deco


@task('alerts')
def t_alerts():
    from siotls.contents import alerts
    i = iana()
    level = choose(list(i.AlertLevel))
    known = choose([1, 0])
    config, nconfig = sides()
    if known:
        d = choose(list(i.AlertDescription))
        cls, e = attempt(lambda: alerts.Alert[d])
        if e is not None:
            fail('alert: every description has its class', str(d))
            return
        msg = cls(level=level)
        prove('alert: class and description agree', int(msg.description) == int(d))
        back = roundtrip('alert', msg, None, concat(u(1, int(level)), u(1, int(d))), config, nconfig, handshake=False)
        if back is not None:
            prove('alert: level and description are read back', int(back.level) == int(level)
                  and int(back.description) == int(d))
        # its own level when none is given
        m2 = cls()
        got, e = attempt(m2.serialize)
        prove('alert: serialized with its own level', e is None and beq(got, concat(u(1, int(cls.level)), u(1, int(d)))))
    else:
        import siotls.serial as ser
        d = sint('description', 0, 255)
        for x in i.AlertDescription:
            assume(T(d) != int(x))
        w = concat(u(1, int(level)), u(1, d))
        back, e = attempt(alerts.Alert.parse, ser.SerialIO(w), config=config, nconfig=nconfig)
        if e is not None:
            fail('alert: an unknown description is read', exc_name(e))
            return
        prove('alert: unknown description kept', And(T(back.description) == T(d), T(back.level) == int(level)))
        got, e = attempt(back.serialize)
        prove('alert: unknown description serialized back', beq(got, w) if e is None else False)
        cover('unknown alert')


@task('change_cipher_spec')
def t_ccs():
    config, nconfig = sides()
    roundtrip('change_cipher_spec', contents().ChangeCipherSpec(), None, b'\x01', config, nconfig, handshake=False)


@task('application_data')
def t_app():
    config, nconfig = sides()
    b = bvar('data')
    roundtrip('application_data', contents().ApplicationData(b), None, b, config, nconfig, handshake=False)


@task('heartbeat')
def t_heartbeat():
    config, nconfig = sides()
    i = iana()
    t = choose(list(i.HeartbeatMessageType))
    p, q = bvar('payload'), bvar('padding')
    fits = nz(blen(p)) + nz(blen(q)) <= 2 ** 14 - 3
    msg, e = attempt(contents().Heartbeat, t, p, q)
    if e is not None:
        prove('heartbeat: only a message that is too long is refused', Not(fits), exc_name(e))
        return
    prove('heartbeat: a message that is too long is refused', fits)
    roundtrip('heartbeat', msg, None, concat(u(1, int(t)), vec(2, p), q), config, nconfig, handshake=False)


@task('client_hello', cost=100)
def t_client_hello():
    config, nconfig = sides()
    wire.abstract_extensions(('CLIENT_HELLO',))
    i = iana()
    rnd = bvar('random', 32)
    suites, sbody = wire.enums('suite', i.CipherSuites, 2)
    assume(nz(suites.n) >= 1)
    exts, ebody = wire.ext_list()
    from siotls.iana import ExtensionType
    msg, e = attempt(HS().ClientHello, rnd, suites, exts)
    if e is not None:
        prove('client_hello: only refused for its pre-shared key', isinstance(e, ValueError)
              and exists_type(exts, 41), exc_name(e))
        return
    sid = bvar('session_id')
    assume(nz(blen(sid)) <= 32)
    msg.legacy_session_id = sid
    roundtrip('client_hello', msg, 1,
              concat(u(2, 0x0303), rnd, vec(1, sid), vec(2, sbody), vec(1, b'\x00'), ebody), config, nconfig)


def exists_type(exts, n):
    k = ctx().newint('x')
    return rt.quantified(exts, lambda x: x.extension_type == n, True)


def some_suite():
    return senum(iana().CipherSuites, 'suite') if choose([0, 1]) else wire.enum_or_int('suite_', iana().CipherSuites, 2)


HRR_RANDOM = bytes.fromhex('CF21AD74E59A6111BE1D8C021E65B891C2A211167ABB8C5E079E09E2C8A8339C')


@task('server_hello')
def t_server_hello():
    config, nconfig = sides()
    wire.abstract_extensions(('SERVER_HELLO',))
    rnd = bvar('random', 32)
    assume(Not(beq(rnd, HRR_RANDOM)))
    sid = bvar('session_id')
    assume(nz(blen(sid)) <= 32)
    suite = wire.enum_or_int('suite', iana().CipherSuites, 2)
    exts, ebody = wire.ext_list()
    msg = HS().ServerHello(rnd, sid, suite, exts)
    roundtrip('server_hello', msg, 2, concat(u(2, 0x0303), rnd, vec(1, sid), u(2, suite), b'\x00', ebody), config, nconfig)


@task('hello_retry_request')
def t_hrr():
    config, nconfig = sides()
    wire.abstract_extensions(('HELLO_RETRY_REQUEST',))
    sid = bvar('session_id')
    assume(nz(blen(sid)) <= 32)
    suite = wire.enum_or_int('suite', iana().CipherSuites, 2)
    exts, ebody = wire.ext_list()
    H = HS().HelloRetryRequest
    msg = H(H.random, sid, suite, exts)
    roundtrip('hello_retry_request', msg, 2,
              concat(u(2, 0x0303), HRR_RANDOM, vec(1, sid), u(2, suite), b'\x00', ebody), config, nconfig)


@task('encrypted_extensions')
def t_ee():
    config, nconfig = sides()
    wire.abstract_extensions(('ENCRYPTED_EXTENSIONS',))
    exts, ebody = wire.ext_list()
    roundtrip('encrypted_extensions', HS().EncryptedExtensions(exts), 8, ebody, config, nconfig)


@task('certificate_request', cost=50)
def t_cr():
    config, nconfig = sides()
    wire.abstract_extensions(('CERTIFICATE_REQUEST',))
    b = bvar('request_context')
    exts, ebody = wire.ext_list()
    msg, e = attempt(HS().CertificateRequest, b, exts)
    if e is not None:
        prove('certificate_request: only refused without signature algorithms',
              Not(exists_type(exts, 13)), exc_name(e))
        return
    roundtrip('certificate_request', msg, 13, concat(vec(1, b), ebody), config, nconfig)


@task('certificate_verify')
def t_cv():
    config, nconfig = sides()
    a = wire.enum_or_int('algorithm', iana().SignatureScheme, 2)
    b = bvar('signature')
    roundtrip('certificate_verify', HS().CertificateVerify(a, b), 15, concat(u(2, a), vec(2, b)), config, nconfig)


@task('finished')
def t_finished():
    config, nconfig = sides()
    b = bvar('verify_data')
    roundtrip('finished', HS().Finished(b), 20, b, config, nconfig)


wire.install()


# -- certificates: one entry, then the message by the contract of an entry ------------------------------------

def entry_classes():
    h = HS()
    import siotls.contents.handshakes.certificate as c
    return [(c.X509, 'certificate', models.cert, 'der'), (c.RawPublicKey, 'public_key', models.pubkey, 'spki')]


@task('certificate_entry')
def t_entry():
    import siotls.serial as ser
    wire.abstract_extensions(('CERTIFICATE',))
    cls, attr, make, enc = choose(entry_classes())
    exts, ebody = wire.ext_list()
    obj = make('subject')
    der = bvar(f'{enc}(subject)')
    assume(nz(blen(der)) >= 1)      # no DER encoding is empty
    msg = cls(obj, exts)
    got, e = attempt(msg.serialize)
    if e is not None:
        prove('entry: only refuses to serialize what does not fit', Or(nz(blen(der)) >= 1 << 24, wire.too_long()), exc_name(e))
        return
    prove('entry: serialized only when it fits', And(nz(blen(der)) < 1 << 24, Not(wire.too_long())))
    want = concat(vec(3, der), ebody)
    prove('entry: the bytes are those of the presentation language', beq(got, want))
    tail = bvar('tail')
    s = ser.SerialIO(concat(got, tail))
    back, e = attempt(cls.parse, s)
    if e is not None:
        fail('entry: read back', exc_name(e))
        return
    prove('entry: exactly its bytes are consumed', T(s.tell()) == nz(blen(want)))
    prove('entry: read back as the same class', type(back) is cls)
    prove('entry: the certificate or key is read back', wire.same(getattr(back, attr), obj))
    prove('entry: the extensions are read back', wire.same(back.extensions, msg.extensions))
    cover('entry')


@task('certificate')
def t_certificate():
    config, nconfig = sides()
    cls, attr, make, enc = choose(entry_classes())
    i = iana()
    other = choose([x for x in i.CertificateType if x != cls.certificate_type])
    mine, theirs = ('client', 'server') if config.other_side == 'client' else ('server', 'client')
    setattr(nconfig, f'{mine}_certificate_type', cls.certificate_type)
    setattr(nconfig, f'{theirs}_certificate_type', choose([None, other]))
    ghost()['entries'] = cls
    ctxt = bvar('request_context')

    def elem(k):
        a, b = bvar('cert_data', None, (nz(k),)), bvar('cert_exts', None, (nz(k),))
        ctx().assume(z3.And(nz(blen(a)) < 1 << 24, nz(blen(b)) < 65536))
        return AbstractEntry(a, b)
    l = slist('entries', None, elem)
    msg = HS().Certificate(ctxt, l)
    roundtrip('certificate', msg, 11, concat(vec(1, ctxt), vec(3, wire.many(l, lambda x: x.serialize()))), config, nconfig)


class AbstractEntry:
    """a certificate entry, by the contract of its parse and serialize"""
    __vc_copy__ = True

    def __init__(self, data, exts):
        self.data, self.exts = data, exts

    def serialize(self):
        return concat(wire.item(3, self.data), wire.item(2, self.exts))

    def __eq__(self, o):
        return sym.mkbool(z3.And(beq(self.data, o.data), beq(self.exts, o.exts)))
    __hash__ = None


def entry_parse(cls):
    orig = None
    for k in cls.__mro__:
        if 'parse' in k.__dict__:
            orig = k.__dict__['parse'].__func__
            break

    def f(stream, **kwargs):
        want = ghost().get('entries') if core.C else None
        if core.C and ghost().get('entries_any'):
            # the contract of an entry (C04): it reads a certificate and extensions, or refuses them
            data = stream.read_var(3)
            if bool(sym.atom('refused certificate', data)):
                from siotls.contents import alerts
                raise alerts.BadCertificate('refused')
            x = stream.read_var(2)
            if bool(sym.atom('refused extensions', x)):
                from siotls.contents import alerts
                raise alerts.IllegalParameter('refused')
            return AbstractEntry(data, x)
        if want is None:
            return orig(cls, stream, **kwargs)
        prove('certificate: entries are read as the negotiated type', want is cls, cls.__name__)
        return AbstractEntry(stream.read_var(3), stream.read_var(2))
    return f


def install():
    import siotls.contents.handshakes.certificate as c
    for k in (c.X509, c.RawPublicKey):
        rt.METHODS[k, 'parse'] = entry_parse(k)


install()
