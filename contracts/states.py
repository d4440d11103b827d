"""Connections with an arbitrary configuration, between the contracts of what their states call.

What a state calls is replaced by its contract, and every call recorded in `events`, in order:
- TLSConnection._send_content(content): the content is queued, a handshake one joins the transcript (C05, C09);
- Transcript: digest() depends on the messages so far, and nothing else (C09);
- TLSCipherSuite[n]: the key schedule (C08); verify_finish returns, or raises ValueError;
- TLSKeyExchange[n]: init() and resume(), which returns a shared key or raises ValueError (C20);
- TLSSignatureSuite[n](key): sign, and verify, which returns or raises (C10)."""
from pyvc.harness import *
from pyvc.harness import Task
from pyvc import models

ALERTS = 'siotls.contents.alerts'


def events():
    return ghost().setdefault('events', [])


def event(*a):
    events().append(a)


def of(kind):
    return [e for e in events() if e[0] == kind]


def position(kind):
    """where in the events the first of a kind is"""
    return next((i for i, e in enumerate(events()) if e[0] == kind), None)


class VTranscript:
    """the messages so far, and what was done with them"""
    __vc_ok__ = True

    def __init__(self, names, done):
        self.names, self.done = list(names), list(done)

    def post_init(self, digestmod):
        event('post_init', digestmod, list(self.done))
        self.done.append(('negotiated', digestmod))

    def do_hrr_dance(self, side, first):
        event('dance', side, first, list(self.done))
        self.done.append(('dance', side, first))

    def update(self, data, side, kind):
        event('update', data, side, kind)
        self.done.append(('message', side, kind))

    def digest(self):
        return digest_at(self.done)

    def digests(self):
        return {n: digest_at(self.done, n) for n in self.names}

    def hexdigest(self):
        return self.digest().hex()


def digest_at(done, name='the hash'):
    l = ghost().setdefault('transcripts', [])
    for i, d in enumerate(l):
        if same_done(d, done):
            break
    else:
        i = len(l)
        l.append(list(done))
    return bvar(f'{name} of transcript {i}')


def same_done(a, b):
    return len(a) == len(b) and all(x[0] == y[0] and all(p is q or (type(p) is type(q) and not sym.isbytes(p) and p == q)
                                                         for p, q in zip(x[1:], y[1:], strict=True)) for x, y in zip(a, b))


def suite_contract(number, real):
    class VSuite:
        __vc_ok__ = True
        iana_id = real.iana_id
        digestmod = real.digestmod
        tag_length = real.tag_length
        must_encrypt = must_decrypt = should_rekey = False
        real_class = real

        def __init__(self, side, client_unique, *, log_keys):
            self.side, self.client_unique, self.log_keys = side, client_unique, log_keys
            event('suite', number, side, client_unique, log_keys)

        def skip_early_secrets(self):
            event('skip_early')

        def derive_handshake_secrets(self, shared, th):
            self.must_encrypt = self.must_decrypt = True
            event('handshake_keys', shared, th, self)

        def derive_master_secrets(self, sf, cf):
            event('application_keys', sf, cf, self)

        def sign_finish(self, th):
            v = bvar('our finished value')
            event('sign_finish', th, v, self)
            return v

        def verify_finish(self, th, value):
            ok = choose([1, 0])
            event('verify_finish', th, value, ok, self)
            if not ok:
                raise ValueError('not the finished value')

        def __getattr__(self, name):
            raise Unsupported(f'cipher suite without {name}')
    return VSuite


def group_contract(number, real):
    class VGroup:
        __vc_ok__ = True
        iana_id = real.iana_id

        @classmethod
        def init(cls):
            n = len(of('init'))
            r = Opaque('private key', f'private {n}'), bvar(f'share {n}')
            event('init', number, *r)
            return r

        @classmethod
        def resume(cls, private, share):
            # 'weak': refused with an alert
            out = choose(ghost().get('share outcomes', ['ok', 'bad']))
            ok = int(out == 'ok')
            s = bvar('shared key')
            assume(T(blen(s)) >= 1)
            event('resume', number, private, share, ok, s)
            if out == 'weak':
                from siotls.contents import alerts
                raise alerts.InsufficientSecurity('weak')
            if not ok:
                raise ValueError('not a public value')
            return s
    return VGroup


def fits(number, key):
    """is that an algorithm of that key"""
    return sym.atom('algorithm of the key', T(number), key)


def signature_contract(number, real):
    class VSignature:
        __vc_ok__ = True
        iana_id = real.iana_id
        pubkey_oid = real.pubkey_oid
        curve_name = getattr(real, 'curve_name', None)

        def __init__(self, key):
            self.key = key

        @classmethod
        def can_sign_with(cls, key):
            return bool(fits(number, key))

        def sign(self, data):
            s = bvar('our signature')
            event('sign', number, self.key, data, s)
            return s

        def verify(self, signature, data):
            from cryptography.exceptions import InvalidSignature
            r = choose(['ok', 'bad', 'other'])
            event('verify', number, self.key, signature, data, r)
            if r == 'bad':
                raise InvalidSignature
            if r == 'other':
                raise TypeError('not a key for that')
    return VSignature


def contracts():
    """put the contracts in the place of what the states call; returns the real classes"""
    from siotls.crypto import TLSCipherSuite, TLSKeyExchange, TLSSignatureSuite
    for cls, make in ((TLSCipherSuite, suite_contract), (TLSKeyExchange, group_contract)):
        for k, v in list(cls._registry.items()):
            cls._registry[k] = make(int(k), v)
    sigs = {}
    for k, v in list(TLSSignatureSuite._registry.items()):
        sigs[v] = TLSSignatureSuite._registry[k] = signature_contract(int(k), v)
    for r in TLSSignatureSuite._pubkey_registry.values():
        for k, v in list(r.items()):
            r[k] = sigs.get(v, v)


def config(side, **over):
    """a configuration accepted by the code; symbolic lists unless given"""
    from siotls.configuration import TLSConfiguration
    from siotls import iana
    # a connection cannot be made from a configuration with a suite that is not implemented: TLSConnection.__init__ looks each up
    from siotls.crypto import TLSCipherSuite
    d = dict(cipher_suites=elist('our suites', iana.CipherSuites, only=[int(k) for k in TLSCipherSuite._registry]), key_exchanges=elist('our groups', iana.NamedGroup),
             signature_algorithms=elist('our algorithms', iana.SignatureScheme))
    if side == 'server':
        d['private_key'] = Opaque('key', 'private key of the server')
        d['public_key'] = models.pubkey('public key of the server')
    d.update(over)
    for k in ('cipher_suites', 'key_exchanges', 'signature_algorithms'):
        if isinstance(d[k], SList):
            assume(T(d[k].n) >= 1)
    return TLSConfiguration(side, **d)


def elist(name, cls, n=None, only=None):
    """a list of known code points"""
    f = z3.Function(f'el:{name}', z3.IntSort(), z3.IntSort())
    vs = sorted(only or {int(m) for m in cls})

    def elem(k):
        t = f(nz(k))
        c = ctx()
        seen = c.tables.setdefault('el', set())
        if str(t) not in seen:
            seen.add(str(t))
            c.assume(z3.Or([t == v for v in vs]))
        return SymEnum(cls, t)
    return slist(name, n, elem)


def connection(side, cfg=None, done=(), server_hostname=None, ocsp=None):
    """a connection with that configuration and transcript"""
    from siotls.connection import TLSConnection
    from siotls.configuration import TLSConfiguration
    from siotls import iana
    cfg = cfg or config(side)
    few = TLSConfiguration('client', cipher_suites=[iana.CipherSuites.TLS_AES_128_GCM_SHA256])
    c = TLSConnection(few, server_hostname=server_hostname, ocsp_service=ocsp)
    c.config = cfg
    if side == 'server':
        from siotls import states
        c._client_unique, c._server_unique = None, bvar('random of the server', 32)
        c._state = states.ServerStart(c)
    else:
        c._client_unique = bvar('random of the client', 32)
    c._transcript = VTranscript(['sha256', 'sha384'], done)

    def send(content):
        ct = int(content.content_type)
        if ct == 22:
            c._transcript.done.append(('message', side, int(content.msg_type)))
        event('sent', content, ct, c._cipher, list(c._transcript.done))
    c._send_content = send
    return c


def enter(c, state, *a, **k):
    from siotls import states
    c._move_to_state(getattr(states, state), *a, **k)
    events().clear()
    return c


def negotiated(c, **kv):
    from siotls.configuration import TLSNegotiatedConfiguration
    c.nconfig = TLSNegotiatedConfiguration()
    for k, v in kv.items():
        setattr(c.nconfig, k, v)
    return c.nconfig


def suite(number=0x1301, side='client'):
    """a suite object already there (contracts() was called)"""
    from siotls.crypto import TLSCipherSuite
    s = TLSCipherSuite._registry[number](side, bvar('random of the client', 32), log_keys=False)
    events().clear()
    return s


def process(c, content):
    return attempt(c._state.process, content)[1]


def state(c): return type(c._state).__name__


def is_alert(e, *names):
    import importlib
    a = importlib.import_module(ALERTS)
    return any(type(e) is getattr(a, n) for n in names)


CLIENT = ['ClientStart', 'ClientWaitServerHello', 'ClientWaitEncryptedExtensions', 'ClientWaitCertCr',
          'ClientWaitCertificate', 'ClientWaitCertificateVerify', 'ClientWaitFinished']
SERVER = ['ServerStart', 'ServerWaitClientHello', 'ServerWaitFinished']
ARGS = {
    'ClientStart': {}, 'ClientWaitServerHello': dict(key_shares={}, client_hello_transcript_hashes={}),
    'ClientWaitEncryptedExtensions': {}, 'ClientWaitCertCr': {}, 'ClientWaitCertificate': dict(must_authentify=False),
    'ClientWaitCertificateVerify': dict(must_authentify=False, certificate_transcript_hash=b''),
    'ClientWaitFinished': dict(must_authentify=False, certificate_verify_transcript_hash=b''),
    'ServerStart': {}, 'ServerWaitClientHello': {}, 'ServerWaitFinished': dict(server_finished_transcript_hash=b''),
    'Connected': {}, 'Closed': {}, 'Failed': {},
}
# the message each state waits for
WAITS = {'ClientWaitServerHello': (2,), 'ClientWaitEncryptedExtensions': (8,), 'ClientWaitCertCr': (11, 13),
         'ClientWaitCertificate': (11,), 'ClientWaitCertificateVerify': (15,), 'ClientWaitFinished': (20,),
         'ServerWaitClientHello': (1,), 'ServerWaitFinished': (20,)}


def others(name):
    """a message that the state does not wait for, of every kind"""
    from siotls import iana
    kinds = [('content', 20), ('content', 21), ('content', 23), ('content', 24)]
    kinds += [('handshake', int(t)) for t in iana.HandshakeType if int(t) not in WAITS.get(name, ())]
    kinds += [('handshake', 'other')]
    return kinds


class Content_:
    """any content of that kind"""
    __vc_ok__ = True

    def __init__(self, **kw):
        self.__dict__.update(kw)


def content(kind, name=''):
    from siotls import iana
    what, n = kind
    if what == 'content':
        c = Content_(content_type=iana.ContentType(n))
        if n == 21:
            c.level = senum(iana.AlertLevel, 'level of the alert')
            c.description = senum(iana.AlertDescription, 'description of the alert')
        if n == 23:
            c.content_data = bvar('application data')
        return c
    if n == 'other':
        v = sint('type of the message', 0, 255)
        for t in iana.HandshakeType:
            assume(T(v) != int(t))
        return Content_(content_type=iana.ContentType.HANDSHAKE, msg_type=v)
    return Content_(content_type=iana.ContentType.HANDSHAKE, msg_type=iana.HandshakeType(n))


def isin(x, l):
    """the condition x in l"""
    r = rt.contains(x, l) if False else desym(l).contains(x) if isinstance(desym(l), SList) else x in l
    return z3.BoolVal(r) if isinstance(r, bool) else cond(r)


def hrr_content(**kw):
    from siotls import iana
    return Content_(content_type=iana.ContentType.HANDSHAKE, msg_type=iana.HandshakeType_.HELLO_RETRY_REQUEST, **kw)


def enter_any(c, name):
    """a connection in that state; its suite and parameters as they are there"""
    if name in ('ClientWaitServerHello', 'ClientStart', 'ServerStart', 'ServerWaitClientHello'):
        second = name not in ('ServerStart',) and choose([0, 1])
    else:
        second = True
    if second:
        negotiated(c)
        c._cipher = suite(side=c.config.side)
    if name not in ('ClientWaitServerHello', 'ClientStart', 'ServerStart', 'ServerWaitClientHello'):
        c._cipher.must_encrypt = c._cipher.must_decrypt = True
    enter(c, name, **ARGS[name])
    if name == 'ServerWaitClientHello' and second:
        c._state._is_first_client_hello = False
    return second


def stray(name):
    """in that state, every message but the one it waits for"""
    def f():
        contracts()
        c = connection('client' if name.startswith('Client') else 'server')
        second = enter_any(c, name)
        before = c._state
        kinds = others(name) + ([('hrr', 0)] if name != 'ClientWaitServerHello' or second else [])
        kind = choose(kinds)
        m = hrr_content() if kind[0] == 'hrr' else content(kind)
        if kind[0] == 'hrr' and 2 in WAITS.get(name, ()) and not second:
            return
        e = process(c, m)
        if kind == ('content', 21):
            if branch(T(m.description) == 0):
                prove('a close during the handshake fails the connection, without an answer',
                      e is None and state(c) == 'Failed' and not of('sent'), exc_name(e))
                cover('close')
            elif branch(T(m.level) == 1):
                prove('a warning changes nothing', e is None and c._state is before and not of('sent'), exc_name(e))
                cover('warning')
            else:
                prove('a fatal alert fails', e is not None and c._state is before)
                cover('fatal')
            return
        prove('any other message is refused', e is not None, f'{kind}')
        if kind != ('content', 24):
            prove('any other message is refused with an unexpected message alert', is_alert(e, 'UnexpectedMessage'),
                  f'{kind} {exc_name(e)}')
        prove('a message refused changes nothing', c._state is before and not events() and not c._application_data, f'{kind}')
        cover('refused')
    return f
