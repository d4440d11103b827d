"""C20: key exchange rejects invalid shares and agrees otherwise."""
import warnings
warnings.filterwarnings('ignore', message='Diffie-Hellman over finite fields')
from cryptography.hazmat.primitives.asymmetric import dh, ec, x448, x25519
from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
from contracts.serverflow import *
from contracts import states as S
from pyvc.core import ctx

TASKS = []
X = {29: ('x25519', 32, x25519.X25519PrivateKey, x25519.X25519PublicKey), 30: ('x448', 56, x448.X448PrivateKey, x448.X448PublicKey)}
EC = {23: ('secp256r1', 32), 24: ('secp384r1', 48), 25: ('secp521r1', 66)}
# RFC 7919 appendix A: bits, and the X of p = 2^b - 2^(b-64) + (floor(2^(b-130) e) + X) 2^64 - 1
FF = {256: (2048, 560316), 257: (3072, 2625351), 258: (4096, 5736041), 259: (6144, 15705020), 260: (8192, 10965728)}
# a public value of fewer bits than these is not met: probability 2^-128
SPARE = 16


def euler(bits):
    """floor(2^bits e), in integers: the sum of 1/k! with guard bits"""
    guard = 64
    one = 1 << (bits + guard)
    t, total, k = one, 0, 0
    while t:
        total += t
        k += 1
        t //= k
    return total >> guard


def rfc7919(bits, x):
    return 2 ** bits - 2 ** (bits - 64) + (euler(bits - 130) + x) * 2 ** 64 - 1


PRIMES = {n: rfc7919(*bx) for n, bx in FF.items()}


# -- the contracts of the library -------------------------------------------------------------------

def keys():
    return ghost().setdefault('keys', [])


def drawn(kind):
    return [k for k in keys() if k.group == kind]


class Key:
    """a private key that was drawn: what the library does with it"""
    __vc_ok__ = True

    def __init__(self, group, **parts):
        self.group, self.parts, self.number = group, parts, len(keys())
        keys().append(self)

    def public_key(self):
        return Public(self.group, self, **self.parts)

    def secret(self, other):
        """commutative in two keys that were drawn"""
        if other.owner is not None:
            i, j = sorted((self.number, other.owner.number))
            return bvar(f'secret of {self.group} keys {i} and {j}', SIZE.get(self.group))
        return bvar(f'secret of {self.group} key {self.number} and a share', SIZE.get(self.group))

    def exchange(self, *a):
        other = a[-1]
        if not isinstance(other, Public) or other.group != self.group:
            raise ValueError('the keys are not of the same group')
        if self.group in CURVES:
            if len(a) != 2 or not isinstance(a[0], ec.ECDH):
                raise TypeError('exchange of an elliptic curve key')
        elif len(a) != 1:
            raise TypeError('exchange')
        if other.owner is None:
            if other.bad is not None and bool(other.bad):
                raise ValueError('Error computing shared key.')
        event('combined', self, other)
        return self.secret(other)


class Public:
    __vc_ok__ = True

    def __init__(self, group, owner, bad=None, **parts):
        self.group, self.owner, self.bad, self.parts = group, owner, bad, parts

    def public_bytes_raw(self):
        return self.parts['raw']

    def public_bytes(self, encoding, format):
        if encoding is Encoding.X962 and format is PublicFormat.UncompressedPoint and self.group in CURVES:
            return self.parts['point']
        if encoding is Encoding.Raw and format is PublicFormat.Raw and 'raw' in self.parts:
            return self.parts['raw']
        return bvar(f'{encoding} {format} of a key')

    def public_numbers(self):
        return Opaque('numbers', 'public numbers', y=self.parts['y'])


SIZE = {'x25519': 32, 'x448': 56, 'secp256r1': 32, 'secp384r1': 48, 'secp521r1': 66}
CURVES = ('secp256r1', 'secp384r1', 'secp521r1')


def distinct(kind, part):
    l = drawn(kind)
    for k in l[:-1]:
        assume(Not(beq(k.parts[part], l[-1].parts[part])))


def owner(kind, part, b):
    for k in drawn(kind):
        if branch(beq(k.parts[part], b)):
            return k
    return None


def library():
    for name, size, private, public in X.values():
        def generate(name=name, size=size):
            k = Key(name, raw=bvar(f'public {name} {len(keys())}', size))
            distinct(name, 'raw')
            return k

        def load(b, name=name, size=size):
            if branch(T(blen(b)) != size):
                raise ValueError(f'An {name} public key is {size} bytes long')
            return Public(name, owner(name, 'raw', b), sym.atom(f'low order {name}', b), raw=b)
        rt.METHODS[private, 'generate'] = generate
        rt.METHODS[public, 'from_public_bytes'] = load

    def new(curve, backend=None):
        n = SIZE[curve.name]
        k = Key(curve.name, point=concat(b'\4', bvar(f'point {len(keys())}', 2 * n)))
        distinct(curve.name, 'point')
        return k

    def point(curve, b):
        """any encoding of a point of the curve: uncompressed, or compressed"""
        n = SIZE[curve.name]
        if branch(Not(encodes(curve.name, b))):
            raise ValueError('Invalid EC key')
        return Public(curve.name, owner(curve.name, 'point', b), point=b)
    rt.MODELS[ec.generate_private_key] = new
    rt.METHODS[ec.EllipticCurvePublicKey, 'from_encoded_point'] = point
    rt.MODELS[dh.DHParameterNumbers] = Params
    rt.MODELS[dh.DHPublicNumbers] = lambda y, pn: Opaque('numbers', 'dh', public_key=lambda: pn.public(y))


def on_curve(name, b):
    return cond(sym.atom(f'on {name}', b))


def encodes(name, b):
    n = SIZE[name]
    return Or(And(T(blen(b)) == 1 + 2 * n, first(b, 4), on_curve(name, b)),
              And(T(blen(b)) == 1 + n, Or(first(b, 2), first(b, 3)), on_curve(name, b)),
              *[beq(k.parts['point'], b) for k in drawn(name)])


def first(b, v):
    return beq(bslice(b, 0, 1), bytes([v])) if ctx().must(T(blen(b)) >= 1) else And(
        T(blen(b)) >= 1, z3.BoolVal(False) if ctx().must(T(blen(b)) == 0) else T(rt.bytes_seq(b).at(0)) == v)


class Params:
    __vc_ok__ = True

    def __init__(self, p, g, q=None):
        self.p, self.g, self.q = p, g, q

    @property
    def group(self):
        return f'dh of {hash((self.p, self.g))}'

    def parameters(self, backend=None):
        return self

    def generate_private_key(self):
        y = sint(f'public value {len(keys())}')
        n = (self.p.bit_length() + 7) // 8
        assume(And(T(y) > 1, T(y) < I(self.p - 1), T(y) >= I(256 ** (n - SPARE))))
        for k in drawn(self.group):
            assume(T(k.parts['y']) != T(y))
        return Key(self.group, y=y)

    def public(self, y):
        """any value: the exchange may refuse it (it does when out of range, or out of the subgroup)"""
        for k in drawn(self.group):
            if branch(T(k.parts['y']) == T(y)):
                return Public(self.group, k, y=y)
        return Public(self.group, None, sym.mkbool(Or(Not(And(T(y) > 0, T(y) < I(self.p))), cond(sym.atom('refused value', y)))), y=y)


# -- the obligations -------------------------------------------------------------------------------

def group(n):
    from siotls.crypto import TLSKeyExchange
    from siotls.iana import NamedGroup
    return TLSKeyExchange[NamedGroup(n)]


def share_ok(n, private, share):
    """the size and encoding of the standard, RFC 8446 4.2.8"""
    prove('a key is drawn', isinstance(private, Key))
    if not isinstance(private, Key):
        return
    if n in X:
        prove('the key is of the group', private.group == X[n][0])
        prove('the share is the public value', beq(share, private.parts['raw']))
        prove('the share has the size of the group', T(blen(share)) == X[n][1])
    elif n in EC:
        prove('the key is of the group', private.group == EC[n][0])
        prove('the share is the uncompressed point', beq(share, private.parts.get('point', b'')))
        prove('the share has the size of the group', T(blen(share)) == 1 + 2 * EC[n][1])
    else:
        prove('the key is of the group', private.group == f'dh of {hash((PRIMES[n], 2))}')
        prove('the share has the size of the group', T(blen(share)) == FF[n][0] // 8)
        if 'y' in private.parts:
            prove('the share is the public value, big endian', beq(share, ube(private.parts['y'], FF[n][0] // 8)))


def agree(n):
    def f():
        library()
        G = group(n)
        prove('the group is that of its number', int(G.iana_id) == n)
        (a, b) = G.init(), G.init()
        for x in (a, b):
            share_ok(n, *x)
        prove('each party has a key of its own', a[0] is not b[0])
        k1, e1 = attempt(G.resume, a[0], b[1])
        k2, e2 = attempt(G.resume, b[0], a[1])
        prove('the share of the other is accepted', e1 is None and e2 is None, f'{exc_name(e1)} {exc_name(e2)}')
        if e1 is None and e2 is None:
            prove('both have the same shared key', beq(k1, k2))
            prove('the shared key is that of the two keys', beq(k1, a[0].exchange(*([ec.ECDH()] if n in EC else []), b[0].public_key())))
            cover('agreed')
    return f


def valid(n, s):
    if n in X:
        return And(T(blen(s)) == X[n][1], Not(sym.atom(f'low order {X[n][0]}', s)))
    if n in EC:
        return And(T(blen(s)) == 1 + 2 * EC[n][1], first(s, 4), on_curve(EC[n][0], s))
    y = rt.int_from_bytes(s)
    return And(T(blen(s)) == FF[n][0] // 8, T(y) > 1, T(y) < I(PRIMES[n] - 1))


def foreign(n):
    """any share"""
    def f():
        from siotls.contents import alerts
        library()
        G = group(n)
        private, mine = G.init()
        s = bvar('share')
        k, e = attempt(G.resume, private, s)
        if e is None:
            c = of('combined')
            prove('the shared key is that of our key and the share', len(c) == 1 and c[0][1] is private)
            if n not in FF and len(c) == 1 and c[0][2].owner is private:
                # the share that is our own is one: its encoding is what was compared
                return
            prove('only a public value of the group yields a shared key', valid(n, s))
            cover('accepted')
        else:
            prove('a share is refused with a value error or an alert', isinstance(e, (ValueError, alerts.TLSFatalAlert)), exc_name(e))
            prove('a refusal does not carry a key', k is None)
            cover('refused')
    return f


def constants():
    from siotls.crypto import TLSKeyExchange
    from siotls.crypto import ffdhe
    from siotls.iana import NamedGroup
    want = {23: 'secp256r1', 24: 'secp384r1', 25: 'secp521r1', 29: 'x25519', 30: 'x448', 256: 'ffdhe2048', 257: 'ffdhe3072',
            258: 'ffdhe4096', 259: 'ffdhe6144', 260: 'ffdhe8192'}
    have = {int(k) for k in TLSKeyExchange._registry}
    prove('the ten groups are those of the standard', have == set(want), f'{sorted(have)}')
    for n, name in want.items():
        prove('the numbers of the groups', int(getattr(NamedGroup, name)) == n, name)
    for n, (bits, _) in FF.items():
        G = group(n)
        prove('the prime is that of RFC 7919', G.p == PRIMES[n], want[n])
        prove('the generator is that of RFC 7919', G.g == 2, want[n])
        prove('the order of the subgroup is that of RFC 7919', G.q == (PRIMES[n] - 1) // 2, want[n])
        prove('the size is that of the prime', G.p_length == bits // 8, want[n])
        table = getattr(ffdhe, 'groups', {}).get(NamedGroup(n))
        if table is not None:
            prove('the table of the groups is that of RFC 7919', tuple(table[:3]) == (PRIMES[n], 2, (PRIMES[n] - 1) // 2)
                  and table.p_length == bits // 8, want[n])
    for n, (size, private, public) in {k: v[1:] for k, v in X.items()}.items():
        cover(f'{n}')


def peer(side):
    """a refused share ends the handshake with an alert"""
    def f():
        from siotls import iana
        from siotls.contents import alerts
        if side == 'server':
            c = server(set())
            ghost()['share outcomes'] = ['ok', 'bad', 'weak']
            before = state(c)
            e = receive(c, hello(set()))
        else:
            contracts()
            c = connection('client', config('client'), server_hostname='server.example')
            ghost()['share outcomes'] = ['ok', 'bad', 'weak']
            assume(isin(iana.NamedGroup(29), c.config.key_exchanges))
            assume(isin(iana.CipherSuites(0x1301), c.config.cipher_suites))
            enter(c, 'ClientWaitServerHello', key_shares={iana.NamedGroup(29): Opaque('private key', 'ours')},
                  client_hello_transcript_hashes={'sha256': bvar('h256'), 'sha384': bvar('h384')})
            c._transcript.done.append(('message', 'server', 2))
            before = state(c)
            E = iana.ExtensionType
            m = Content_(content_type=iana.ContentType.HANDSHAKE, msg_type=iana.HandshakeType.SERVER_HELLO,
                         cipher_suite=iana.CipherSuites(0x1301), random=bvar('random of the server', 32),
                         legacy_session_id_echo=bvar('session id'), extensions={
                             E.SUPPORTED_VERSIONS: extension(selected_version=iana.TLSVersion.TLS_1_3),
                             E.KEY_SHARE: extension(group=iana.NamedGroup(29), key_exchange=bvar('share of the server'))})
            e = process(c, m)
        r = of('resume')
        prove('the share is combined once', len(r) <= 1)
        if len(r) != 1:
            # a hello without a share
            return
        if r[0][4] == 1:
            prove('a valid share is accepted', e is None and state(c) != before, exc_name(e))
            cover('accepted')
        else:
            prove('a refused share ends in a fatal alert', isinstance(e, alerts.TLSFatalAlert), exc_name(e))
            prove('the handshake does not go on', state(c) == before)
            prove('no key is installed', not of('handshake_keys'))
            prove('nothing is answered to a refused share', not [s for s in of('sent') if s[2] == 22])
            cover('refused')
    return f


for _n in (*X, *EC, *FF):
    TASKS.append(Task(f'agreement in group {_n}', agree(_n), cost=5))
    TASKS.append(Task(f'any share of group {_n}', foreign(_n), cost=5))
TASKS.append(Task('constants', constants))
TASKS.append(Task('a refused share, server', peer('server')))
TASKS.append(Task('a refused share, client', peer('client')))
