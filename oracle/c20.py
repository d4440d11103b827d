"""C20: shares of an independent party, valid and not, against the real classes and in live handshakes."""
import importlib
import itertools
import os
import warnings
from oracle.run import case, Fail
from oracle import tls, live

warnings.filterwarnings('ignore')
conf, conn, iana = tls.siotls()
crypto = importlib.import_module('siotls.crypto')
alerts = importlib.import_module('siotls.contents.alerts')
SIZE = {29: 32, 30: 56, 23: 65, 24: 97, 25: 133, **{g: b // 8 for g, (b, _) in tls.FFDHE.items()}}
# y^2 = x^3 - 3x + b over p, SEC 2
CURVE = {
    23: (2 ** 256 - 2 ** 224 + 2 ** 192 + 2 ** 96 - 1, 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b),
    24: (2 ** 384 - 2 ** 128 - 2 ** 96 + 2 ** 32 - 1,
         0xb3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef),
    25: (2 ** 521 - 1, 0x051953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00),
}
P25519 = 2 ** 255 - 19
P448 = 2 ** 448 - 2 ** 224 - 1
LOW = {
    29: [(v).to_bytes(32, 'little') for v in (
        0, 1, 325606250916557431795983626356110631294008115727848805560023387167927233504,
        39382357235489614581723060781553021112529911719440698176882885853963445705823,
        P25519 - 1, P25519, P25519 + 1)],
    30: [v.to_bytes(56, 'little') for v in (0, 1, P448 - 1, P448, P448 + 1)],
}


def need(x, what):
    if not x:
        raise Fail(what)


def cls(g):
    return crypto.TLSKeyExchange[iana.NamedGroup(g)]


_short = {}


def short(g):
    """an exponent whose public value has a leading zero"""
    if g not in _short:
        p, n = tls.prime(g), SIZE[g]
        y, k = 4, 2
        step = pow(2, 2 ** 70 + 1, p)
        k = 2 ** 70 + 1
        y = step
        while y >> (8 * (n - 1)):
            y = y * 2 % p
            k += 1
        _short[g] = k
    return _short[g]


def every(o):
    for g in SIZE:
        yield dict(group=g, n=0)
    for g in (23, 24, 25, 29, 30, 256, 257):
        yield dict(group=g, n=0, zeros=1)
    for i in itertools.count(1):
        for g in SIZE:
            if g < 258 or i % 16 == 0:
                yield dict(group=g, n=i, zeros=i % 2)


def need_share(g, s):
    need(isinstance(s, bytes) and len(s) == SIZE[g], f'group {g}: a share of {len(s)} bytes')
    if g in CURVE:
        p, b = CURVE[g]
        n = SIZE[g] // 2
        need(s[0] == 4, f'group {g}: the share starts with {s[0]}')
        x, y = int.from_bytes(s[1:1 + n], 'big'), int.from_bytes(s[1 + n:], 'big')
        need(x < p and y < p and (y * y - x ** 3 + 3 * x - b) % p == 0, f'group {g}: the share is no point of the curve')
    if g in tls.FFDHE:
        need(1 < int.from_bytes(s, 'big') < tls.prime(g) - 1, f'group {g}: the share is no value of the group')


@case(every)
def agree(group, n, zeros=0):
    """with itself and with another implementation"""
    G = cls(group)
    (a, sa), (b, sb) = G.init(), G.init()
    need_share(group, sa)
    need_share(group, sb)
    need(sa != sb, 'two parties have the same share')
    try:
        k1, k2 = G.resume(a, sb), G.resume(b, sa)
    except Exception as e:
        raise Fail(f'group {group}: a share is refused: {e!r}') from e
    need(k1 == k2 and k1, f'group {group}: the two shared keys differ')
    o = tls.Share(group)
    if zeros and group in tls.FFDHE:
        o.k = short(group)
        o.share = pow(2, o.k, tls.prime(group)).to_bytes(SIZE[group], 'big')
    elif zeros:
        while not (o.share[1] == 0 if group in CURVE else o.share[-1] == 0):
            o = tls.Share(group)
    try:
        k = G.resume(a, o.share)
    except Exception as e:
        raise Fail(f'group {group}: the share {o.share[:4].hex()}... of another party is refused: {e!r}') from e
    need(k == o.shared(sa), f'group {group}: the shared key is not that of another party')


def sqrt(v, p):
    r = pow(v, (p + 1) // 4, p)
    return r if r * r % p == v % p else None


def bad(g, kind, x, good):
    """an invalid share of that kind, or None"""
    n = SIZE[g]
    if kind == 'long':
        return good + bytes([x % 256]) if x % 2 else good + os.urandom(x % 90 + 1)
    if kind == 'short':
        return good[:-1 - x % 20] if x % 3 else good[1:]
    if kind == 'padded':
        return b'\0' * (1 + x % 3) + good
    if kind == 'empty':
        return b''
    if kind == 'twice':
        return good + good
    if g in LOW:
        return {'low': LOW[g][x % len(LOW[g])]}.get(kind)
    if g in CURVE:
        p, b = CURVE[g]
        m = n // 2
        X, Y = int.from_bytes(good[1:1 + m], 'big'), int.from_bytes(good[1 + m:], 'big')
        return {'compressed': bytes([2 + Y % 2]) + good[1:1 + m],
                'hybrid': bytes([6 + Y % 2]) + good[1:], 'tag': bytes([[0, 1, 2, 3, 5, 8, 255][x % 7]]) + good[1:],
                'infinity': b'\0', 'zeros': b'\4' + bytes(2 * m),
                'off': b'\4' + good[1:1 + m] + ((Y + 1 + x) % p).to_bytes(m, 'big') if (Y + 1 + x) % p not in (Y, p - Y) else None,
                'other': tls.Share([c for c in CURVE if c != g][x % 2]).share,
                'wide': b'\4' + good[1:1 + m] + (Y + p).to_bytes(m, 'big') if (Y + p) >> (8 * m) == 0 else None}.get(kind)
    if g in tls.FFDHE:
        p = tls.prime(g)
        y = int.from_bytes(good, 'big')
        w = {'0': 0, '1': 1, 'p-1': p - 1, 'p': p, 'p+1': p + 1, 'p+2': p + 2, 'max': 2 ** (8 * n) - 1, 'y+p': y + p}.get(kind)
        if w is None or w >> (8 * n):
            return None
        return w.to_bytes(n, 'big')
    return None


KINDS = ['long', 'short', 'padded', 'empty', 'twice', 'low', 'compressed', 'hybrid', 'tag', 'infinity', 'zeros', 'off', 'other', 'wide',
         '0', '1', 'p-1', 'p', 'p+1', 'p+2', 'max', 'y+p']


def invalid(o):
    for x in itertools.count():
        for g in SIZE:
            if g > 257 and x > 4:
                continue
            for k in KINDS:
                yield dict(group=g, kind=k, x=x)


@case(invalid)
def refuse(group, kind, x):
    G = cls(group)
    private, mine = G.init()
    s = bad(group, kind, x, tls.Share(group).share if x % 2 else mine)
    if s is None:
        return
    try:
        k = G.resume(private, s)
    except (ValueError, alerts.TLSFatalAlert):
        return
    except Exception as e:
        raise Fail(f'group {group}: a share ({kind}) is refused with {e!r}') from e
    raise Fail(f'group {group}: the share ({kind}) {s[:8].hex()}... of {len(s)} bytes yields a key of {len(k)} bytes')


def lives(o):
    for x in itertools.count():
        for g in live.GROUPS:
            if g > 255 and x % 5:
                continue
            for k in KINDS:
                for side in ('client', 'server'):
                    yield dict(group=g, kind=k, x=x, side=side)


@case(lives)
def handshake(group, kind, x, side):
    """the share in a handshake ends it"""
    good = tls.Share(group)
    s = bad(group, kind, x, good.share)
    if not s:
        return
    if side == 'server':
        n = live.server(key_exchanges=live.groups([group]))
        n.initiate_connection()
        p = tls.Client(groups=[group], shares=[group])
        p.shares[group].share = s
        e = tls.receive(n, p.hello())
    else:
        n = live.client(key_exchanges=live.groups([group]))
        n.initiate_connection()
        p = tls.Server(group=group)
        p.feed(n.data_to_send())
        p.choose(None, group)
        es = [(43, tls.u(2, 0x0304)), (51, tls.u(2, group) + tls.vec(2, s))]
        m = tls.hs(2, b'\3\3' + p.random + tls.vec(1, p.ch['session']) + tls.u(2, p.suite) + b'\0'
                   + tls.vec(2, b''.join(tls.ext(*x) for x in es)))
        e = tls.receive(n, p.record(22, m))
    need(e is not None and tls.state(n) == 'Failed', f'the {side} goes on with the share ({kind}) {s[:8].hex()}... of group {group}')
    p.feed(n.data_to_send())
    need(p.alerts()[-1:] and p.alerts()[-1][0] == 2 and p.alerts()[-1][1] != 80, f'the {side} answers with {p.alerts()[-1:]}: {e!r}')


def once(o):
    yield {}


@case(once)
def constants():
    for g in tls.FFDHE:
        G, p = cls(g), tls.prime(g)
        need((G.p, G.g, G.q, G.p_length) == (p, 2, (p - 1) // 2, SIZE[g]), f'the parameters of group {g} are others')
