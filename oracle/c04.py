"""C04 executable contracts: arbitrary bytes, mutations and truncations of valid messages."""
from oracle.run import case, Fail
from oracle import wire as W, msgs as M
from siotls.serial import SerialIO, TLSBufferError
from siotls.contents import Content, alerts
import signal


class Slow(BaseException):
    pass


def _late(*a):
    raise Slow


def decode(parser, data, tail, kw, end=None):
    s = SerialIO(data + tail)
    signal.signal(signal.SIGALRM, _late)
    signal.setitimer(signal.ITIMER_REAL, 8)
    try:
        got = parser(s, **kw)
    except (alerts.TLSFatalAlert, TLSBufferError):
        got = None
        ok = False
    except Slow:
        raise Fail(f'{data[:200].hex()} is still being decoded after 8 s')
    except Exception as e:  # noqa: BLE001
        raise Fail(f'decoding raises {type(e).__name__}: {e}')
    else:
        ok = True
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    end = len(data) if end is None else end
    if s.tell() > end:
        raise Fail(f'{s.tell()} bytes consumed of the {end} given')
    if ok and s.tell() != end:
        raise Fail(f'only {s.tell()} bytes consumed of the {end} announced')
    return ok, got


def mutate(o, d):
    d = bytearray(d)
    for _ in range(o.rng.choice([1, 1, 1, 2, 4])):
        how = o.rng.randrange(7)
        if not d:
            d = bytearray(o.bytes(o.rng.randint(0, 8)))
            continue
        i = o.rng.randrange(len(d))
        if how == 0:
            d[i] = o.rng.choice([0, 1, 2, 255, 254, 128, o.rng.randrange(256), (d[i] + 1) & 255, (d[i] - 1) & 255])
        elif how == 1:
            del d[i:i + o.rng.choice([1, 1, 2, 3, 10])]
        elif how == 2:
            d[i:i] = o.bytes(o.rng.choice([1, 1, 2, 3]))
        elif how == 3:
            d = d[:i]
        elif how == 4:
            d += o.bytes(o.rng.choice([1, 2, 5]))
        elif how == 5:
            d[i:i + 2] = o.rng.choice([b'\0\0', b'\0\1', b'\xff\xff', b'\0\2'])
        else:
            j = o.rng.randrange(len(d))
            a, b = min(i, j), max(i, j)
            d[a:a] = d[a:b][:50]
    return bytes(d)


TYPES = sorted({e[0] for e in W.EXT.values()})
MSGS = [W.CH, W.SH, W.EE, W.CR, W.CE, W.HRR, W.NST]


def small_bodies():
    yield b''
    for a in range(256):
        yield bytes([a])
    for a in (0, 1, 2, 3, 5, 255):
        for b in (0, 1, 2, 3, 4, 5, 8, 255):
            yield bytes([a, b])
            for c in (0, 1, 2, 3, 255):
                yield bytes([a, b, c])
                yield bytes([a, b, c, 0])
                yield bytes([a, b, c, 1])
                for d in (0, 1, 2):
                    yield bytes([a, b, c, d, 0])
                    yield bytes([a, b, c, d, 1, 0])
                    yield bytes([a, b, c, d, 0, 1, 65])


def gen_ext(o):
    for n, e in W.EXT.items():
        for m in e[1]:
            for b in small_bodies():
                yield dict(t=e[0], m=m, body=b.hex())
    for t in TYPES + [3, 70, 65535]:
        for m in MSGS:
            yield dict(t=t, m=m, body='')


@case(gen_ext)
def extension(t, m, body):
    w = W.u(2, t) + W.vec(2, bytes.fromhex(body))
    for kw in ({}, dict(config=None, nconfig=None)) if m in (W.CH, W.SH, W.EE, W.HRR) else ({},):
        decode(W.X.Extension.parse, w, b'\0\1\2', dict(handshake_type=W.ht(m), **kw))


def gen_mut(o):
    names = list(W.EXT)
    while True:
        n = o.rng.choice(names)
        f = W.gen_ext(o, n)
        if W.too_long(n, f):
            continue
        b = W.ext_body(n, f)
        yield dict(t=W.EXT[n][0], m=o.rng.choice(W.EXT[n][1]), body=mutate(o, b)[:65535].hex())


@case(gen_mut)
def extension_mutated(t, m, body):
    extension(t, m, body)


def gen_trunc(o):
    """every truncation of the outer bytes"""
    for n in W.EXT:
        for _ in range(2):
            f = W.gen_ext(o, n)
            if not W.too_long(n, f):
                w = W.ext_wire(n, f)
                for i in list(range(min(len(w), 40))) + [len(w) - 1]:
                    yield dict(m=W.EXT[n][1][0], w=w[:i].hex())


@case(gen_trunc)
def extension_truncated(m, w):
    w = bytes.fromhex(w)
    if decode(W.X.Extension.parse, w, b'', dict(handshake_type=W.ht(m)))[0]:
        raise Fail('a truncated extension is accepted')


KINDS = list(M.HANDSHAKES) + list(M.PLAIN)
STUBS = {4: 'NewSessionTicket', 5: 'EndOfEarlyData', 24: 'KeyUpdate'}


def gen_msg(o):
    while True:
        k = o.rng.choice(KINDS)
        f = M.gen(o, k)
        if k in M.PLAIN:
            d = M.wire(f) if o.rng.random() < .3 else mutate(o, M.wire(f))
        else:
            b = M.body(f)
            b = b if o.rng.random() < .3 else mutate(o, b)
            n = len(b) if o.rng.random() < .7 else max(0, len(b) + o.rng.choice([-5, -2, -1, 1, 2, 100]))
            t = M.HANDSHAKES[k] if o.rng.random() < .9 else o.rng.randrange(256)
            d = bytes([t]) + n.to_bytes(3, 'big') + b
        yield dict(ct=M.content_type(f) if o.rng.random() < .97 else o.rng.randrange(256), d=d.hex(),
                   side=o.rng.choice(['client', 'server']), type=o.rng.choice([0, 2, 1]))


@case(gen_msg)
def message(ct, d, side, type):
    d = bytes.fromhex(d)
    c, n = M.receiver(dict(side=side, type=0 if type == 1 else type))
    if type == 1:
        n.client_certificate_type = n.server_certificate_type = None
    try:
        p = Content.get_parser(ct)
    except alerts.TLSFatalAlert:
        return
    except Exception as e:  # noqa: BLE001
        raise Fail(f'content type {ct}: {e!r}')
    end = None
    if ct == 22 and len(d) >= 4:
        end = min(len(d), 4 + int.from_bytes(d[1:4], 'big'))
    plain = ct in (20, 21)
    ok, got = decode(p.parse, d, b'', dict(config=c, nconfig=n), end if not plain else None) if not plain else \
        relaxed(p.parse, d, dict(config=c, nconfig=n))
    if ok and not isinstance(got, Content):
        raise Fail(f'decoding returns {got!r}', 'stub:' + STUBS[d[0]] if ct == 22 and d[0] in STUBS and d[1:4] == b'\0\0\0' and got is None else None)


def relaxed(parse, d, kw):
    """content types of a fixed size may leave bytes, for the caller to refuse"""
    s = SerialIO(d)
    try:
        return True, parse(s, **kw)
    except (alerts.TLSFatalAlert, TLSBufferError):
        return False, None
    except Exception as e:  # noqa: BLE001
        raise Fail(f'decoding raises {type(e).__name__}: {e}')


def gen_tiny(o):
    for ct in range(256):
        for d in (b'', b'\0', b'\1', b'\2', b'\1\0', b'\2\x32', b'\2\xee', b'\xff\0', b'\1\0\0', b'\1\0\5abcde', b'\2\xff\xff'):
            yield dict(ct=ct, d=d.hex(), side='client', type=0)
    for t in range(256):
        for b in (b'', b'\0', b'\0\0', b'\0\0\0', b'\0\0\0\0', b'\0\0\1a', b'\3\3', b'\0\0\0\4\0\0\0\0', b'\1a\0\0\0'):
            for side in ('client', 'server'):
                yield dict(ct=22, d=(bytes([t]) + len(b).to_bytes(3, 'big') + b).hex(), side=side, type=0)
                yield dict(ct=22, d=(bytes([t]) + len(b).to_bytes(3, 'big') + b).hex(), side=side, type=2)


@case(gen_tiny)
def tiny(ct, d, side, type):
    message(ct, d, side, type)


def gen_nested(o):
    """an inner length reaching past the end of the enclosing field, with bytes to take after it"""
    for t in (0, 2):
        for side in ('client', 'server'):
            for inner in range(0, 14):
                for outer in range(0, 14):
                    yield dict(t=t, side=side, inner=inner, outer=outer)


@case(gen_nested)
def nested(t, side, inner, outer):
    rest = b'\0' * 40
    b = b'\0' + inner.to_bytes(3, 'big') + rest
    d = bytes([11]) + outer.to_bytes(3, 'big') + b
    c, n = M.receiver(dict(side=side, type=t))
    decode(Content.get_parser(22).parse, d, b'', dict(config=c, nconfig=n), 4 + outer)
