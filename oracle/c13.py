"""C13: errors of every kind on live connections, at every point."""
from oracle.run import case, Fail
from oracle import tls, live

POINTS = live.CLIENT + live.SERVER[:-1] + ['ServerConnected']
ALERT = {'DecodeError': 50, 'UnexpectedMessage': 10, 'BadRecordMac': 20, 'RecordOverflow': 22, 'InternalError': 80,
         'IllegalParameter': 47, 'DecryptError': 51, 'HandshakeFailure': 40, 'ProtocolVersion': 70, 'MissingExtension': 109,
         'UnsupportedCertificate': 43, 'BadCertificate': 42, 'NoApplicationProtocol': 120, 'UnsupportedExtension': 110,
         'CertificateUnknown': 46, 'UnrecognizedName': 112, 'DecompressionFailure': 30, 'AccessDenied': 49}


def need(x, what):
    if not x:
        raise Fail(what)


def attempt(f, *a):
    try:
        f(*a)
    except Exception as e:  # noqa: BLE001
        return e


BAD = ['garbage', 'unknown type', 'overflow', 'empty record', 'empty handshake', 'trailing', 'cut', 'mac', 'short seal', 'no type',
       'fatal', 'fatal unknown', 'bad level', 'alert too long', 'alert too short', 'app', 'heartbeat', 'ccs', 'ccs protected', 'two',
       'stray', 'unknown handshake', 'interleaved', 'long handshake', 'empty app', 'bad extension', 'user canceled', 'no data']


def runs(o):
    while True:
        for point in POINTS:
            for bad in BAD:
                yield dict(point=point, bad=bad, suite=o.rng.choice(live.SUITES), closed=o.rng.choice([0, 0, 1]),
                           x=o.rng.randrange(256), after=o.rng.sample(['send', 'close', 'close receiving', 'receive', 'initiate', 'rekey', 'good'], 7))


def make(p, bad, x):
    t = [20, 21, 22, 23][x % 4]
    return {
        'garbage': lambda: bytes([x or 1]) * 4 + b'\0\x05' + bytes([x]) * 9,
        'unknown type': lambda: p.record(25 + x % 200, b'abc'),
        'overflow': lambda: tls.u(1, t) + b'\3\3' + tls.u(2, 16384 + 257 + x) + b'x',
        'empty record': lambda: p.record(21, b''),
        'empty handshake': lambda: p.record(22, b''),
        'trailing': lambda: p.record(21, b'\1\0' + bytes(1 + x % 9)),
        'cut': lambda: p.record(22, tls.hs(1 + x % 20, b'')),
        'mac': lambda: flip(p.record(21, b'\1\x5a'), x) if p.out else p.record(21, b'\2'),
        'short seal': lambda: b'\x17\3\3\0' + bytes([x % 17]) + bytes(x % 17),
        'no type': lambda: p.record(0, b'\0' * (x % 20)),
        'fatal': lambda: p.record(21, bytes([2, [10, 20, 22, 40, 42, 47, 50, 51, 80, 109][x % 10]])),
        'fatal unknown': lambda: p.record(21, bytes([2, 200 + x % 50])),
        'bad level': lambda: p.record(21, bytes([3 + x % 200, 40])),
        'alert too long': lambda: p.record(21, b'\2\x28\0'),
        'alert too short': lambda: p.record(21, b'\2'),
        'app': lambda: p.record(23, b'data'),
        'heartbeat': lambda: p.record(24, b'\1\0\1a' + bytes(16)),
        'ccs': lambda: b'\x14\3\3\0\1\2',
        'ccs protected': lambda: p.record(20, b'\1'),
        'two': lambda: p.record(22, tls.hs(8, b'\0\0') + tls.hs(11, b'\0\0\0\0')),
        'stray': lambda: p.record(22, tls.hs([1, 2, 8, 13, 15, 20, 4, 5, 24][x % 9], bytes(x % 5))),
        'unknown handshake': lambda: p.record(22, tls.hs(100 + x % 100, b'abc')),
        'interleaved': lambda: p.record(22, b'\x08\0\0') + p.record(21, b'\1\x5a'),
        'long handshake': lambda: p.record(22, tls.hs(8, b'\0\0') + b'\0'),
        'empty app': lambda: p.record(23, b''),
        'bad extension': lambda: p.record(22, tls.hs(8, tls.vec(2, b'\0\x2b\0\5\0')), ),
        'user canceled': lambda: p.record(21, b'\2\x5a'),
    }[bad]()


def flip(b, x):
    i = 5 + x % (len(b) - 5)
    return b[:i] + bytes([b[i] ^ 1]) + b[i + 1:]


@case(runs)
def errors(point, bad, suite, closed, x, after):
    """something wrong is received"""
    n, p = live.connected('server', suite=suite) if point == 'ServerConnected' else live.at(point, suite=suite)
    p.feed(n.data_to_send())
    on = point in ('Connected', 'ServerConnected')
    if closed and on:
        n.close_sending_end()
        p.feed(n.data_to_send())
    got = len(p.got)
    sends = n._state.can_send
    name = f'{bad} in {point}{" (closed)" if closed else ""}'
    before = n._state
    if bad == 'no data':
        e = tls.receive(n, b'')
        need(isinstance(e, ValueError) and n._state is before and not n.data_to_send(), f'{name}: {e!r}')
        return
    protected = n._cipher.must_encrypt
    e = tls.receive(n, make(p, bad, x))
    out = n.data_to_send()
    p.feed(out)
    new = p.got[got:]
    if e is None:
        need(tls.state(n) == tls_name(before) or not new, f'{name}: no error, but {new}')
        return
    need(tls.state(n) == 'Failed', f'{name}: {e!r} leaves {tls.state(n)}')
    if sends:
        alert = new[-1:] and new[-1][0] == 21 and new[-1][1]
        extra = [m for m in new if m[0] not in (20, 22)]
        need(alert and len(alert) == 2 and alert[0] == 2 and len(extra) == 1, f'{name}: {e!r} is answered with {new}')
        want = getattr(e, 'description', None)
        want = 80 if want is None or not hasattr(e, 'level') else int(want)
        need(alert[1] == want, f'{name}: {e!r} is answered with the alert {alert[1]}')
        need(type(e).__name__ not in ALERT or ALERT[type(e).__name__] == alert[1], f'{name}: {e!r} is answered with the alert {alert[1]}')
    else:
        need(not out, f'{name}: something is queued after the sending end was closed')
    app = n.data_to_read()
    for a in after:
        if a == 'send':
            e = attempt(n.send_data, b'x')
        elif a == 'close':
            e = attempt(n.close_sending_end)
        elif a == 'close receiving':
            e = attempt(n.close_receiving_end)
        elif a == 'initiate':
            e = attempt(n.initiate_connection)
        elif a == 'rekey':
            e = attempt(n.rekey)
        elif a == 'good':
            e = tls.receive(n, p.record(23, b'late'))
        else:
            e = tls.receive(n, p.record(21, b'\1\0') + p.record(22, tls.hs(20, bytes(32))))
        need(tls.state(n) == 'Failed' and not n.is_connected(), f'{name}, then {a}: {tls.state(n)}')
        need(not n.data_to_send() and not n.data_to_read(), f'{name}, then {a}: something is queued or delivered')
        need(a not in ('send', 'initiate', 'rekey') or e is not None, f'{name}, then {a}: accepted')


def tls_name(s): return type(s).__name__


def warnings(o):
    while True:
        for side in ('client', 'server'):
            for d in (0, 90, 1, 200, 41, 100):
                yield dict(side=side, suite=o.rng.choice(live.SUITES), d=d, closed=o.rng.randrange(2))


@case(warnings)
def warning(side, suite, d, closed):
    """a warning or a close after the handshake is not answered with a fatal alert"""
    n, p = live.connected(side, suite=suite)
    p.feed(n.data_to_send())
    if closed:
        n.close_sending_end()
        p.feed(n.data_to_send())
    got = len(p.got)
    e = tls.receive(n, p.record(21, bytes([1, d])))
    p.feed(n.data_to_send())
    need(e is None and not p.got[got:], f'a warning alert {d} is answered: {e!r} {p.got[got:]}')
    need(n._state.can_receive == (d != 0), f'after a warning alert {d}: receiving is {n._state.can_receive}')


def limits(o):
    while True:
        for side in ('client', 'server'):
            for suite in (0x1301, 0x1302, 0x1304, 0x1305):
                yield dict(side=side, suite=suite, more=o.rng.randrange(1000))


@case(limits)
def limit(side, suite, more):
    """close to the usage limit of the keys"""
    n, p = live.connected(side, suite=suite)
    p.feed(n.data_to_send())
    c = n._cipher
    # the records up to there, without the seconds it takes to protect them
    c._write_seq = type(c._write_seq)(iter(range(c.usage_limit - 1024 + more, c.usage_limit)))
    e = attempt(n.receive_data, p.record(23, b'data'))
    if e is not None and type(n._state).__name__ != 'Failed':
        raise Fail(f'{e!r} left receive_data of a {type(n._state).__name__} connection whose keys are worn out',
                   key='rekey' if type(e) is NotImplementedError else None)
