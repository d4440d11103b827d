"""C12: application data on live connections, at every point of the handshake and after closing or failing."""
from oracle.run import case, Fail
from oracle import tls, live

POINTS = live.CLIENT[:-1] + live.SERVER[:-1]


def need(x, what):
    if not x:
        raise Fail(what)


def attempt(f, *a):
    try:
        f(*a)
    except Exception as e:  # noqa: BLE001
        return e


def early(o):
    while True:
        for point in POINTS:
            for what in ('send', 'receive', 'receive wrapped', 'close sending', 'close receiving', 'close both', 'peer closes', 'fail'):
                yield dict(point=point, what=what, suite=o.rng.choice(live.SUITES), hrr=o.rng.randrange(2), size=o.rng.choice([0, 1, 100, 20000]),
                           again=o.rng.sample(['send', 'close sending', 'close receiving', 'receive', 'initiate'], 5))


def act(n, p, what, size, point):
    if what == 'send':
        return attempt(n.send_data, b'd' * size)
    if what in ('receive', 'receive wrapped'):
        return tls.receive(n, p.send(23, b'd' * max(size, 1)))
    if what == 'close sending':
        return attempt(n.close_sending_end)
    if what == 'close receiving':
        return attempt(n.close_receiving_end)
    if what == 'initiate':
        return attempt(n.initiate_connection)
    if what == 'peer closes':
        return tls.receive(n, p.send(21, b'\1\0'))
    if what == 'fail':
        return tls.receive(n, p.send(21, b'\2\x28'))


@case(early)
def before(point, what, suite, hrr, size, again):
    """before the handshake is complete"""
    n, p = live.at(point, suite=suite, hrr=hrr and 'Start' not in point and point not in ('ClientWaitServerHello', 'ServerWaitClientHello'))
    p.feed(n.data_to_send())
    got = len(p.got)
    st = n._state
    if what == 'close both':
        e = act(n, p, 'close sending', size, point) or act(n, p, 'close receiving', size, point)
    else:
        e = act(n, p, what, size, point)
    out = n.data_to_send()
    name = f'{what} in {point}'
    need(not n.is_connected() and tls.state(n) != 'Connected', f'{name}: reported as connected')
    need(not n.data_to_read(), f'{name}: data is delivered')
    if what == 'send':
        need(e is not None and not out and n._state is st, f'{name}: {e!r}, {len(out)} bytes queued')
        return
    p.feed(out)
    new = p.got[got:]
    if what.startswith('receive'):
        need(type(e).__name__ == 'UnexpectedMessage' and tls.state(n) == 'Failed' and new == [(21, b'\2\x0a')],
             f'{name}: {e!r} {new}')
    elif what in ('close sending', 'close both'):
        need(e is None and [m for m in new if m == (21, b'\1\0')] == new and len(new) == 1, f'{name}: {e!r} {new}')
    elif what == 'close receiving':
        need(e is None and not new, f'{name}: {e!r} {new}')
    need(tls.state(n) == 'Failed', f'{name}: {tls.state(n)}')
    for a in again:
        e = act(n, p, a, size, point)
        need(not n.data_to_send(), f'{name}, then {a}: something is queued')
        need(not n.data_to_read(), f'{name}, then {a}: data is delivered')
        need(tls.state(n) == 'Failed' and not n.is_connected(), f'{name}, then {a}: {tls.state(n)}')
        need(a not in ('send', 'initiate') or e is not None, f'{name}, then {a}: accepted')


def lives(o):
    r = o.rng
    while True:
        ops = [r.choice(['send', 'send', 'receive', 'receive', 'receive', 'read', 'close sending', 'close receiving', 'peer closes', 'warning', 'fail'])
               for _ in range(r.randrange(2, 14))]
        if r.randrange(2):
            ops = [x for x in ops if x in ('send', 'receive', 'read', 'warning')] + ops[-2:]
        yield dict(side=r.choice(['client', 'server']), suite=r.choice(live.SUITES), ops=ops, seed=r.randrange(1 << 30))


@case(lives)
def established(side, suite, ops, seed):
    """a history after the handshake, against a model of it"""
    import random
    r = random.Random(seed)
    n, p = live.connected(side, suite=suite)
    p.feed(n.data_to_send())
    got = len(p.got)
    sending, receiving, failed = True, True, False
    pending, sent, closes = b'', [], 0
    for i, op in enumerate(ops):
        name = f'{ops[:i + 1]}'
        size = r.choice([0, 1, 17, 300, 4079, 16367, 16368, 40000])
        data = r.randbytes(size)
        if op == 'send':
            e = attempt(n.send_data, data)
            need((e is None) == (sending and not failed), f'{name}: {e!r}')
            if e is None:
                sent.append(data)
        elif op == 'receive':
            data = data[:16384 * 3]
            e = tls.receive(n, p.send(23, data, pad=r.choice([0, 5]) if len(data) < 16000 else 0))
            if failed:
                need(e is None, f'{name}: {e!r}')
            elif not receiving:
                need(e is not None, f'{name}: accepted')
                # refused outright: nothing is processed, the connection is as before
            else:
                need(e is None, f'{name}: {e!r}')
                pending += data
        elif op == 'read':
            d = n.data_to_read()
            need(bytes(d) == pending, f'{name}: {len(d)} bytes read, {len(pending)} were received')
            pending = b''
        elif op == 'close sending':
            e = attempt(n.close_sending_end)
            need(e is None, f'{name}: {e!r}')
            closes += sending and not failed
            sending = False
        elif op == 'close receiving':
            e = attempt(n.close_receiving_end)
            need(e is None, f'{name}: {e!r}')
            receiving = receiving and failed
        elif op == 'warning':
            e = tls.receive(n, p.send(21, b'\1\x5a'))
            need((e is None) == (failed or receiving), f'{name}: {e!r}')
        elif op == 'peer closes':
            e = tls.receive(n, p.send(21, b'\1\0'))
            need((e is None) == (failed or receiving), f'{name}: {e!r}')
            receiving = receiving and failed
        elif op == 'fail' and receiving and not failed:
            e = tls.receive(n, p.send(21, b'\2\x28'))
            need(e is not None, f'{name}: accepted')
            failed = True
        p.feed(n.data_to_send())
        new = p.got[got:]
        need(b''.join(d for t, d in new if t == 23) == b''.join(sent), f'{name}: what is sent is not the data accepted')
        need(sum(m == (21, b'\1\0') for m in new) == closes, f'{name}: {sum(m == (21, bytes([1, 0])) for m in new)} close notifies, not {closes}')
        if failed:
            need(tls.state(n) == 'Failed' and not n.is_connected(), f'{name}: {tls.state(n)}')
        else:
            need(bool(n.is_connected()) == receiving, f'{name}: connected {n.is_connected()}, receiving {receiving}')
        if closes and not failed and new:
            need([m for m in new if m[0] != 21 or m[1] == b'\1\0'][-1] == (21, b'\1\0'), f'{name}: something follows the close notify')
    d = n.data_to_read()
    need(bytes(d) == pending, f'{ops}: {len(d)} bytes read at the end, {len(pending)} were received')
