"""C11: live handshakes of the real server with an independent client."""
from oracle.run import case, Fail
from oracle import tls, live, pki

conf, conn, iana = tls.siotls()
KEYS = {'rsa': [0x0804, 0x0805, 0x0806, 0x0401, 0x0501, 0x0601], 'p256': [0x0403], 'p384': [0x0503], 'p521': [0x0603],
        'ed25519': [0x0807], 'ed448': [0x0808]}
ALGS = sorted(set().union(*KEYS.values()))


def need(x, what):
    if not x:
        raise Fail(what)


def setup(kind, material, suites, algs, chain, hrr, types, extra=(), service=None, **kw):
    c, k = pki.leaf(kind=kind)
    d = dict(private_key=k, cipher_suites=live.suites(live.SUITES), key_exchanges=live.groups([29, 23, 24]),
             signature_algorithms=live.algs(algs))
    certs = [c, pki.ca()[0], pki.ca('another', 'p256', 3)[0]][:chain]
    if material in ('x509', 'both'):
        d['certificate_chain'] = certs
    if material in ('raw', 'both'):
        d['public_key'] = k.public_key()
    n = conn.TLSConnection(conf.TLSConfiguration('server', **d), ocsp_service=service)
    es = list(extra)
    if types:
        es.append((20, tls.vec(1, bytes(types))))
    p = tls.Client(suites=suites, groups=[29, 23], shares=[] if hrr else [29], extra=es, algs=ALGS, **kw)
    n.initiate_connection()
    return n, p, k, certs


def flight(n, p, k, certs, kind, algs, want_raw, hrr):
    order = [m[0] if t == 22 else t for t, m in p.got]
    need(order == ([2, 20] if hrr else []) + [2, *([] if hrr else [20]), 8, 11, 15, 20], f'the flight is {order}')
    need(p.bad is None, f'{p.bad}')
    if want_raw:
        need([c for c, _ in p.certs] == [pki.spki(k.public_key())], 'the raw key presented is not that of the configuration')
    else:
        need([c for c, _ in p.certs] == [pki.der(c) for c in certs], 'the chain presented is not that of the configuration')
    alg, sig = p.cv
    need(alg in KEYS[kind] and alg in algs and alg in p.algs, f'the algorithm {alg:04x} is not one of both sides and the key')
    need(tls.verify(k.public_key(), alg, sig, tls.cv_input(p.th_cert)),
         'the signature is not by the private key over the context and the transcript up to the certificate')
    need(p.fin_ok, 'the finished value of the server is not over the transcript up to the certificate verify')
    need(tls.state(n) == 'ServerWaitFinished' and not n.is_connected(), f'the server is {tls.state(n)}')


def runs(o):
    while True:
        for kind in KEYS:
            for material in ('x509', 'raw', 'both'):
                algs = ALGS[:]
                o.rng.shuffle(algs)
                suites = o.rng.sample(live.SUITES, o.rng.randrange(1, 6))
                types = {'x509': [[], [0], [2, 0]], 'raw': [[2], [0, 2]], 'both': [[], [2], [0, 2], [0]]}[material]
                yield dict(kind=kind, material=material, suites=suites, algs=algs, chain=o.rng.randrange(1, 4),
                           hrr=o.rng.randrange(2), types=o.rng.choice(types), session=o.rng.choice(['', '11' * 32]),
                           bad=o.rng.choice(['', '', '', 'flip', 'short', 'empty', 'server', 'again', 'before', 'application', 'none']),
                           bit=o.rng.randrange(32))


@case(runs)
def proof_of_key(kind, material, suites, algs, chain, hrr, types, session, bad, bit):
    """the flight of the server, then a finished that is right or wrong"""
    n, p, k, certs = setup(kind, material, suites, algs, chain, hrr, types, session=bytes.fromhex(session))
    if hrr:
        need(tls.receive(n, p.hello()) is None, 'hello refused')
        p.feed(n.data_to_send())
        p.shares[29] = tls.Share(29)
    e = tls.receive(n, p.hello())
    need(e is None, f'hello refused: {e!r}')
    p.feed(n.data_to_send())
    flight(n, p, k, certs, kind, algs, material == 'raw' or material == 'both' and types == [2], hrr)
    v = p.sch.finished(p.sch.c_hs, p.th_fin)
    if bad == 'none':
        e = tls.receive(n, p.send(23, b'early'))
        need(e is not None and tls.state(n) == 'Failed', 'application data is accepted before the finished of the client')
        return
    v = {'flip': v[:bit] + bytes([v[bit] ^ 4]) + v[bit + 1:], 'short': v[:-1], 'empty': b'',
         'server': p.sch.finished(p.sch.s_hs, p.th_fin), 'before': p.sch.finished(p.sch.c_hs, p.th(len(p.tr) - 1)),
         'application': p.sch.finished(p.sch.c_ap, p.th_fin)}.get(bad, v)
    e = tls.receive(n, p.finished(v))
    p.feed(n.data_to_send())
    if bad in ('', 'again'):
        need(e is None and tls.state(n) == 'Connected' and n.is_connected(), f'a right finished value is refused: {e!r}')
        p.application()
        if bad == 'again':
            e = tls.receive(n, p.send(22, tls.hs(20, v)))
            need(e is not None, 'a second finished is accepted')
            return
        e = tls.receive(n, p.send(23, b'hello'))
        need(e is None and bytes(n.data_to_read()) == b'hello', f'the application keys of the client are not in use: {e!r}')
        n.send_data(b'bye')
        p.feed(n.data_to_send())
        need(p.got[-1] == (23, b'bye'), 'the application keys of the server are not in use')
        return
    need(e is not None and tls.state(n) == 'Failed' and not n.is_connected(), f'a wrong finished value is accepted ({bad})')
    want = (2, 50) if bad in ('short', 'empty') else (2, 51)
    need(p.alerts() == [want] or bad in ('short', 'empty') and p.alerts() == [(2, 51)], f'a wrong finished value ({bad}) is answered by {p.alerts()}')


def hellos(o):
    while True:
        for change in ('', 'random', 'suites', 'groups', 'algs', 'share', 'no share', 'order', 'random tail', 'no versions', 'bad share'):
            yield dict(change=change, suite=o.rng.choice(live.SUITES), kind=o.rng.choice(['p256', 'rsa', 'ed25519']),
                       bit=o.rng.randrange(256))


@case(hellos)
def second_hello(change, suite, kind, bit):
    """a second hello that differs from the first"""
    rest = [s for s in live.SUITES if s != suite]
    n, p, k, certs = setup(kind, 'x509', [suite], ALGS, 2, 1, [])
    need(tls.receive(n, p.hello()) is None, 'hello refused')
    p.feed(n.data_to_send())
    p.shares[29] = tls.Share(29)
    selected = n._signature.iana_id
    over = {}
    if change == 'random':
        r = bytearray(p.random)
        r[bit // 8] ^= 1 << bit % 8
        over['random'] = bytes(r)
    elif change == 'random tail':
        over['random'] = p.random[:31] + bytes([p.random[31] ^ 0x80])
    elif change == 'suites':
        over['suites'] = rest
    elif change == 'order':
        over['suites'] = rest[:2] + [suite] + rest[2:]
    elif change == 'groups':
        over['groups'] = [23, 24]
    elif change == 'algs':
        over['algs'] = [a for a in ALGS if a != selected]
    elif change == 'share':
        over['shares'] = {23: tls.Share(23).share}
    elif change == 'no share':
        p.shares.clear()
    elif change == 'bad share':
        over['shares'] = {29: bytes(32)}
    elif change == 'no versions':
        p.drop.add(43)
    e = tls.receive(n, p.hello(**over))
    p.feed(n.data_to_send())
    if change in ('', 'order'):
        need(e is None, f'a second hello that keeps what was selected is refused: {e!r}')
        flight(n, p, k, certs, kind, ALGS, False, 1)
        return
    need(e is not None and tls.state(n) == 'Failed', f'a second hello with another {change} is accepted')
    need(p.alerts()[-1:] and p.alerts()[-1][0] == 2, f'a second hello with another {change} is not answered with a fatal alert')
    if change.startswith('random'):
        need(p.alerts() == [(2, 47)], f'another random is answered by {p.alerts()}')


class Service:
    def __init__(self, response):
        self.response, self.calls = response, []

    def request(self, url, req):
        self.calls.append(('request', url, req))
        return self.response

    def cache(self, *a):
        self.calls.append(('cache', *a))

    def uncache(self, *a):
        self.calls.append(('uncache', *a))


def staples(o):
    while True:
        for how in ('good', 'revoked', 'expired', 'other', 'not asked', 'no service', 'leaf only'):
            yield dict(how=how, kind=o.rng.choice(['p256', 'rsa', 'ed25519']))


@case(staples)
def stapled(how, kind):
    """a status is sent if asked for, and valid"""
    c, k = pki.leaf(kind=kind)
    cc, ck = pki.ca()
    r = {'revoked': lambda: pki.status(c, cc, ck, good=False), 'expired': lambda: pki.status(c, cc, ck, this=-9, next_=-1),
         'other': lambda: pki.status(pki.leaf('example.net')[0], cc, ck)}.get(how, lambda: pki.status(c, cc, ck))()
    s = None if how == 'no service' else Service(r)
    n, p, k, certs = setup(kind, 'x509', live.SUITES, ALGS, 1 if how == 'leaf only' else 2, 0, [],
                           extra=[] if how == 'not asked' else [(5, b'\1\0\0\0\0')], service=s)
    e = tls.receive(n, p.hello())
    need(e is None, f'hello refused: {e!r}')
    p.feed(n.data_to_send())
    flight(n, p, k, certs, kind, ALGS, False, 0)
    got = p.certs[0][1].get(5)
    if how == 'good':
        need(got == b'\1' + tls.vec(3, r), 'a valid status is not sent')
    else:
        need(got is None, f'a status is sent: {how}')
