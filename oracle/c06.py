"""C06: the same scenario delivered at once, byte by byte, and cut anywhere, to connections of both sides."""
from oracle.run import case, Fail
from oracle import tls, live, pki

BAD = ['none', 'none', 'none', 'interleaved', 'empty handshake', 'overflow', 'mac', 'bad ccs', 'garbage', 'close', 'two', 'fatal', 'trailing',
       'unknown', 'short length']


def need(x, what):
    if not x:
        raise Fail(what)


def plans(o):
    r = o.rng
    while True:
        for side in ('client', 'server'):
            for bad in BAD:
                yield dict(side=side, suite=r.choice(live.SUITES), hrr=int(r.random() < .3), frag=r.choice([1, 3, 4, 7, 30, 50, 100, 100, 100, 1000, 16384, 16384]),
                           ccs=r.choice([0, 0, 1, 2, 5]), bad=bad, when=r.randrange(12), x=r.randrange(256), pad=r.choice([0, 0, 3]),
                           app=[r.randrange(1, 60) for _ in range(r.randrange(4))], cut=r.random() < .4 and r.random(), seed=r.randrange(2 ** 32))


class Stream:
    """the bytes of one flight, and where each of its messages ends"""
    def __init__(self, p, plan):
        self.p, self.plan, self.b, self.ends, self.count = p, plan, b'', [], 0

    def message(self, t, m):
        p, plan = self.p, self.plan
        first = True
        frag = plan['frag'] if t == 22 else 16384
        for i in range(0, len(m), frag):
            if self.count == plan['when'] and plan['bad'] != 'none':
                self.bad(not first)
            for _ in range(plan['ccs'] if self.count % 3 == plan['x'] % 3 else 0):
                self.b += b'\x14\3\3\0\1\1'
            self.b += p.record(t, m[i:i + frag], plan['pad'])
            first = False
        self.ends.append(len(self.b))
        self.count += 1

    def bad(self, inside):
        p, x = self.p, self.plan['x']
        k = self.plan['bad']
        self.count += 1
        if k == 'interleaved':
            self.b += p.record(21, b'\1\0') if x % 2 else p.record(23, b'data')
        elif k == 'empty handshake':
            self.b += p.record(22, b'')
        elif k == 'overflow':
            self.b += b'\x17\3\3' + tls.u(2, (16384 + 256 if p.out else 16384) + 1 + x)
        elif k == 'mac':
            r = p.record(21, b'\1\0')
            self.b += r[:-1] + bytes([r[-1] ^ 1])
        elif k == 'bad ccs':
            self.b += [b'\x14\3\3\0\1\2', b'\x14\3\3\0\0', b'\x14\3\3\0\2\1\1'][x % 3]
        elif k == 'garbage':
            self.b += bytes((x * 7 + i * 11) % 256 for i in range(40))
        elif k == 'close':
            self.b += p.record(21, b'\1\0')
        elif k == 'two':
            self.b += p.record(22, tls.hs(8, b'\0\0') + tls.hs(8, b'\0\0'))
        elif k == 'fatal':
            self.b += p.record(21, b'\2\x28')
        elif k == 'trailing':
            self.b += p.record(21, b'\1\0\0')
        elif k == 'unknown':
            self.b += p.record(99, b'abc')
        elif k == 'short length':
            self.b += p.record(22, tls.hs(8, b''))


def flights(plan):
    """the connection, its peer, and the flights of the peer: each is made when the answer to the one before is there"""
    side, suite = plan['side'], plan['suite']
    if side == 'client':
        n = live.client()
        c, k = pki.leaf(kind='ed25519')
        p = tls.Server(suite=suite, key=k)
        n.initiate_connection()
        p.feed(n.data_to_send())
        if plan['hrr']:
            def retry(s):
                b = p.retry(group=23)
                s.b, s.ends = b, [len(b)]
            yield n, p, retry, ['ClientWaitServerHello', 'ClientWaitServerHello2']

        def rest(s):
            p.choose()
            m = hello(p)
            s.message(22, m)
            p.sch.handshake(p.pending, p.th())
            p.keys(p.sch.s_hs, p.sch.c_hs)
            for m in (tls.hs(8, b'\0\0'), None, None, None):
                if m is None and len(p.tr) and p.tr[-1][0] == 8:
                    m = tls.hs(11, b'\0' + tls.vec(3, b''.join(tls.vec(3, pki.der(x)) + b'\0\0' for x in (c, pki.ca()[0]))))
                elif m is None and p.tr[-1][0] == 11:
                    m = tls.hs(15, tls.u(2, 0x0807) + tls.vec(2, tls.sign(k, 0x0807, tls.cv_input(p.th()))))
                elif m is None:
                    m = tls.hs(20, p.sch.finished(p.sch.s_hs, p.th()))
                p.tr.append(m)
                s.message(22, m)
            p.sch.application(p.th())
            p.out = tls.Protect(p.suite, *p.sch.key_iv(p.sch.s_ap))
            apps(s)
        yield n, p, rest, ['ClientWaitServerHello2' if plan['hrr'] else 'ClientWaitServerHello', 'ClientWaitEncryptedExtensions',
                           'ClientWaitCertCr', 'ClientWaitCertificateVerify', 'ClientWaitFinished', 'Connected']
    else:
        n = live.server(kind='ed25519')
        n.initiate_connection()
        p = tls.Client(suites=[suite], groups=[29, 23], shares=[] if plan['hrr'] else [29])
        if plan['hrr']:
            yield n, p, lambda s: first(s, p), ['ServerWaitClientHello', 'ServerWaitClientHello2']
            p.shares[29] = tls.Share(29)
        yield n, p, lambda s: first(s, p), ['ServerWaitClientHello2' if plan['hrr'] else 'ServerWaitClientHello', 'ServerWaitFinished']

        def last(s):
            m = tls.hs(20, p.sch.finished(p.sch.c_hs, p.th()))
            s.message(22, m)
            p.application()
            apps(s)
        yield n, p, last, ['ServerWaitFinished', 'Connected']


def first(s, p):
    r = p.hello()
    # its records again, as the plan cuts them
    s.message(22, r[5:])


def hello(p):
    sh = tls.Share(p.group)
    cs = tls.client_shares(p.ch['e'][51])
    p.pending = sh.shared(cs[p.group])
    m = tls.hs(tls.SH, b'\3\3' + p.random + tls.vec(1, p.ch['session']) + tls.u(2, p.suite) + b'\0'
               + tls.vec(2, tls.ext(43, tls.u(2, 0x0304)) + tls.ext(51, tls.u(2, p.group) + tls.vec(2, sh.share))))
    p.tr.append(m)
    return m


def apps(s):
    for i, k in enumerate(s.plan['app']):
        s.message(23, bytes([i + 1]) * k)
    s.app = True


def deliver(plan, how, rng):
    """what comes of it"""
    out = []
    data = b''
    for n, p, make, states in flights(plan):
        s = Stream(p, plan)
        make(s)
        b = s.b
        last = states[-1] in ('Connected',)
        if plan['cut'] and last:
            b = b[:int(plan['cut'] * len(b))]
        cuts = {'once': [len(b)], 'bytes': range(1, len(b) + 1),
                'random': sorted({rng.randrange(1, len(b) + 1) for _ in range(rng.choice([1, 3, 40]))} | {len(b)}) if b else [],
                'headers': sorted({e + d for e in [0, *s.ends] for d in (-1, 1, 4, 5, 6) if 0 < e + d < len(b)} | {len(b)})}[how]
        at = 0
        e = None
        for c in cuts:
            if c <= at:
                continue
            e = tls.receive(n, b[at:c])
            at = c
            if plan['bad'] == 'none':
                need(e is None, f'a good stream is refused: {e!r}')
                done = sum(x <= at for x in s.ends)
                want = states[min(done, len(states) - 1)].rstrip('2')
                need(tls.state(n) == want, f'after {done} messages the state is {tls.state(n)} rather than {want}')
            if e is not None or not n._state.can_receive:
                break
        data += bytes(n.data_to_read())
        out.append((tls.state(n), describe(e)))
        if e is not None or tls.state(n) == 'Failed' or not n._state.can_receive:
            p.feed(n.data_to_send())
            break
        p.feed(n.data_to_send())
        if tls.state(n) != states[-1].rstrip('2'):
            break
    return out, data, p.alerts(), at_end(n)


def describe(e):
    return None if e is None else (type(e).__name__, getattr(e, 'description', None))


def at_end(n):
    c = n.nconfig
    return (n._state.can_send, n._state.can_receive, None if c is None else (c.cipher_suite, c.key_exchange, c.server_certificate_type))


@case(plans)
def delivered(side, suite, hrr, frag, ccs, bad, when, x, pad, app, cut, seed):
    import random
    plan = dict(side=side, suite=suite, hrr=hrr, frag=frag, ccs=ccs, bad=bad, when=when, x=x, pad=pad, app=app, cut=cut)
    rng = random.Random(seed)
    want = deliver(plan, 'once', rng)
    for how in ('bytes', 'random', 'headers'):
        got = deliver(plan, how, rng)
        need(got == want, f'delivered {how}: {got} rather than {want}')
    if bad == 'none' and not cut:
        need(want[1] == b''.join(bytes([i + 1]) * k for i, k in enumerate(app)), 'the application data is another')


def headers(o):
    import itertools
    for side, keys, over, there, t, version in itertools.product(('client', 'server'), (0, 1), (1, 0, 100, 40000), (0, 1, 3), (22, 23, 21, 20, 99),
                                                                 (0x0303, 0x0301)):
        yield dict(side=side, keys=keys, over=over, there=there, t=t, version=version)


@case(headers)
def overflow(side, keys, over, there, t, version):
    """a record beyond the limit is refused with its header"""
    if keys:
        n, p = live.connected(side)
        p.feed(n.data_to_send())
    else:
        n, p = live.at('ClientWaitServerHello' if side == 'client' else 'ServerWaitClientHello')
        if there:
            need(tls.receive(n, p.record(22, bytes(there))) is None, 'a part of a message is refused')
    limit = 16384 + (256 if keys else 0)
    b = tls.u(1, t) + tls.u(2, version) + tls.u(2, limit + over)
    for i in range(4):
        need(tls.receive(n, b[i:i + 1]) is None, 'a part of a header is refused')
    e = tls.receive(n, b[4:])
    if over:
        need(type(e).__name__ == 'RecordOverflow' and tls.state(n) == 'Failed', f'a record of {limit + over} bytes: {e!r}')
    else:
        need(e is None, f'a record of {limit} bytes: {e!r}')
