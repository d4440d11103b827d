"""C19: wrapped connections over an arbitrary transport, against an independent peer."""
import sys
from oracle.run import case, Fail
from oracle import tls, live, pki


class Blocked(Exception):
    """the peer has nothing more to say: a real transport would block here"""


class Broken(OSError):
    pass


class Wire:
    """a transport: the peer at its end, which takes and returns what it likes per call"""
    def __init__(self, n, p, steps, rng, size, short, guard=None):
        self.n, self.p, self.steps, self.rng, self.size, self.short = n, p, list(steps), rng, size, short
        self.pending = bytearray()
        self.taken, self.fed, self.given, self.received = bytearray(), 0, bytearray(), bytearray()
        self.queued = bytearray()
        self.guard = guard
        self.ended = False
        self.errors = []
        send, recv = n.data_to_send, n.receive_data

        def data_to_send():
            b = send()
            self.queued += b
            return b

        def receive_data(b):
            self.given += b
            return recv(b)
        n.data_to_send, n.receive_data = data_to_send, receive_data

    def sendall(self, b):
        self.taken += b

    def send(self, b):
        k = len(b) if not self.short else min(len(b), self.rng.randint(1, self.short))
        self.taken += b[:k]
        return k

    def talk(self):
        """the peer reads what was sent to it"""
        b = bytes(self.taken[self.fed:])
        self.fed = len(self.taken)
        try:
            self.p.feed(b)
        except Exception as e:  # noqa: BLE001
            self.errors.append(e)

    def recv(self, n):
        if n <= 0:
            raise Fail(f'the transport is asked for {n} bytes')
        if self.given != self.received:
            raise Fail('the transport is asked for more before what it returned is given to the connection')
        if self.ended:
            raise Fail('the transport is read after its end')
        if self.guard:
            self.guard()
        while not self.pending:
            self.talk()
            if not self.steps:
                raise Blocked
            s = self.steps.pop(0)
            b = s() if callable(s) else s
            if b is None:
                self.ended = True
                return b''
            self.pending += b
        k = min(n, len(self.pending), n if not self.size else self.rng.randint(1, self.size))
        b = bytes(self.pending[:k])
        del self.pending[:k]
        self.received += b
        return b

    def settled(self, what):
        left = bytes(type(self.n).data_to_send(self.n))
        if left:
            raise Fail(f'{what}: {len(left)} bytes are left to send')
        if self.taken != self.queued:
            raise Fail(f'{what}: the transport took {len(self.taken)} bytes of the {len(self.queued)} queued, or others')
        if self.given != self.received:
            raise Fail(f'{what}: {len(self.given)} bytes were given to the connection of {len(self.received)} received')
        self.talk()
        if self.errors:
            raise Fail(f'{what}: the peer does not understand what it was sent: {self.errors[0]!r}')


def need(x, what):
    if not x:
        raise Fail(what)


def handshake_steps(n, p, side, hrr):
    if side == 'server':
        def again():
            p.shares[29] = tls.Share(29)
            return p.hello()

        def fin():
            b = p.finished()
            p.application()
            return b
        return [p.hello] + ([again] if hrr else []) + [fin]
    return ([lambda: p.retry(group=23)] if hrr else []) + [p.hello, lambda: p.encrypted(()), lambda: p.certificate(p.chain),
                                                         p.certificate_verify, p.finished]


def make(side, suite, hrr, ocsp=None):
    if side == 'server':
        n = live.server()
        p = tls.Client(suites=[suite], groups=[29, 23], shares=[] if hrr else [29])
    else:
        n = live.client()
        c, k = pki.leaf()
        p = tls.Server(suite=suite, key=k)
        p.chain = [(pki.der(c), []), (pki.der(pki.ca()[0]), [])]
    return n, p


import random  # noqa: E402


def shakes(o):
    while True:
        for side in ('client', 'server'):
            for end in ('fine', 'garbage', 'end', 'alert', 'raise'):
                yield dict(side=side, suite=o.rng.choice(live.SUITES), hrr=o.rng.randrange(2), end=end, after=o.rng.randrange(6),
                           size=o.rng.choice([0, 0, 1, 7, 100, 5000]), short=o.rng.choice([0, 1, 5, 100]), seed=o.rng.randrange(2 ** 30),
                           enter=o.rng.randrange(2))


def connect(side, suite, hrr, size, short, seed, more=()):
    n, p = make(side, suite, hrr)
    rng = random.Random(seed)
    w = Wire(n, p, handshake_steps(n, p, side, hrr) + list(more), rng, size, short)
    s = n.wrap(w)
    s.do_handhskake()
    w.settled('handshake')
    need(tls.state(n) == 'Connected', f'the handshake ends in {tls.state(n)}')
    return n, p, w, s


@case(shakes)
def handshake(side, suite, hrr, end, after, size, short, seed, enter):
    """a handshake over a socket, that may end early"""
    n, p = make(side, suite, hrr)
    steps = handshake_steps(n, p, side, hrr)
    after = min(after, len(steps) - 1)
    if end != 'fine':
        last = {'garbage': b'\x17\x03\x03\x00\x20' + bytes(32), 'end': None, 'alert': b'\x15\x03\x03\x00\x02\x02\x28'}.get(end)
        steps[after:] = [last]
    rng = random.Random(seed)
    boom = [0]

    def guard():
        need(not n.is_post_handshake(), 'the handshake blocks though it is over')
        boom[0] += 1
        if end == 'raise' and boom[0] > after:
            raise Broken('gone')
    w = Wire(n, p, steps, rng, size, short, guard)
    s = n.wrap(w)
    e = None
    try:
        r = s.__enter__() if enter else s.do_handhskake()
        need(not enter or r is s, 'entering returns another socket')
    except Fail:
        raise
    except Exception as x:  # noqa: BLE001
        e = x
    w.settled(f'handshake, {end}')
    st = tls.state(n)
    if end == 'raise':
        need(isinstance(e, Broken), f'the error of the transport is hidden: {e!r}')
        return
    need(not isinstance(e, Blocked), f'the handshake of the {side} waits for nothing, in {st}')
    if end == 'fine':
        need(e is None and st == 'Connected', f'the handshake of the {side} ends in {st} {e!r}')
        need(n.is_connected(), 'not connected')
    elif end == 'end':
        need(e is None and st == 'Failed', f'the transport ends after {after} messages: {st} {e!r}')
    else:
        need(st == 'Failed' and e is not None, f'{end} after {after} messages: {st} {e!r}')
        if side == 'client' or after:
            need(end != 'garbage' or p.alerts(), f'no alert reached the peer after {end}')


def talks(o):
    while True:
        for side in ('client', 'server'):
            for end in ('close', 'end', 'fatal', 'garbage', 'blocked', 'close and more'):
                yield dict(side=side, suite=o.rng.choice(live.SUITES), hrr=0, end=end, size=o.rng.choice([0, 0, 3, 100, 5000]),
                           short=o.rng.choice([0, 1, 100]), seed=o.rng.randrange(2 ** 30), together=o.rng.randrange(2),
                           sizes=[o.rng.choice([0, 1, 10, 1000, 16384, 40000]) for _ in range(o.rng.randrange(4))],
                           writes=[o.rng.choice([0, 1, 300, 16384, 40000]) for _ in range(o.rng.randrange(3))])


@case(talks)
def reading(side, suite, hrr, end, size, short, seed, together, sizes, writes):
    """reading until the peer ends"""
    n, p, w, s = connect(side, suite, hrr, size, short, seed)
    data = [random.Random(seed + i).randbytes(k) for i, k in enumerate(sizes)]
    steps = [lambda d=d: p.send(23, d) for d in data]
    last = {'close': lambda: p.send(21, b'\1\0'), 'end': lambda: None, 'fatal': lambda: p.send(21, b'\2\x28'),
            'garbage': lambda: b'\x17\x03\x03\x00\x20' + bytes(32), 'blocked': None,
            'close and more': lambda: p.send(21, b'\1\0') + p.send(23, b'late')}[end]
    if together and end != 'end':
        w.steps = [lambda: b''.join([x() for x in steps + ([last] if last else [])])]
    else:
        w.steps = steps + ([last] if last else [])
    got = bytearray()
    want = b''.join(data)

    def guard():
        need(n.is_connected(), 'reading waits though the connection is over')
        need(not bytes(n._application_data), 'reading waits though there is data')
    w.guard = guard
    written = b''
    for i, k in enumerate(writes):
        b = random.Random(seed - i).randbytes(k)
        s.write(b)
        written += b
        w.settled('write')
    e = None
    for _ in range(200):
        try:
            b = s.read()
        except Blocked:
            need(end == 'blocked', f'reading waits after {end}')
            break
        except Fail:
            raise
        except Exception as x:  # noqa: BLE001
            need(e is None, f'a second error {x!r} after {e!r}')
            e = x
            need(end in ('fatal', 'garbage'), f'reading raises {x!r} after {end}')
            w.settled(f'reading, {end}')
            continue
        w.settled('reading')
        got += b
        if not b:
            need(end != 'blocked', 'reading returns nothing though the connection is open')
            break
    need(bytes(got) == want, f'{len(got)} bytes read of {len(want)} sent, or others')
    need(not bytes(n._application_data), 'data is left')
    need(b''.join(x for t, x in p.got if t == 23) == written, 'what was written is not what the peer received')
    if end in ('close', 'end', 'close and more'):
        need(tls.state(n) == 'Closed' and not n.is_connected(), f'after {end}: {tls.state(n)}')
        need(s.read() == b'', 'reading after the end')
    if end == 'garbage':
        need(p.alerts(), 'no alert reached the peer')


@case(talks)
def closing(side, suite, hrr, end, size, short, seed, together, sizes, writes):
    """closing, then what still arrives"""
    n, p, w, s = connect(side, suite, hrr, size, short, seed)
    for k in writes:
        s.write(bytes(k))
    if together:
        s.__exit__(None, None, None)
    else:
        s.close()
    w.settled('close')
    need(p.alerts() == [(1, 0)], f'closing sends {p.alerts()}')
    need(n.is_connected(), 'closing the sending end closes the receiving end')
    try:
        s.write(b'late')
        raise Fail('data is accepted after closing')
    except Fail:
        raise
    except Exception:  # noqa: BLE001
        pass
    w.settled('refused write')
    data = [random.Random(seed + i).randbytes(k) for i, k in enumerate(sizes)]
    w.steps = [lambda d=d: p.send(23, d) for d in data] + [(lambda: None) if end == 'end' else (lambda: p.send(21, b'\1\0'))]
    got = bytearray()
    while b := s.read():
        got += b
    need(bytes(got) == b''.join(data), 'what is received after closing is not returned')
    s.close()
    w.settled('closing again')
    need(p.alerts() == [(1, 0)], f'closing again sends {p.alerts()}')


@case(shakes)
def closed_early(side, suite, hrr, end, after, size, short, seed, enter):
    """closing during the handshake"""
    n, p = make(side, suite, hrr)
    steps = handshake_steps(n, p, side, hrr)
    w = Wire(n, p, steps[:after], random.Random(seed), size, short)
    s = n.wrap(w)
    try:
        s.do_handhskake()
    except Blocked:
        pass
    w.settled('handshake')
    if n.is_post_handshake():
        return
    try:
        s.__exit__(None, None, None) if enter else s.close()
    except Exception as x:  # noqa: BLE001
        raise Fail(f'closing raises {x!r} in the handshake') from x
    w.settled('closing during the handshake')
    need(tls.state(n) == 'Failed', f'closing during the handshake: {tls.state(n)}')
    need((1, 0) in p.alerts(), 'no close notify reached the peer')
