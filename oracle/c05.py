"""C05: the records queued by the real code, read by an independent peer."""
from oracle.run import case, Fail
from oracle import tls, live, pki
import struct

SIZES = {1: 512, 2: 1024, 3: 2048, 4: 4096, 0: 16384}


def need(x, what):
    if not x:
        raise Fail(what)


def whole(data):
    """the records of a byte string, as (type, version, body)"""
    out = []
    while data:
        need(len(data) >= 5, 'a truncated header is queued')
        t, v, n = struct.unpack('!BHH', data[:5])
        need(len(data) >= 5 + n, 'the length in a header is not that of the body')
        out.append((t, v, bytes(data[5:5 + n])))
        data = data[5 + n:]
    return out


def limits(recs, size, protected, what):
    for t, v, b in recs:
        need(v == 0x0303, f'{what}: a record of version {v:#x}')
        need(len(b) <= size + (256 if protected else 0), f'{what}: a record of {len(b)} bytes over the limit of {size}')
        if protected:
            need(t == 23, f'{what}: a record of type {t} under protection')


def lengths(o, size):
    full = size - 17
    base = [0, 1, 2, full - 1, full, full + 1, size - 9, size - 8, size - 1, size, size + 1, 2 * full, 2 * full + 1, 2 * size,
            4096, 4096 - 17, 4096 - 16, 3 * full - 1]
    return base + [o.rng.randrange(5 * size) for _ in range(6)]


def runs(o):
    while True:
        for suite in tls.SUITES:
            for code, size in SIZES.items():
                ls = lengths(o, size)
                yield dict(suite=suite, code=code, ls=[o.rng.choice(ls) for _ in range(4)], side=o.rng.choice(['server', 'client']))


@case(runs)
def data(suite, code, ls, side):
    """application data on a connection with a fragment length"""
    size = SIZES[code]
    if side == 'server':
        n, p = live.server_at('Connected', suite=suite, extra=[(1, bytes([code]))] if code else ())
        if code:
            need(p.ee.get(1) == bytes([code]), 'the fragment length is not agreed')
    else:
        n, p = live.client_at('Connected', suite=suite)
        size = 16384
    need(n.max_fragment_length == size, 'the fragment length in force is not that agreed')
    import random
    for i, l in enumerate(ls):
        what = random.Random(l + i).randbytes(l)
        p.records, p.got = [], []
        e = None
        try:
            n.send_data(what)
        except Exception as x:
            e = x
        need(e is None, f'{l} bytes refused: {e!r}')
        out = bytes(n.data_to_send())
        limits(whole(out), size, True, f'{l} bytes')
        p.feed(out)
        need(p.bad is None, f'{l} bytes: {p.bad}')
        need(all(t == 23 for t, _ in p.got), f'{l} bytes: other contents {[t for t, _ in p.got]}')
        need(all(len(b) <= size for _, b in p.got), f'{l} bytes: a fragment over the limit of {size}')
        need(b''.join(b for _, b in p.got) == what, f'{l} bytes: the peer does not recover them')
    n.close_sending_end()
    p.records, p.got = [], []
    p.feed(n.data_to_send())
    need(p.got == [(21, b'\1\0')] and p.bad is None, 'the close notify is not recovered by the peer')


class Any:
    """a message of any kind"""
    def __init__(self, t, can, data):
        self.content_type, self.can_fragment, self.data, self.msg_type = live.iana.ContentType(t), can, data, None

    def serialize(self):
        return self.data


def anys(o):
    while True:
        for point in ('ServerWaitClientHello', 'ClientWaitServerHello', 'Connected', 'ServerWaitFinished'):
            for t in (20, 21, 22, 23):
                size = o.rng.choice(list(SIZES.values()))
                yield dict(point=point, t=t, can=o.rng.random() < .6 or t == 22, size=size, l=o.rng.choice(lengths(o, size)), suite=o.rng.choice(live.SUITES))


@case(anys)
def other(point, t, can, size, l, suite):
    """messages of other kinds, in clear and protected"""
    if t == 23 and point != 'Connected':
        return
    n, p = live.at(point, suite=suite)
    p.feed(n.data_to_send())
    o = live.iana.MaxFragmentLengthOctets(size)
    object.__setattr__(n.config, 'max_fragment_length', o)
    if n.nconfig is not None:
        n.nconfig = None
    n._output_data += b'queued'
    d = bytes((i * 7 + 1) % 251 for i in range(l))
    a = Any(t, can, d)
    seen = []
    n._transcript.update = lambda *x: seen.append(x)
    tag = n._cipher.tag_length if n._cipher.must_encrypt else None
    full = size - (0 if tag is None else 1 + tag)
    e = None
    try:
        n._send_content(a)
    except Exception as x:
        e = x
    out = bytes(n.data_to_send())
    need(out[:6] == b'queued', 'what was queued before is lost')
    out = out[6:]
    if l > full and not can:
        need(isinstance(e, ValueError) and out == b'', f'{l} bytes that may not be fragmented: {e!r}, {len(out)} queued')
        return
    need(e is None, f'{l} bytes of type {t} refused: {e!r}')
    recs = whole(out)
    limits(recs, size, tag is not None, f'{l} bytes of type {t}')
    if tag is None:
        need(all(x == t for x, _, _ in recs) and b''.join(b for _, _, b in recs) == d and recs, f'{l} bytes of type {t} in clear are not what is queued')
    else:
        p.records = []
        p.feed(out)
        got = [(r[2], r[3]) for r in p.records]
        need(p.bad is None and got and all(x == t for x, _ in got), f'{l} bytes of type {t}: the peer recovers {[x for x, _ in got]} {p.bad}')
        need(b''.join(b for _, b in got) == d, f'{l} bytes of type {t}: the peer recovers other bytes')
    need(len(seen) == (t == 22), f'a message of type {t} joins the transcript {len(seen)} times')
    if seen:
        need(bytes(seen[0][0]) == d and seen[0][1] == n.config.side, 'the transcript gets other bytes')
