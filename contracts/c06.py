"""C06: what is received does not depend on how the bytes were chunked.

Of _read_next_content one step is under contract: from its start, with any bytes b received and any incomplete
handshake h, to its outcome or to the next time it arrives at the head of a loop of its own.  The step on b and the
step on b followed by any x are compared: the same outcome, the same rest followed by x; or, on b alone, nothing at all
happens because bytes are missing.  A step consumes bytes, so that by induction on their number the contents read, in
order, do not depend on how the bytes were cut.  That a later step depends on nothing but b and h is checked too (the
local variables of an earlier one are made unreadable)."""
from contracts.plumbing import *
from contracts.plumbing import receive as plumbing_receive
from pyvc.core import ctx, PathEnd
from pyvc.rt import Poison

TASKS = []


class Again(BaseException):
    """the head of a loop is reached again"""


class Opener:
    """the keys of the peer: what the i-th record opens to"""
    __vc_ok__ = True
    must_decrypt = must_encrypt = True
    should_rekey = False
    tag_length = 16

    def __init__(self):
        self.first, self.calls, self.texts = [], [], []

    def replay(self):
        """the same records again"""
        self.first, self.calls = self.calls, []

    def decrypt(self, data, header):
        from siotls.contents import alerts
        i = len(self.calls)
        if i < len(self.first):
            d, h, r = self.first[i]
            prove('the same record is opened', And(T(blen(d)) == T(blen(data)), beq(d, data), beq(h, header)))
        else:
            r = choose(['ok', 'bad']) if i >= len(self.texts) else 'ok'
        self.calls.append((data, header, r))
        if r == 'bad':
            raise alerts.BadRecordMac('not opened')
        return self.texts[i] if i < len(self.texts) else bvar(f'opened {i}')


def complete(h):
    """is this handshake message whole"""
    if not branch(T(blen(h)) >= 4):
        return False
    return branch(T(blen(h)) - 4 >= T(ube_(bslice(h, 1, 4))))


def ube_(b):
    return rt.call(int.from_bytes, b, 'big')


def buffers(c):
    return c._input_data, c._input_handshake


FRAME = ('_input_data', '_input_handshake')


def frame(c):
    return {k: v for k, v in vars(c).items() if k not in FRAME}


def one(c, b, h, stale=False):
    """one step: (kind, value, bytes left, handshake left, records opened)"""
    c._input_data = rt.MODELS[bytearray](b)
    c._input_handshake = rt.MODELS[bytearray](h)
    before = frame(c)
    seen = []

    def head(lid, it, names):
        if it == 0 or complete(c._input_handshake):
            return None
        if stale:
            if seen:
                raise PathEnd
            seen.append(1)
            if not choose([0, 1]):
                raise PathEnd
            c._input_data = rt.MODELS[bytearray](bvar('any bytes'))
            if branch(T(blen(c._input_handshake)) > 0):
                c._input_handshake = rt.MODELS[bytearray](incomplete())
            return {n: Poison(n) for n in names}
        raise Again
    ghost()['while head'] = head
    try:
        v, e = c._read_next_content(), None
        kind = 'none' if v is None else 'content'
    except Again:
        kind, v = 'again', None
    except Exception as x:
        from pyvc import core
        if core.engine_error(x):
            raise
        kind, v = 'raise', x
    finally:
        ghost().pop('while head')
    if stale and seen:
        prove('a later step reads no variable of an earlier one', True)
        raise PathEnd
    after = frame(c)
    prove('nothing else of the connection changes', set(before) == set(after) and all(after[k] is before[k] for k in before))
    return kind, v, c._input_data, c._input_handshake, list(c._cipher.calls)


class Plain:
    """no keys yet"""
    __vc_ok__ = True
    must_decrypt = must_encrypt = should_rekey = False
    calls = ()

    def replay(self):
        pass


def reader(keys, n, light=False):
    side = 'client' if light else choose(['client', 'server'])
    c = connection(side, config(side))
    c._cipher = Opener() if keys else Plain()
    limit = 16384
    if light or choose([0, 1]):
        negotiated(c)
        if light or choose([0, 1]):
            limit = T(sint('limit', 64, 16384))
            c.nconfig.max_fragment_length = sym.mkint(limit)
        else:
            c.nconfig.max_fragment_length = None
    h = incomplete(n)
    return c, h, limit + (256 if keys else 0)


def incomplete(n=()):
    if n == ():
        n = choose([0, 1, 2, 3, None])
    h = bvar('incomplete handshake', n)
    if n is None:
        assume(T(blen(h)) >= 4)
        assume(T(blen(h)) - 4 < T(ube_(bslice(h, 1, 4))))
    return h


def same_bytes(a, b):
    return And(T(blen(a)) == T(blen(b)), beq(a, b))


def unchunked(keys, n0):
    """a step with more bytes is the same step"""
    def f():
        # the limit and side in force are those of the framing, proved on their own
        c, h, limit = reader(keys, n0, bool(keys))
        b, x = bvar('received'), bvar('received later')
        kind, v, b1, h1, calls = one(c, b, h)
        cover(kind)
        if kind == 'none':
            # bytes are missing: it is as if nothing had been received yet
            prove('nothing is consumed while bytes are missing', And(same_bytes(b1, b), same_bytes(h1, h)))
            prove('nothing is opened while bytes are missing', not calls)
            return
        c._cipher.replay()
        kind2, v2, b2, h2, calls2 = one(c, concat(b, x), h)
        prove('the outcome is the same with more bytes', kind == kind2, f'{kind} {exc_name(v) if kind == "raise" else ""} {kind2}')
        if kind != kind2:
            return
        prove('as many records are opened', len(calls) == len(calls2))
        if kind == 'raise':
            prove('the alert is the same with more bytes', type(v) is type(v2), f'{exc_name(v)} {exc_name(v2)}')
            return
        prove('a step consumes bytes', T(blen(b1)) < T(blen(b)))
        prove('what is left is what was left and the bytes that follow', same_bytes(b2, concat(b1, x)))
        prove('the handshake in progress is the same', same_bytes(h1, h2))
        if kind == 'content':
            prove('the type is the same', T(v[0]) == T(v2[0]))
            prove('the content is the same', same_bytes(v[1], v2[1]))
    return f


def stale(keys):
    def f():
        c = connection('client', config('client'))
        c._cipher = Opener() if keys else Plain()
        if keys:
            c._cipher.texts = [b'\1\x16']
        b = choose([b'\x14\3\3\0\1\1', b'\x17\3\3\0\2\0\0' if keys else b'\x16\3\3\0\1\1'])
        one(c, b, b'', stale=True)
        fail('the head of a loop is reached again')
    return f


def spec(keys, n0):
    """a step against the framing of RFC 8446 section 5"""
    def f():
        from siotls.contents import alerts
        c, h, limit = reader(keys, n0)
        b = bvar('received')
        kind, v, b1, h1, calls = one(c, b, h)
        n = T(blen(b))
        ccs = branch(And(n >= 6, beq(bslice(b, 0, 1), b'\x14'), beq(bslice(b, 3, 6), b'\0\1\1')))
        if ccs:
            # a whole compatibility message is dropped
            prove('a compatibility message is dropped', kind == 'again', kind)
            prove('it is dropped and nothing else', And(same_bytes(b1, bslice(b, 6, blen(b))), same_bytes(h1, h)))
            cover('compatibility message')
            return
        if branch(n < 5):
            prove('nothing is read before the header of a record is there', kind == 'none', kind)
            cover('no header')
            return
        size = T(ube_(bslice(b, 3, 5)))
        if branch(size > limit):
            prove('a record that is too long is refused as soon as its header is there', kind == 'raise' and is_alert(v, 'RecordOverflow'),
                  f'{kind} {exc_name(v) if kind == "raise" else ""}')
            prove('it is not opened', not calls)
            cover('overflow')
            return
        if branch(n < 5 + size):
            prove('nothing is read before the record is there', kind == 'none', kind)
            cover('no record')
            return
        prove('the record is used', kind != 'none')
        if kind == 'none':
            return
        if kind != 'raise':
            prove('the record is consumed, and nothing else', same_bytes(b1, bslice(b, 5 + size, blen(b))))
        if keys:
            prove('the record is opened, once', len(calls) == 1)
            if len(calls) != 1:
                return
            d, hd, r = calls[0]
            prove('what is opened is the record', And(same_bytes(d, bslice(b, 5, 5 + size)), same_bytes(hd, bslice(b, 0, 5))))
            if r == 'bad':
                prove('a record that does not open is refused', kind == 'raise' and is_alert(v, 'BadRecordMac'))
                cover('not opened')
                return
            inner = bvar('opened 0')
            if kind == 'raise' and not is_alert(v, 'RecordOverflow'):
                prove('a refused record ends in a fatal alert', isinstance(v, alerts.TLSFatalAlert), exc_name(v))
            if kind == 'content' and T(v[0]) is not None and branch(T(v[0]) != 22):
                m = T(blen(v[1]))
                prove('the content is what precedes the last byte that is not zero', And(
                    m < T(blen(inner)), same_bytes(v[1], bslice(inner, 0, m)), T(v[0]) == at(inner, m), T(v[0]) != 0))
                k = sint('a later byte', 0)
                assume(And(T(k) > m, T(k) < T(blen(inner))))
                prove('what follows the type is zero', at(inner, T(k)) == 0)
                return
            f = None
        else:
            t = at(b, 0)
            f = bslice(b, 5, 5 + size)
            if kind == 'raise':
                prove('a refused record ends in a fatal alert', isinstance(v, alerts.TLSFatalAlert), exc_name(v))
            if branch(t != 22):
                if branch(T(blen(h)) > 0):
                    prove('another record inside of a handshake message is a fatal error', kind == 'raise')
                    cover('interleaved')
                    return
                if kind == 'raise':
                    prove('only a compatibility message that is none is refused', t == 20)
                    return
                prove('another record is a content', kind == 'content', kind)
                if kind == 'content':
                    prove('of its type', T(v[0]) == t)
                    prove('its bytes are those of the record', same_bytes(v[1], f))
                    prove('no handshake is in progress', T(blen(h1)) == 0)
                    cover('content')
                return
            if kind == 'raise':
                whole = concat(h, f)
                prove('only an empty or oversized handshake record is refused', Or(size == 0, And(
                    T(blen(whole)) >= 4, T(blen(whole)) - 4 > T(ube_(bslice(whole, 1, 4)))) if branch(T(blen(whole)) >= 4) else False))
                return
        if kind == 'raise':
            return
        # a handshake record
        if kind == 'again':
            prove('a handshake message goes on', T(blen(h1)) > T(blen(h)))
            prove('it is incomplete', Not(complete_(h1)))
            prove('what was there of it stays', same_bytes(bslice(h1, 0, blen(h)), h))
            if f is not None:
                prove('the record joins the handshake message', same_bytes(h1, concat(h, f)))
            else:
                joined(inner, bslice(h1, blen(h), blen(h1)))
            cover('incomplete')
        else:
            d = v[1]
            prove('the type is handshake', T(v[0]) == 22)
            prove('a handshake message is whole', And(T(blen(d)) >= 4, T(blen(d)) == 4 + T(ube_(bslice(d, 1, 4)))) if branch(T(blen(d)) >= 4) else False)
            prove('no handshake is in progress', T(blen(h1)) == 0)
            prove('what was there of it is its start', same_bytes(bslice(d, 0, blen(h)), h))
            if f is not None:
                prove('the message is what was there and the record', same_bytes(d, concat(h, f)))
            else:
                joined(inner, bslice(d, blen(h), blen(d)))
            cover('handshake')
    return f


def joined(inner, f):
    """f is what the record opened to, before its type, handshake, and its padding"""
    m = T(blen(f))
    prove('what joins is what the record opens to', And(m >= 1, m < T(blen(inner)), same_bytes(f, bslice(inner, 0, m)), at(inner, m) == 22))
    k = sint('a later byte', 0)
    assume(And(T(k) > m, T(k) < T(blen(inner))))
    prove('what follows the type is zero', at(inner, T(k)) == 0)


def complete_(h):
    if not branch(T(blen(h)) >= 4):
        return z3.BoolVal(False)
    return T(blen(h)) - 4 >= T(ube_(bslice(h, 1, 4)))


def at(b, i):
    return T(rt.getitem(b, sym.mkint(i) if not isinstance(i, int) else i)) if hasattr(rt, 'getitem') else T(b[i])


for _k in (0, 1):
    _s = 'protected' if _k else 'plain'
    for _n in (0, 1, 2, 3, None):
        _h = 'more' if _n is None else _n
        TASKS.append(Task(f'more bytes, {_s}, {_h} of a message there', unchunked(_k, _n), cost=9 if _k else 5, max_paths=9000))
        TASKS.append(Task(f'the framing, {_s}, {_h} of a message there', spec(_k, _n), cost=6, query_ms=40000))
    TASKS.append(Task(f'later steps, {_s}', stale(_k), cost=5))


def reading(name):
    """receive_data reads contents until none is left, whatever was given to it"""
    def f():
        c, side = enter_state(name)
        data, inp = bvar('received'), bvar('received before')
        c._input_data = rt.MODELS[bytearray](inp)
        hs = c._input_handshake
        reads = []
        plumbing_receive(c, lambda c: None)
        inner = c._read_next_content

        def read_next():
            if not reads:
                prove('what is received follows what was there', same_bytes(c._input_data, concat(inp, data)))
            reads.append(bool(c._state.can_receive))
            return inner()
        c._read_next_content = read_next
        can = bool(c._state.can_receive)
        assume(T(blen(data)) >= 1)
        _, e = attempt(c.receive_data, data)
        if not can:
            prove('nothing is read of a closed connection', not reads)
            return
        prove('contents are read', bool(reads))
        prove('they are read only while receiving', all(reads))
        prove('the bytes are left to the reader', And(same_bytes(c._input_data, concat(inp, data)), c._input_handshake is hs))
        if e is None and of('content'):
            prove('contents are read until there are none', len(reads) >= 2 or not c._state.can_receive)
            cover('more')
        if e is None and not of('content'):
            prove('without a content nothing happens', not [x for x in events() if x[0] != 'read'])
            cover('nothing')
    return f


for _n in STATES:
    TASKS.append(Task(f'receiving in {_n}', reading(_n), cost=2))
