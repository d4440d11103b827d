"""C01 executable contracts of the byte stream."""
from oracle.run import case, Fail
from siotls import serial
from siotls.serial import SerialIO, TLSBufferError


def H(b): return bytes.fromhex(b)


def spans(o):
    for n in (0, 1, 2, 3, 5, 8, 300, 70000):
        for p in (0, 1, 2, n - 1, n):
            if 0 <= p <= n:
                for lim in (None, 0, 1, 2, 3, 4, n - p - 1, n - p, n - p + 1, n + 7):
                    if lim is None or lim >= 0:
                        yield n, p, lim


def gen_read(o):
    for n, p, lim in spans(o):
        for ask in (0, 1, 2, 3, 4, 7, n - p, n - p + 1, lim or 0, (lim or 0) + 1, None, -1, -5):
            yield dict(n=n, p=p, lim=lim, ask=ask)
    for _ in range(3000):
        n = o.rng.choice(o.small(3000))
        p = o.rng.randint(0, n)
        yield dict(n=n, p=p, lim=o.rng.choice([None, o.rng.randint(0, n - p + 2)]),
                   ask=o.rng.choice([None, -1, o.rng.randint(0, n + 3)]))


def data(n):
    return bytes((i * 7 + (i >> 8) + 3) & 255 for i in range(n))


class Boom(Exception):
    pass


@case(gen_read)
def read(n, p, lim, ask):
    d = data(n)
    for exact in (False, True):
        if exact and (ask is None or ask < 0):
            continue
        s = SerialIO(d)
        s.seek(p)
        bound = n if lim is None else min(n, p + lim)
        try:
            with s.limit(lim) if lim is not None else open('/dev/null'):
                try:
                    got = s.read_exactly(ask) if exact else (s.read() if ask is None else s.read(ask))
                except TLSBufferError:
                    got = None
                if lim is not None and s.tell() > p + lim:
                    raise Fail(f'moved past the limit to {s.tell()}')
                pos = s.tell()
                raise Boom
        except Boom:
            pass
        if exact:
            if (got is None) == (p + ask <= bound):
                raise Fail(f'read_exactly({ask}) at {p}, limit {lim}, {n} bytes: {"refused" if got is None else "accepted"}')
            if got is not None and (got != d[p:p + ask] or pos != p + ask):
                raise Fail('read_exactly: wrong bytes or position')
        elif ask is None or ask < 0:
            if got is None:
                raise Fail('read() refused')
            if got != d[p:bound] or pos != bound:
                raise Fail(f'read({ask}) wrong bytes or position')
        else:
            if lim is not None and ask > lim:
                if got is not None:
                    raise Fail(f'read({ask}) past the limit {lim} is accepted')
            elif got != d[p:p + min(ask, max(0, bound - p))] or pos != p + len(got):
                raise Fail(f'read({ask}) wrong bytes or position')


def gen_limit(o):
    for outer in (None, 0, 1, 4, 10):
        for inner in (0, 1, 3, 4, 5, 10, 11):
            for used in (0, 1, 3, 4, 5, 10):
                if used <= inner:
                    yield dict(outer=outer, inner=inner, used=used, exc=False)
    yield dict(outer=None, inner=4, used=2, exc=True)


@case(gen_limit)
def limit(outer, inner, used, exc):
    s = SerialIO(data(64))
    s.seek(3)
    import contextlib
    with contextlib.ExitStack() as st:
        if outer is not None:
            st.enter_context(s.limit(outer))
        try:
            cm = s.limit(inner)
            top = cm.__enter__()
        except TLSBufferError:
            if outer is None or inner <= outer:
                raise Fail('a limit inside of the enclosing one is refused')
            st.pop_all()
            return
        if outer is not None and inner > outer:
            raise Fail('a limit past the enclosing one is accepted')
        if top != 3 + inner:
            raise Fail('limit yields a wrong position')
        s.read_exactly(used)
        try:
            cm.__exit__(None, None, None)
            left = False
        except TLSBufferError:
            left = True
        if left != (used != inner):
            raise Fail(f'leaving a region of {inner} with {used} read: {"error" if left else "no error"}')
        if not left:
            more = (64 if outer is None else 3 + outer) - s.tell()
            q = s.tell()
            for k in (more + 1, more):
                s.seek(q)
                try:
                    s.read_exactly(k)
                    ok = True
                except TLSBufferError:
                    ok = False
                if ok != (k <= more):
                    raise Fail('the enclosing limit is not in force after leaving')
                if ok:
                    break
        st.pop_all()


def gen_eof(o):
    for n in (0, 1, 5):
        for p in range(n + 1):
            yield dict(n=n, p=p)


@case(gen_eof)
def eof(n, p):
    s = SerialIO(data(n))
    s.seek(p)
    if s.is_eof() != (p == n) or s.tell() != p:
        raise Fail('is_eof')
    try:
        s.assert_eof()
        ok = True
    except TLSBufferError:
        ok = False
    if ok != (p == n) or s.tell() != p:
        raise Fail('assert_eof')
    try:
        with s.lookahead():
            s.read(1)
            raise Boom
    except Boom:
        pass
    if s.tell() != p:
        raise Fail('lookahead does not restore the position')


def gen_wint(o):
    for w in (1, 2, 3, 4, 8):
        for v in {0, 1, 127, 128, 255, 256, 256 ** w - 1, 256 ** w, 256 ** (w - 1), -1, *o.ints}:
            yield dict(w=w, v=v)


def rt(write, read, ok, bad_what, want, pre=b'', tail=None):
    s = SerialIO()
    s.write(pre)
    try:
        write(s)
    except Exception as e:  # noqa: BLE001
        if ok:
            raise Fail(f'{bad_what}: refused with {type(e).__name__}')
        return
    if not ok:
        raise Fail(f'{bad_what}: accepted although it does not fit')
    if tail is not None and s.getvalue() != pre + tail:
        raise Fail(f'{bad_what}: wrong bytes {s.getvalue()[len(pre):][:40].hex()}')
    if s.tell() != len(s.getvalue()):
        raise Fail(f'{bad_what}: not left at the end')
    s.seek(len(pre))
    got = read(s)
    if got != want:
        raise Fail(f'{bad_what}: read back {str(got)[:100]}')
    if s.tell() != len(s.getvalue()):
        raise Fail(f'{bad_what}: bytes remain')


@case(gen_wint)
def write_int(w, v):
    for pre in (b'', b'abc'):
        ok = 0 <= v < 256 ** w
        rt(lambda s: s.write_int(w, v), lambda s: s.read_int(w), ok, f'write_int({w}, {v})', v, pre,
           v.to_bytes(w, 'big') if ok else None)


def gen_wvar(o):
    for w in (1, 2, 3):
        for n in o.small(66000):
            yield dict(w=w, n=n)


@case(gen_wvar)
def write_var(w, n):
    b = data(n)
    rt(lambda s: s.write_var(w, b), lambda s: s.read_var(w), n < 256 ** w, f'write_var({w}, {n} bytes)', b, b'xy',
       n.to_bytes(w, 'big') + b if n < 256 ** w else None)
    # truncated
    if 0 < n < 256 ** w:
        s = SerialIO(n.to_bytes(w, 'big') + b[:-1])
        try:
            s.read_var(w)
        except TLSBufferError:
            pass
        else:
            raise Fail('read_var of missing bytes is accepted')


def gen_wli(o):
    for wl, wi in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (2, 4), (3, 2)):
        for n in (0, 1, 2, 3, 7, 85, 127, 128, 255, 256, 21845, 32767, 32768, 65535, 65536):
            yield dict(wl=wl, wi=wi, n=n, bad=None)
        for bad in (-1, 256 ** wi, 256 ** wi - 1):
            yield dict(wl=wl, wi=wi, n=3, bad=bad)


@case(gen_wli)
def write_listint(wl, wi, n, bad):
    items = [(i * 37 + 11) % 256 ** wi for i in range(n)]
    if bad is not None:
        items[1] = bad
    ok = n * wi < 256 ** wl and all(0 <= i < 256 ** wi for i in items)
    rt(lambda s: s.write_listint(wl, wi, items), lambda s: s.read_listint(wl, wi), ok,
       f'write_listint({wl}, {wi}, {n} items, {bad})', items, b'',
       (n * wi).to_bytes(wl, 'big') + b''.join(i.to_bytes(wi, 'big') for i in items) if ok else None)


def gen_wlv(o):
    for wl, wi in ((1, 1), (2, 1), (2, 2), (3, 3), (3, 2)):
        for ns in ([], [0], [1], [0, 0], [3, 0, 5], [255], [256], [100, 200], [254, 254], [255] * 300, [65535], [65533],
                   [65534], [30000, 35530], [30000, 35531, 1], [70000]):
            yield dict(wl=wl, wi=wi, ns=ns)
    for _ in range(200):
        wl, wi = o.rng.choice([(1, 1), (2, 1), (2, 2)])
        yield dict(wl=wl, wi=wi, ns=[o.rng.randint(0, 40) for _ in range(o.rng.randint(0, 12))])


@case(gen_wlv)
def write_listvar(wl, wi, ns):
    items = [data(n) for n in ns]
    body = None
    ok = all(n < 256 ** wi for n in ns) and sum(ns) + wi * len(ns) < 256 ** wl
    if ok:
        body = b''.join(len(i).to_bytes(wi, 'big') + i for i in items)
        body = len(body).to_bytes(wl, 'big') + body
    rt(lambda s: s.write_listvar(wl, wi, items), lambda s: s.read_listvar(wl, wi), ok,
       f'write_listvar({wl}, {wi}, {ns[:8]})', items, b'p', body)


def gen_rl(o):
    for wl in (1, 2, 3):
        for wi in (1, 2, 3, 4):
            for n in range(0, 14):
                for have in (n - 1, n, n + 3):
                    if have >= 0:
                        for lim in (None, wl + n - 1, wl + n, wl - 1):
                            yield dict(wl=wl, wi=wi, n=n, have=have, lim=lim)


@case(gen_rl)
def read_list(wl, wi, n, have, lim):
    d = n.to_bytes(wl, 'big') + data(have)
    for kind in ('listint', 'listvar', 'var', 'int'):
        s = SerialIO(d)
        bound = len(d) if lim is None else min(len(d), lim)
        import contextlib
        cm = s.limit(lim) if lim is not None else contextlib.nullcontext()
        cm.__enter__()
        try:
            if kind == 'listint':
                got = s.read_listint(wl, wi)
            elif kind == 'listvar':
                got = s.read_listvar(wl, wi)
            elif kind == 'var':
                got = s.read_var(wl)
            else:
                got = s.read_int(wl)
        except TLSBufferError:
            got = None
        except Exception as e:  # noqa: BLE001
            raise Fail(f'read_{kind}: {type(e).__name__}: {e}')
        if lim is not None and s.tell() > lim:
            raise Fail(f'read_{kind} moved past the limit')
        fits = wl + (0 if kind == 'int' else n) <= bound
        body = d[wl:wl + n]
        if kind == 'int':
            want = n
        elif kind == 'var':
            want = body
        elif kind == 'listint':
            fits = fits and n % wi == 0
            want = [int.from_bytes(body[i:i + wi], 'big') for i in range(0, n, wi)]
        else:
            want, q = [], 0
            while fits and q < n:
                m = int.from_bytes(body[q:q + wi], 'big')
                if q + wi > n or q + wi + m > n:
                    fits = False
                    break
                want.append(body[q + wi:q + wi + m])
                q += wi + m
        if fits != (got is not None):
            raise Fail(f'read_{kind}({wl}, {wi}) of {d.hex()}, limit {lim}: {"refused" if got is None else "accepted"}')
        if got is not None and got != want:
            raise Fail(f'read_{kind}: {got} instead of {want}')
        if got is not None and s.tell() != wl + (0 if kind == 'int' else n):
            raise Fail(f'read_{kind}: position')
