"""C01: the byte stream primitives (siotls.serial.SerialIO)."""
from pyvc.harness import *
from pyvc.harness import Task

TASKS = []


def task(name, **o):
    def deco(f):
        TASKS.append(Task(name, f, **o))
        return f
    return deco


def serial():
    import siotls.serial as m
    return m


def stream(limits=None):
    """an arbitrary stream: any content, any position, any innermost limits.
    Returns (stream, content, position, bound of the readable region, lim)"""
    m = serial()
    data = bvar('data')
    n = blen(data)
    s = m.SerialIO(data)
    if limits is None:
        limits = choose([0, 1, 2])
    lim = None
    pos = 0
    cms = []
    for i in range(limits):
        q = T(sint(f'start{i}', 0))
        assume(And(q >= pos, q <= (lim if lim is not None else q)))
        s.seek(mkint(q))
        ln = T(sint(f'limit{i}', 0))
        if lim is not None:
            assume(q + ln <= lim)
        cm = s.limit(mkint(ln))
        got, e = attempt(cm.__enter__)
        if e is not None:
            fail('limit: a limit inside of the enclosing one is accepted')
            raise PathEnd
        prove('limit: yields the absolute limit', T(got) == q + ln)
        cms.append(cm)
        lim, pos = simp(q + ln), q
    p = T(sint('pos', 0))
    assume(p >= pos)
    if lim is not None:
        assume(p <= lim)
    assume(p <= n)
    s.seek(mkint(p))
    s.cms = cms
    bound = n if lim is None else simp(z3.If(nz(lim) < nz(n), nz(lim), nz(n)))
    return s, data, p, bound, lim


def buffer_error(e):
    return isinstance(e, serial().TLSBufferError)


def check_exact(tag, s, data, p, bound, lim, n, got, e, value=None, extra=0):
    """the contract of every reader of n bytes: them exactly, or a buffer error"""
    fits = nz(p) + nz(n) <= nz(bound)
    if e is None:
        prove(f'{tag}: reads only what is available', fits)
        want = bslice(data, p, simp(nz(p) + nz(n)))
        prove(f'{tag}: returns the next bytes', value(got, want) if value else beq(got, want))
        prove(f'{tag}: consumes exactly them', T(s.tell()) == nz(p) + nz(n))
    else:
        prove(f'{tag}: fails with a buffer error', buffer_error(e), exc_name(e))
        prove(f'{tag}: fails only when the bytes are not available', Not(fits))
        if lim is not None:
            prove(f'{tag}: never moves past the limit', T(s.tell()) <= nz(lim))


@task('read_exactly')
def t_read_exactly():
    s, data, p, bound, lim = stream()
    n = T(sint('n', 0))
    got, e = attempt(s.read_exactly, mkint(n))
    check_exact('read_exactly', s, data, p, bound, lim, n, got, e)
    cover('read_exactly')


@task('read')
def t_read():
    s, data, p, bound, lim = stream()
    kind = choose(['none', 'int', 'negative'])
    if kind == 'none':
        got, e = attempt(s.read)
        if e is not None:
            prove('read(): never fails', False)
            return
        q = simp(z3.If(nz(bound) > nz(p), nz(bound), nz(p)))
        prove('read(): everything up to the limit', beq(got, bslice(data, p, q)) if branch(nz(q) <= nz(blen(data)))
              else nz(blen(got)) == 0)
        prove('read(): position', T(s.tell()) == nz(q))
    elif kind == 'int':
        n = T(sint('n', 0))
        got, e = attempt(s.read, mkint(n))
        if e is not None:
            prove('read(n): buffer error', buffer_error(e), exc_name(e))
            prove('read(n): fails only past the limit', (nz(p) + n > nz(lim)) if lim is not None else False)
        else:
            left = z3.If(nz(bound) > nz(p), nz(bound) - nz(p), I(0))
            k = simp(z3.If(n < left, n, left))
            if lim is not None:
                prove('read(n): asking for more than the limit fails', nz(p) + n <= nz(lim))
            if branch(nz(p) <= nz(blen(data))):
                prove('read(n): the next bytes', beq(got, bslice(data, p, simp(nz(p) + k))))
            else:
                prove('read(n): the next bytes', nz(blen(got)) == 0)
    else:
        n = T(sint('n', None, -1))
        got, e = attempt(s.read, mkint(n))
        if lim is not None:
            prove('read(-n): never moves past the limit', T(s.tell()) <= nz(lim))
    cover('read')


@task('read_int')
def t_read_int():
    width = choose([0, 1, 2, 3, 4, 5, 6, 7, 8, 16])
    s, data, p, bound, lim = stream()
    got, e = attempt(s.read_int, width)
    if width == 0:
        prove('read_int(0): refused', isinstance(e, ValueError))
        return
    check_exact('read_int', s, data, p, bound, lim, width, got, e,
                lambda got, want: T(got) == nz(sym.int_of_rope(rope_of(want))))
    cover('read_int')


def length_prefix(data, p, bound, w):
    """the length announced at p, or None on the path where there is none"""
    if branch(nz(p) + w <= nz(bound)):
        return sym.int_of_rope(rope_of(bslice(data, p, simp(nz(p) + w))))
    return None


@task('read_var')
def t_read_var():
    w = choose([1, 2, 3, 4])
    s, data, p, bound, lim = stream()
    got, e = attempt(s.read_var, w)
    n = length_prefix(data, p, bound, w)
    if n is None:
        prove('read_var: no room for the length', buffer_error(e), exc_name(e))
        if lim is not None:
            prove('read_var: never moves past the limit', T(s.tell()) <= nz(lim))
        return
    check_exact('read_var', s, data, simp(nz(p) + w), bound, lim, n, got, e)
    cover('read_var')


@task('read_listint', cost=4)
def t_read_listint():
    wl, wi = choose([(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (2, 4), (3, 2), (3, 8)])
    s, data, p, bound, lim = stream()
    got, e = attempt(s.read_listint, wl, wi)
    n = length_prefix(data, p, bound, wl)
    if n is None:
        prove('read_listint: no room for the length', buffer_error(e), exc_name(e))
        return
    p2 = simp(nz(p) + wl)
    fits = nz(p2) + nz(n) <= nz(bound)
    whole = nz(n) % wi == 0
    if e is not None:
        prove('read_listint: buffer error', buffer_error(e), exc_name(e))
        prove('read_listint: fails only on missing bytes or an incomplete item', Not(And(fits, whole)))
        if lim is not None:
            prove('read_listint: never moves past the limit', T(s.tell()) <= nz(lim))
        return
    prove('read_listint: only when everything is available', And(fits, whole))
    prove('read_listint: consumes the list', T(s.tell()) == nz(p2) + nz(n))
    m = T(rt.m_len(got))
    prove('read_listint: one item per chunk', m * wi == nz(n))
    k = T(sint('k', 0))
    assume(k < m)
    v = rt.getitem(got, mkint(k))
    want = sym.int_of_rope(rope_of(bslice(data, simp(nz(p2) + k * wi), simp(nz(p2) + k * wi + wi))))
    prove('read_listint: every item is its bytes', T(v) == nz(want))
    cover('read_listint')


@task('read_listvar', cost=9)
def t_read_listvar():
    """arbitrary bytes: ends, with a list or a buffer error, within the announced length"""
    wl, wi = choose([(1, 1), (2, 1), (2, 2), (3, 2), (3, 3)])
    s, data, p, bound, lim = stream(choose([0, 1]))
    ghost()['termination'] = True
    got, e = attempt(s.read_listvar, wl, wi)
    n = length_prefix(data, p, bound, wl)
    if n is None:
        prove('read_listvar: no room for the length', buffer_error(e), exc_name(e))
        return
    p2 = simp(nz(p) + wl)
    fits = nz(p2) + nz(n) <= nz(bound)
    if e is not None:
        prove('read_listvar: buffer error', buffer_error(e), exc_name(e))
        if lim is not None:
            prove('read_listvar: never moves past the limit', T(s.tell()) <= nz(lim))
        return
    prove('read_listvar: only when everything is available', fits)
    prove('read_listvar: consumes the list', T(s.tell()) == nz(p2) + nz(n))
    cover('read_listvar')


@task('limit')
def t_limit():
    """entering: only inside of the enclosing limit; leaving: only when all is read"""
    m = serial()
    s, data, p, bound, lim = stream()
    ln = T(sint('length', 0))
    cm = s.limit(mkint(ln))
    got, e = attempt(cm.__enter__)
    if e is not None:
        prove('limit: refused with a buffer error', buffer_error(e), exc_name(e))
        prove('limit: refused only past the enclosing one', (p + ln > nz(lim)) if lim is not None else False)
        return
    if lim is not None:
        prove('limit: not past the enclosing one', p + ln <= nz(lim))
    prove('limit: yields the absolute limit', T(got) == p + ln)
    # anything may be read inside, up to the limit
    q = T(sint('after', 0))
    assume(And(q >= p, q <= p + ln))
    s.seek(mkint(q))
    r, e = attempt(cm.__exit__, None, None, None)
    if e is None:
        prove('limit: left only when everything was read', q == p + ln)
    else:
        prove('limit: bytes left are a buffer error', buffer_error(e), exc_name(e))
        prove('limit: an error only when bytes are left', q != p + ln)
    # the enclosing limit is in force again
    n = T(sint('n', 0))
    got, e2 = attempt(s.read_exactly, mkint(n))
    if e is None:
        if lim is None:
            b2 = bound
        else:
            b2 = simp(z3.If(nz(lim) < nz(blen(data)), nz(lim), nz(blen(data))))
        check_exact('limit: afterwards', s, data, q, b2, lim, n, got, e2) if branch(q <= nz(blen(data))) else None
    cover('limit')


@task('limit_exception')
def t_limit_exception():
    """an error raised inside of a limited region goes through"""
    s, data, p, bound, lim = stream(0)
    ln = T(sint('length', 0))
    class Boom(Exception):
        pass
    def run():
        with s.limit(mkint(ln)):
            raise Boom
    r, e = attempt(run)
    prove('limit: errors go through', isinstance(e, Boom))


@task('assert_eof')
def t_assert_eof():
    s, data, p, bound, lim = stream(0)
    r, e = attempt(s.is_eof)
    prove('is_eof: says whether bytes are left', And(e is None, Implies(nz(p) == nz(blen(data)), r if e is None else False),
                                                     Implies(nz(p) != nz(blen(data)), Not(r) if e is None else False)))
    prove('is_eof: does not move', T(s.tell()) == nz(p))
    r, e = attempt(s.assert_eof)
    if e is None:
        prove('assert_eof: silent only at the end', nz(p) == nz(blen(data)))
    else:
        prove('assert_eof: buffer error', buffer_error(e), exc_name(e))
        prove('assert_eof: only when bytes remain', nz(p) != nz(blen(data)))
    prove('assert_eof: does not move', T(s.tell()) == nz(p))
    cover('assert_eof')


@task('lookahead')
def t_lookahead():
    s, data, p, bound, lim = stream()
    n = T(sint('n', 0))
    class Boom(Exception):
        pass
    boom = choose([False, True])
    def run():
        with s.lookahead():
            s.read_exactly(mkint(n))
            if boom:
                raise Boom
    r, e = attempt(run)
    prove('lookahead: the position is restored', T(s.tell()) == nz(p))
    cover('lookahead')


def writable():
    """a stream with some content already, positioned at its end"""
    m = serial()
    s = m.SerialIO()
    pre = bvar('pre')
    s.write(pre)
    return s, pre


def back(s, pre, f):
    """read what was written after pre"""
    s.seek(mkint(nz(blen(pre))))
    return attempt(f)


@task('write_int')
def t_write_int():
    w = choose([1, 2, 3, 4, 8, 16])
    s, pre = writable()
    v = T(sint('v'))
    r, e = attempt(s.write_int, w, mkint(v))
    fits = And(v >= 0, v < 256 ** w)
    if e is not None:
        prove('write_int: refuses only what does not fit', Not(fits))
        prove('write_int: refusing writes nothing', beq(s.getvalue(), pre))
        return
    prove('write_int: refuses what does not fit', fits)
    prove('write_int: writes its bytes', beq(s.getvalue(), concat(pre, ube(mkint(v), w))))
    got, e = back(s, pre, lambda: s.read_int(w))
    prove('write_int: read back', And(e is None, T(got) == v if e is None else False))
    r, e = attempt(s.assert_eof)
    prove('write_int: consumes everything', e is None)
    cover('write_int')


@task('write_var')
def t_write_var():
    w = choose([1, 2, 3])
    s, pre = writable()
    b = bvar('b')
    r, e = attempt(s.write_var, w, b)
    fits = nz(blen(b)) < 256 ** w
    if e is not None:
        prove('write_var: refuses only what does not fit', Not(fits))
        return
    prove('write_var: refuses what does not fit', fits)
    prove('write_var: length then bytes', beq(s.getvalue(), concat(pre, ube(mkint(blen(b)), w), b)))
    got, e = back(s, pre, lambda: s.read_var(w))
    prove('write_var: read back', And(e is None, beq(got, b) if e is None else False))
    r, e = attempt(s.assert_eof)
    prove('write_var: consumes everything', e is None)
    cover('write_var')


@task('write_listint')
def t_write_listint():
    wl, wi = choose([(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (2, 4)])
    s, pre = writable()
    items = intlist('items', 0, 256 ** wi - 1)
    r, e = attempt(s.write_listint, wl, wi, items)
    fits = nz(items.n) * wi < 256 ** wl
    if e is not None:
        prove('write_listint: refuses only what does not fit', Not(fits))
        return
    prove('write_listint: refuses what does not fit', fits)
    got, e = back(s, pre, lambda: s.read_listint(wl, wi))
    if e is not None:
        fail('write_listint: can be read back', exc_name(e))
        return
    prove('write_listint: read back', sym.list_eq(desym(got) if isinstance(desym(got), SList) else SList([('c', list(got))]), items))
    r, e = attempt(s.assert_eof)
    prove('write_listint: consumes everything', e is None)
    cover('write_listint')


@task('write_listint_item')
def t_write_listint_item():
    """an item that does not fit is refused"""
    wl, wi = choose([(1, 1), (2, 2), (2, 4)])
    s, pre = writable()
    v, u = T(sint('u')), T(sint('v'))
    r, e = attempt(s.write_listint, wl, wi, [mkint(u), mkint(v)])
    ok = And(v >= 0, v < 256 ** wi, u >= 0, u < 256 ** wi)
    prove('write_listint: refuses exactly the items that do not fit', ok if e is None else Not(ok))


def varlist(name, lo=0, hi=None):
    """a list of any number of byte strings of any length"""
    def elem(k):
        b = bvar(name + '_item', None, (nz(k),))
        n = nz(blen(b))
        ctx().assume(n >= lo)
        if hi is not None:
            ctx().assume(n <= hi)
        return b
    return slist(name, None, elem)


@task('write_listvar', cost=5)
def t_write_listvar():
    wl, wi = choose([(1, 1), (2, 1), (2, 2), (3, 3)])
    s, pre = writable()
    items = varlist('items', 0, 256 ** wi - 1)
    r, e = attempt(s.write_listvar, wl, wi, items)
    f = Fold(0, items.n, lambda k: rope_of(concat(ube(mkint(blen(items.at(k))), wi), items.at(k))))
    fits = nz(f.n) < 256 ** wl
    if e is not None:
        prove('write_listvar: refuses only what does not fit', Not(fits))
        return
    prove('write_listvar: refuses what does not fit', fits)
    prove('write_listvar: bytes', beq(s.getvalue(), concat(pre, ube(mkint(f.n), wl), mkbytes((f,)))))
    prove('write_listvar: left at the end', T(s.tell()) == nz(blen(s.getvalue())))
    got, e = back(s, pre, lambda: s.read_listvar(wl, wi))
    if e is not None:
        fail('write_listvar: can be read back', exc_name(e))
        return
    g = desym(got)
    prove('write_listvar: read back', sym.list_eq(g if isinstance(g, SList) else SList([('c', list(g))]), items))
    r, e = attempt(s.assert_eof)
    prove('write_listvar: consumes everything', e is None)
    cover('write_listvar')


@task('write_listvar_item')
def t_write_listvar_item():
    s, pre = writable()
    b, b2 = bvar('b'), bvar('b2')
    r, e = attempt(s.write_listvar, 3, 1, [b, b2])
    ok = And(nz(blen(b)) < 256, nz(blen(b2)) < 256)
    prove('write_listvar: refuses exactly the items that do not fit', ok if e is None else Not(ok))
