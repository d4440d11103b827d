"""The TLS presentation language, written from RFC 8446 section 3, for contracts."""
from pyvc.harness import *


def too_long_list():
    return ghost().setdefault('too_long', [])


def too_long():
    """some length or value does not fit in its field"""
    l = too_long_list()
    return z3.Or(l) if l else z3.BoolVal(False)


def u(n, v):
    """uintN: big endian on n bytes"""
    return mkbytes((be(zi(v), n),)) if not isinstance(zi(v), int) else int(zi(v)).to_bytes(n, 'big')


def vec(n, body):
    """opaque body<0..2^8n-1>"""
    l = simp(nz(blen(body)))
    if not isinstance(l, int):
        too_long_list().append(l >= 256 ** n)
        return mkbytes((be(l, n), *rope_of(body)))
    if l >= 256 ** n:
        too_long_list().append(z3.BoolVal(True))
        return body
    return concat(l.to_bytes(n, 'big'), body)


def item(n, body):
    """opaque body<0..2^8n-1> of an item that is known to fit"""
    return mkbytes((be(simp(nz(blen(body))), n), *rope_of(body)))


def nat(name, hi, idx=()):
    """an integer of [0, hi]"""
    f = z3.Function(name, *([z3.IntSort()] * (len(idx) + 1))) if idx else None
    t = f(*[nz(i) for i in idx]) if f is not None else z3.Int(name)
    ctx().assume(z3.And(t >= 0, t <= hi))
    return mkint(t)


def many(l, enc):
    """the concatenation of the encodings of the items"""
    return mkbytes((Fold(0, l.n, lambda k: rope_of(enc(l.at(k)))),))


def enum_or_int(name, cls, width):
    if choose([0, 1]):
        return senum(cls, name)
    v = sint(name + '_other', 0, 256 ** width - 1)
    for m in cls:
        ctx().assume(T(v) != int(m))
    return v


def enums(name, cls, width):
    """a list of code points, known or not"""
    l = intlist(name, 0, 256 ** width - 1)
    return l, many(l, lambda v: u(width, v))


def ints(name, width):
    l = intlist(name, 0, 256 ** width - 1)
    return l, many(l, lambda v: u(width, v))


def blobs(name, width):
    def elem(k):
        b = bvar(name, None, (nz(k),))
        ctx().assume(nz(blen(b)) < 256 ** width)
        return b
    l = slist(name + 's', None, elem)
    return l, many(l, lambda b: concat(mkbytes((be(nz(blen(b)), width),)), b))
body_blobs = blobs


def same(a, b):
    """condition for two values read and written to be equal, structurally"""
    a, b = desym(a), desym(b)
    if isinstance(a, (dict, SDict)) and isinstance(b, (dict, SDict)):
        if isinstance(a, SDict) or isinstance(b, SDict):
            pa, pb = SList(rt.dict_pairs(a)), SList(rt.dict_pairs(b))
            return _b(pa == pb)
        if len(a) != len(b):
            return z3.BoolVal(False)
        ps = zip(rt.dict_items(a), rt.dict_items(b))
        return z3.And([z3.And(same(k, l), same(v, w)) for (k, v), (l, w) in ps])
    if isinstance(a, Sym) or isinstance(b, Sym):
        if isinstance(a, SList) and isinstance(b, (list, tuple)):
            b = SList([('c', list(b))])
        if isinstance(b, SList) and isinstance(a, (list, tuple)):
            a = SList([('c', list(a))])
        return _b(sym.val_eq(a, b))
    if type(a) is type(b) and (type(a).__module__.startswith('siotls') or hasattr(type(a), '__vc_copy__')) and not isinstance(a, (int, str, tuple, type)):
        ks = set(vars(a)) | set(vars(b))
        return z3.And([same(vars(a).get(k, ()), vars(b).get(k, ())) for k in sorted(ks)])
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return z3.BoolVal(False)
        return z3.And([same(x, y) for x, y in zip(a, b)])
    return _b(sym.val_eq(a, b))


def _b(r):
    return z3.BoolVal(r) if isinstance(r, bool) else cond(r)


def text(name, idx=(), rng=(32, 126)):
    """an arbitrary string of printable ASCII and its encoding"""
    s = sym.SymStr(name, idx=idx)
    return s, bvar(f'enc({name})', None, idx, rng=rng)


def texts(name, width):
    """non-empty strings of printable ASCII that fit in their length field"""
    c = ctx()
    c.tables['range'] = {**c.tables.get('range', {}), f'enc({name})': (32, 126)}
    def elem(k):
        s, b = text(name, (nz(k),))
        ctx().assume(z3.And(nz(blen(b)) >= 1, nz(blen(b)) < 256 ** width))
        return s
    l = slist(name + 's', None, elem)
    return l, many(l, lambda s: concat(mkbytes((be(nz(blen(s.encode())), width),)), s.encode()))


def host_name(name):
    """a host name in canonical form: idna decodes its encoding to it"""
    s = sym.SymStr(name)
    b = bvar(f'idna({name})')
    assume(nz(blen(b)) >= 1)
    return s, b


def byte_list(name, n):
    """a list of n-tuples of bytes"""
    fs = [z3.Function(f'{name}{i}', z3.IntSort(), z3.IntSort()) for i in range(n)]
    def elem(k):
        for f in fs:
            ctx().assume(z3.And(f(nz(k)) >= 0, f(nz(k)) <= 255))
        return tuple(mkint(f(nz(k))) for f in fs)
    l = slist(name + 's', None, elem)
    return l, many(l, lambda t: mkbytes(tuple(be(zi(v), 1) for v in t)))


def enum_blob_map(name, cls):
    """{code point: bytes} with pairwise distinct keys"""
    f = z3.Function(f'key:{name}', z3.IntSort(), z3.IntSort())
    inv = z3.Function(f'position:{name}', z3.IntSort(), z3.IntSort())
    def elem(k):
        t = f(nz(k))
        ctx().assume(z3.And(t >= 0, t < 65536, inv(t) == nz(k)))
        b = bvar(name, None, (nz(k),))
        ctx().assume(nz(blen(b)) < 65536)
        return (mkint(t), b)
    pairs = slist(name + 's', None, elem)
    d = SDict(pairs, distinct=True)
    return None, None, d, many(pairs, lambda p: concat(u(2, p[0]), mkbytes((be(nz(blen(p[1])), 2),)), p[1]))


# -- extensions inside of messages, by the contract of Extension.parse and serialize (C03, C04) -------------

class AbstractExt:
    """an extension known by its type and its body only"""
    __vc_copy__ = True

    def __init__(self, extension_type, body):
        self.extension_type, self.body = extension_type, body

    def serialize(self):
        return concat(u(2, self.extension_type), item(2, self.body))

    def __eq__(self, o):
        if not isinstance(o, AbstractExt):
            return False
        return sym.mkbool(z3.And(T(self.extension_type) == T(o.extension_type), beq(self.body, o.body)))

    def __ne__(self, o):
        return sym.mkbool(z3.Not(cond(self == o)))
    __hash__ = None


def distinct_keys(pairs):
    c = ctx()
    a, b = c.newint('a'), c.newint('b')
    n = nz(pairs.n)
    inside = z3.And(a >= 0, a < n, b >= 0, b < n, a != b)
    if c.must(z3.Not(inside)):
        return True
    return c.must(z3.Implies(inside, T(pairs.at(a)[0]) != T(pairs.at(b)[0])))


def abstract_extensions(messages=None, refuse=False):
    """Extension.parse is replaced with its contract: it reads a type and a body no longer than announced, and returns
    an extension (or raises an alert, with refuse)"""
    g = ghost()
    g['abstract_ext'] = True
    g['carriers'] = messages
    g['refuse'] = refuse
    if not refuse:
        g['distinct_keys'] = distinct_keys


def ext_parse(*a, **k):
    from siotls.contents.handshakes.extensions import Extension
    if not core.C or not ghost().get('abstract_ext'):
        return Extension.__dict__['parse'].__func__(Extension, *a, **k)
    return _ext_parse(*a, **k)


def _ext_parse(stream, *, handshake_type, **kwargs):
    from siotls.contents import alerts
    c = ghost().get('carriers')
    if c is not None:
        prove('extensions are parsed in the context of their message', handshake_type.name in c, handshake_type.name)
    t = stream.read_int(2)
    body = stream.read_var(2)
    if ghost().get('refuse') and bool(sym.atom('refused', t, body, handshake_type.name)):
        raise alerts.IllegalParameter('refused')
    return AbstractExt(t, body)


def install():
    from siotls.contents.handshakes.extensions import Extension
    rt.METHODS[Extension, 'parse'] = ext_parse


def ext_list(name='ext'):
    """an arbitrary list of extensions of distinct types, and the bytes of Extension extensions<..2^16-1>"""
    f = z3.Function(f'type:{name}', z3.IntSort(), z3.IntSort())
    inv = z3.Function(f'position:{name}', z3.IntSort(), z3.IntSort())

    def elem(k):
        t = f(nz(k))
        ctx().assume(z3.And(t >= 0, t < 65536, inv(t) == nz(k)))
        b = bvar(f'{name}_body', None, (nz(k),))
        ctx().assume(nz(blen(b)) < 65536)
        return AbstractExt(mkint(t), b)
    l = slist(f'{name}s', None, elem)
    return l, vec(2, many(l, lambda e: e.serialize()))
