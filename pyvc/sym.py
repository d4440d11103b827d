"""Symbolic values: integers, booleans, byte strings (ropes), lists, opaques."""
import z3
from . import core
from .core import Unsupported, ctx

I = z3.IntVal


def zi(x):
    """Python int / SymInt / z3 term -> z3 term (or python int)."""
    if isinstance(x, SymInt):
        return x.t
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return int(x)
    if z3.is_expr(x):
        if z3.is_int_value(x):
            return x.as_long()
        return x
    raise Unsupported(f'not an integer: {type(x).__name__}')


def simp(t):
    if isinstance(t, int):
        return t
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return t


def mkint(t):
    t = simp(t)
    return t if isinstance(t, int) else SymInt(t)


def mkbool(c):
    if isinstance(c, bool):
        return c
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return SymBool(c)


def zb(x):
    """bool-ish -> z3 Bool"""
    if isinstance(x, SymBool):
        return x.c
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if z3.is_expr(x):
        return x
    raise Unsupported(f'not a boolean: {type(x).__name__}')


class Sym:
    """Base of every symbolic value."""
    def _nope(self, what):
        raise Unsupported(f'{what} on {type(self).__name__}')
    def __hash__(self): self._nope('hash')
    def __index__(self): self._nope('index')
    def __int__(self): self._nope('int()')
    def __float__(self): self._nope('float()')
    def __getitem__(self, i): self._nope('subscript')
    def __setitem__(self, i, v): self._nope('item assignment')
    def __delitem__(self, i): self._nope('item deletion')
    def __iter__(self): self._nope('native iteration')
    def __len__(self): self._nope('native len')
    def __contains__(self, x): self._nope('native in')
    def __call__(self, *a, **k): self._nope('call')
    def __bytes__(self): self._nope('bytes()')
    def __repr__(self): return f'<{type(self).__name__}>'
    def __str__(self): return repr(self)
    def __format__(self, spec): return repr(self)


def _binop_unsupported(name):
    def f(self, other):
        raise Unsupported(f'{name} on {type(self).__name__} and {type(other).__name__}')
    return f


for _n in ('add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod pow rpow '
           'and rand or ror xor rxor lshift rlshift rshift rrshift lt le gt ge matmul '
           'neg pos invert abs').split():
    if _n in ('neg', 'pos', 'invert', 'abs'):
        setattr(Sym, f'__{_n}__', (lambda nn: lambda self: self._nope(nn))(_n))
    else:
        setattr(Sym, f'__{_n}__', _binop_unsupported(_n))


class SymBool(Sym):
    def __init__(self, c):
        self.c = c
    def __bool__(self):
        return ctx().branch(self.c)
    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)):
            return mkbool(self.c == zb(o))
        return False
    __hash__ = Sym.__hash__
    def __ne__(self, o):
        if isinstance(o, (SymBool, bool)):
            return mkbool(self.c != zb(o))
        return True
    def __and__(self, o): return mkbool(z3.And(self.c, zb(o)))
    def __or__(self, o): return mkbool(z3.Or(self.c, zb(o)))
    __rand__ = __and__
    __ror__ = __or__
    def as_int(self):
        return z3.If(self.c, I(1), I(0))
    def __add__(self, o): return mkint(self.as_int() + zi(o))
    __radd__ = __add__


def _isint(o):
    return isinstance(o, (int, SymInt))


class SymInt(Sym):
    def __init__(self, t):
        self.t = t

    def _cmp(self, o, f, default=NotImplemented):
        if isinstance(o, float):
            if o == float('inf') or o == float('-inf'):
                return f(0, o)
            if o != int(o):
                raise Unsupported('comparison with a float')
            o = int(o)
        if isinstance(o, SymBool):
            o = mkint(o.as_int())
        if not _isint(o):
            return default
        return mkbool(f(self.t, zi(o)))

    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b, False)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b, True)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    __hash__ = Sym.__hash__

    def __bool__(self):
        return ctx().branch(self.t != 0)

    def _ar(self, o, f):
        if isinstance(o, float) and o in (float('inf'), float('-inf')):
            return o
        if isinstance(o, SymBool):
            o = mkint(o.as_int())
        if not _isint(o):
            return NotImplemented
        return mkint(f(self.t, zi(o)))
    def __add__(self, o): return self._ar(o, lambda a, b: a + b)
    def __radd__(self, o): return self._ar(o, lambda a, b: b + a)
    def __sub__(self, o):
        if isinstance(o, float) and o == float('inf'):
            return -o
        return self._ar(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._ar(o, lambda a, b: b - a)
    def __mul__(self, o):
        if isinstance(o, (bytes, bytearray)):
            return brep(o, self.t)
        if isinstance(o, SymBytes):
            return o * self
        return self._ar(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(self): return mkint(-self.t)
    def __pos__(self): return self
    def __abs__(self): return mkint(z3.If(self.t >= 0, self.t, -self.t))
    def __invert__(self): return mkint(-self.t - 1)

    def _div(self, a, b, which):
        if isinstance(b, int):
            if b == 0:
                raise ZeroDivisionError('integer division or modulo by zero')
            if b < 0:
                raise Unsupported('division by a negative constant')
        else:
            if ctx().branch(b == 0):
                raise ZeroDivisionError('integer division or modulo by zero')
            if not ctx().must(b > 0):
                raise Unsupported('division by a possibly negative number')
        a = I(a) if isinstance(a, int) else a
        if isinstance(b, int):
            return mkint(a / b) if which == 'div' else mkint(a % b)
        # a symbolic divisor is not linear: name quotient and remainder, with the
        # facts of floor division that stay linear (sound, incomplete)
        c = ctx()
        tab = c.tables.setdefault('divmod', {})
        key = (str(simp(a)), str(b))
        if key not in tab:
            q, r = c.newint('quo'), c.newint('rem')
            c.assume(z3.And(r >= 0, r < b, z3.Implies(a >= 0, z3.And(q >= 0, q <= a)),
                            z3.Implies(z3.And(a >= 0, a < b), z3.And(q == 0, r == a)),
                            z3.Implies(a == b, z3.And(q == 1, r == 0)),
                            z3.Implies(a < 0, q < 0), z3.Implies(a >= b, q >= 1),
                            z3.Implies(z3.And(a > b, a < 2 * b), z3.And(q == 1, r == a - b)),
                            z3.Implies(z3.And(a < 0, a >= -b), z3.And(q == -1, r == a + b))))
            c.assume(a == q * b + r)
            tab[key] = q, r
        q, r = tab[key]
        return mkint(q) if which == 'div' else mkint(r)
    def __floordiv__(self, o):
        if not _isint(o): return NotImplemented
        return self._div(self.t, zi(o), 'div')
    def __rfloordiv__(self, o):
        if not _isint(o): return NotImplemented
        return self._div(zi(o), self.t, 'div')
    def __mod__(self, o):
        if not _isint(o): return NotImplemented
        return self._div(self.t, zi(o), 'mod')
    def __rmod__(self, o):
        if not isinstance(o, int): return NotImplemented
        return self._div(zi(o), self.t, 'mod')
    def __divmod__(self, o):
        return self // o, self % o
    def __truediv__(self, o):
        if isinstance(o, int) and o > 0:
            return Ratio(self.t, o)
        if isinstance(o, SymInt):
            return Ratio(self.t, o.t)
        raise Unsupported('true division')
    def __rtruediv__(self, o):
        return Ratio(zi(o), self.t)
    def __lshift__(self, o):
        if isinstance(o, int): return mkint(self.t * (1 << o))
        raise Unsupported('shift by a symbolic amount')
    def __rshift__(self, o):
        if isinstance(o, int): return mkint(self.t / (1 << o))
        raise Unsupported('shift by a symbolic amount')
    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return mkint(self.t % (o + 1))
        raise Unsupported('bitwise and')
    __rand__ = __and__
    def __or__(self, o):
        # exact when the operands have no common bit
        a, b = self.t, zi(o)
        c = ctx()
        for k in (8, 16, 24, 32):
            if c.must(z3.And(a % (1 << k) == 0, b >= 0, b < (1 << k))):
                return mkint(a + b)
            if c.must(z3.And(b % (1 << k) == 0, a >= 0, a < (1 << k))):
                return mkint(a + b)
        raise Unsupported('bitwise or')
    __ror__ = __or__
    def __xor__(self, o):
        if not _isint(o): return NotImplemented
        return sxor(self, o)
    __rxor__ = __xor__
    def __pow__(self, o, mod=None):
        raise Unsupported('power')

    # methods of int
    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        if isinstance(length, SymInt) or signed:
            raise Unsupported('to_bytes with a symbolic length')
        if byteorder != 'big':
            if length == 1:
                pass
            else:
                return SymBytes((Opq('le', (self.t,), length),))
        c = ctx()
        if c.branch(self.t < 0):
            raise OverflowError("can't convert negative int to unsigned")
        if not c.branch(self.t < I(256 ** length)):
            raise OverflowError('int too big to convert')
        if length == 0:
            return b''
        return mkbytes((be(self.t, length),))

    def bit_length(self):
        raise Unsupported('bit_length')

    @property
    def name(self): return SymStr(f'name({self.t})')
    @property
    def value(self): return self
    @property
    def real(self): return self

    def __repr__(self): return f'<int {self.t}>'


class SymEnum(SymInt):
    """A symbolic member of an IntEnum class."""
    def __init__(self, cls, t):
        self.t = t
        self.cls = cls
    def __repr__(self): return f'<{self.cls.__name__} {self.t}>'
    @property
    def name(self): return SymStr(f'{self.cls.__name__}.name({self.t})')
    @property
    def value(self): return mkint(self.t)


class Ratio(Sym):
    """a/b, only good for math.ceil / math.floor / int()."""
    def __init__(self, a, b):
        self.a, self.b = a, b
    def ceil(self):
        return -((-mkint(self.a)) // mkint(self.b))
    def floor(self):
        return mkint(self.a) // mkint(self.b)


_XOR = z3.Function('xor', z3.IntSort(), z3.IntSort(), z3.IntSort())


def sxor(a, b):
    """Exclusive-or of non-negative integers as an uninterpreted function with
    the (bit-vector checked, see selftest) facts: involution on the right,
    identity, and the result fits the width both operands fit."""
    a, b = zi(a), zi(b)
    if isinstance(a, int) and isinstance(b, int):
        return a ^ b
    az = I(a) if isinstance(a, int) else a
    bz = I(b) if isinstance(b, int) else b
    r = _XOR(az, bz)
    c = ctx()
    facts = [_XOR(r, bz) == az, _XOR(az, r) == bz, _XOR(bz, az) == r,
             z3.Implies(bz == 0, r == az), z3.Implies(az == 0, r == bz),
             z3.Implies(z3.And(az >= 0, bz >= 0), r >= 0)]
    for w in (64, 96, 128):
        facts.append(z3.Implies(z3.And(az >= 0, bz >= 0, az < I(2 ** w), bz < I(2 ** w)),
                                z3.And(r >= 0, r < I(2 ** w))))
    c.assume(z3.And(facts))
    return mkint(r)


# ----------------------------------------------------------------------
# strings: only an opaque label, good for messages
# ----------------------------------------------------------------------

class SymStr(Sym):
    """An opaque string identified by a label (equal labels, equal strings)."""
    def __init__(self, label, length=None, idx=()):
        self.label = label
        self.idx = tuple(idx)
        self.n = length
    def key(self):
        return (self.label,) + tuple(str(simp(i)) for i in self.idx)
    def __eq__(self, o):
        if isinstance(o, SymStr):
            if o.key() == self.key():
                return True
            if o.label == self.label and len(o.idx) == len(self.idx):
                same = z3.And([nz(p) == nz(q) for p, q in zip(o.idx, self.idx)])
                if ctx().must(same):
                    return True
            return atom_sym('streq', self, o)
        if isinstance(o, str):
            return atom('streq', self, repr(str(o)))
        return False
    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(z3.Not(r.c)) if isinstance(r, SymBool) else not r
    __hash__ = Sym.__hash__
    def __bool__(self):
        r = atom('strnonempty', self)
        return bool(r)
    def __add__(self, o): return SymStr(f'{self.label}+{o}')
    def __radd__(self, o): return SymStr(f'{o}+{self.label}')
    def encode(self, *a):
        return bvar(f'enc({self.label})', idx=self.idx)
    def lower(self): return SymStr(f'lower({self.label})', idx=self.idx)
    def __repr__(self): return f'<str {self.label}>'


def sig(x):
    """(text, terms): what identifies a value, with its z3 terms abstracted."""
    if isinstance(x, bool):
        return repr(x), []
    if isinstance(x, int):
        return str(int(x)), []
    if z3.is_expr(x):
        if z3.is_int_value(x):
            return str(x.as_long()), []
        return '@', [x]
    if isinstance(x, SymInt):
        return sig(x.t)
    if isinstance(x, SymBytes):
        return _join_sig('B', [seg_sig(s) for s in norm(x.r)])
    if isinstance(x, (bytes, bytearray)):
        return repr(bytes(x)), []
    if isinstance(x, SymStr):
        return _join_sig(f's:{x.label}', [sig(i) for i in x.idx])
    if isinstance(x, Opaque):
        return _join_sig(f'o:{x.kind}:{x.oname}', [sig(i) for i in x.idx])
    if isinstance(x, (tuple, list)):
        return _join_sig(type(x).__name__, [sig(i) for i in x])
    if isinstance(x, Sym):
        raise Unsupported(f'identity of a {type(x).__name__}')
    return repr(x), []


def _join_sig(head, sigs):
    return head + '(' + ','.join(t for t, _ in sigs) + ')', [y for _, ys in sigs for y in ys]


def seg_sig(s):
    if isinstance(s, Lit):
        return repr(s.b), []
    if isinstance(s, Be):
        return _join_sig(f'be{s.n}', [sig(s.t)])
    if isinstance(s, Sl):
        return _join_sig(f'{s.base.name}', [sig(i) for i in s.base.idx] + [sig(s.off), sig(s.n)])
    if isinstance(s, Rep):
        return _join_sig(f'rep', [sig(s.byte), sig(s.n)])
    if isinstance(s, Opq):
        return _join_sig(f'opq{s.f}', [sig(i) for i in s.args])
    if isinstance(s, Fold):
        return _join_sig(f'fold:{s.fid}', [sig(i) for i in s.args] + [sig(s.lo), sig(s.hi)])
    raise Unsupported('signature')


def predicate(name, terms):
    if not terms:
        return z3.Bool(name)
    terms = [nz(t) for t in terms]
    return z3.Function(name, *([z3.IntSort()] * len(terms)), z3.BoolSort())(*terms)


def atom(kind, *key):
    """An uninterpreted predicate over the z3 terms found in its key."""
    text, terms = _join_sig(kind, [(k, []) if isinstance(k, str) else sig(k) for k in key])
    return SymBool(predicate(text, terms))


def atom_sym(kind, x, y):
    """The same for a symmetric predicate."""
    sx, sy = sig(x), sig(y)
    if sy < sx if sx[0] == sy[0] and not sx[1] else sy[0] < sx[0]:
        sx, sy = sy, sx
    text, terms = _join_sig(kind, [sx, sy])
    return SymBool(predicate(text, terms))


# ----------------------------------------------------------------------
# byte strings
# ----------------------------------------------------------------------

class Base:
    """An unknown byte string (a variable, or the result of a function)."""
    def __init__(self, name, length, idx=(), app=None):
        self.name = name
        self.idx = tuple(idx)
        self.len = length
        self.app = app          # (function, args) for applications
        self.at_f = z3.Function(f'at:{name}', *([z3.IntSort()] * (len(self.idx) + 1)), z3.IntSort())

    def same(self, o):
        """None: different variables, else the condition under which they are the same."""
        if self is o:
            return True
        if self.name != o.name or len(self.idx) != len(o.idx):
            return None
        conds = [z3.simplify(a == b) if z3.is_expr(a) or z3.is_expr(b) else a == b
                 for a, b in zip(self.idx, o.idx)]
        conds = [x for x in conds if not (x is True or z3.is_true(x))]
        return z3.And([zb(x) for x in conds]) if conds else True

    def at(self, off):
        t = self.at_f(*[I(i) if isinstance(i, int) else i for i in self.idx],
                      I(off) if isinstance(off, int) else off)
        c = ctx()
        seen = c.tables.setdefault('at', set())
        k = str(t)
        if k not in seen:
            seen.add(k)
            lo, hi = c.tables.get('range', {}).get(self.name, (0, 255))
            c.assume(z3.And(t >= lo, t <= hi))
        return t

    def __repr__(self):
        return self.name + (str(list(self.idx)) if self.idx else '')


class Seg:
    pass


class Lit(Seg):
    def __init__(self, b): self.b = bytes(b)
    @property
    def n(self): return len(self.b)
    def cut(self, a, b): return Lit(self.b[a:b])
    def __repr__(self): return repr(self.b)


class Be(Seg):
    """n-byte big-endian encoding of t, 0 <= t < 256**n"""
    def __init__(self, t, n): self.t, self.n = t, n
    def __repr__(self): return f'be{self.n}({self.t})'


class Sl(Seg):
    """bytes off..off+n of a base"""
    def __init__(self, base, off, n): self.base, self.off, self.n = base, off, n
    def __repr__(self): return f'{self.base}[{self.off}:+{self.n}]'


class Rep(Seg):
    def __init__(self, byte, n): self.byte, self.n = byte, n
    def __repr__(self): return f'{self.byte}*{self.n}'


class Opq(Seg):
    """an opaque function of integer terms with a known length"""
    def __init__(self, f, args, n): self.f, self.args, self.n = f, args, n
    def __repr__(self): return f'{self.f}{self.args}'


def constants(terms):
    """0-ary integer constants of terms, in order of occurrence"""
    out, seen = [], set()
    def go(t):
        if z3.is_quantifier(t):
            raise Unsupported('quantifier inside of a term')
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(t)
        for ch in t.children():
            go(ch)
    for t in terms:
        go(t)
    return out


_BOUND = z3.Int('\u2022')


class Fold(Seg):
    """concatenation of body(k) for lo <= k < hi"""
    def __init__(self, lo, hi, body, fid=None, args=None, size=None, least=0):
        self.lo, self.hi, self.body = lo, hi, body
        if fid is None:
            r = self.generic_body(lo, hi, body)
            n = rlen(r)
            size = n if isinstance(n, int) else None
            least = sum(s.n for s in r if not isinstance(s, Fold) and isinstance(s.n, int))
            text, terms = _join_sig('', [seg_sig(s) for s in r])
            cs = [x for x in constants(terms) if not x.eq(_BOUND) and x.sort() == z3.IntSort()]
            sub = [(x, z3.Int(f'\u25e6{i}')) for i, x in enumerate(cs)]
            fid = text + ';'.join(str(z3.simplify(z3.substitute(t, *sub))) for t in terms)
            args = tuple(cs)
        self.fid, self.args, self.size, self.least = fid, args, size, least
        self.pl = z3.Function(f'PL:{fid}', *([z3.IntSort()] * (len(args) + 2)))

    @staticmethod
    def generic_body(lo, hi, body):
        c = ctx()

        def run():
            c.assume(z3.And(_BOUND >= nz(lo), _BOUND < nz(hi)))
            if not c.feasible():
                raise core.PathEnd
            return norm(body(_BOUND))
        outs = c.sub_explore(run)
        rs = []
        for _, kind, v in outs:
            if kind == 'exc':
                raise Unsupported(f'exception in the elements of a concatenation: {v!r}')
            if not any(_join_sig('', [seg_sig(x) for x in v])[0] == _join_sig('', [seg_sig(x) for x in w])[0]
                       and rope_key(v) == rope_key(w) for w in rs):
                rs.append(v)
        if not rs:
            return ()
        if len(rs) > 1:
            raise Unsupported('concatenation of elements of different shapes')
        return rs[0]

    def like(self, lo, hi):
        return Fold(lo, hi, self.body, self.fid, self.args, self.size, self.least)

    def total(self, k):
        """length of the first k elements"""
        if self.size is not None:
            return simp(nz(k) * self.size)
        return self.pl(*self.args, nz(k))

    @property
    def n(self):
        if self.size is not None:
            return simp((nz(self.hi) - nz(self.lo)) * self.size)
        c = ctx()
        a, b = self.total(self.lo), self.total(self.hi)
        seen = c.tables.setdefault('pl', set())
        k = f'{a}|{b}'
        if k not in seen:
            seen.add(k)
            c.assume(z3.And(self.total(0) == 0, z3.Implies(nz(self.lo) <= nz(self.hi),
                                                                  b - a >= (nz(self.hi) - nz(self.lo)) * self.least),
                            z3.Implies(nz(self.lo) >= 0, a >= 0),
                            z3.Implies(nz(self.lo) == nz(self.hi), a == b)))
        return simp(b - a)

    def element(self, k):
        """the k-th element, lo <= k < hi must hold"""
        el = norm(self.body(k))
        n = rlen(el)
        if self.size is None:
            c = ctx()
            seen = c.tables.setdefault('pl', set())
            key = f'el{self.total(k)}'
            if key not in seen:
                seen.add(key)
                nxt = simp(nz(k) + 1)
                c.assume(z3.And(self.total(nxt) == self.total(k) + n,
                                self.total(nxt) <= self.total(self.hi),
                                z3.Implies(nz(k) >= nz(self.lo), self.total(k) >= self.total(self.lo))))
        return el

    def unfold(self):
        """first element and the rest; lo < hi must hold"""
        el = self.element(self.lo)
        return el, self.like(simp(nz(self.lo) + 1), self.hi)

    def split(self, k):
        """[lo, k) + element k + [k+1, hi)"""
        el = self.element(k)
        return (self.like(self.lo, k), *el, self.like(simp(nz(k) + 1), self.hi))

    def __repr__(self): return f'fold:{self.fid}{list(self.args) if self.args else ""}[{self.lo}:{self.hi}]'


def be(t, n):
    t = simp(t)
    if isinstance(t, int):
        return Lit(t.to_bytes(n, 'big'))
    tab = ctx().tables.setdefault('intof', {})
    if (str(t), n) in tab:
        return tab[str(t), n]
    return Be(t, n)


def nz(n):
    return I(n) if isinstance(n, int) else n


def rlen(rope):
    tot = 0
    for s in rope:
        tot = tot + s.n
    return simp(tot)


def norm(rope):
    """Merge adjacent literals/slices, drop empty segments."""
    out = []
    for s in rope:
        if isinstance(s, Lit) and not s.b:
            continue
        if isinstance(s, (Sl, Rep)) and isinstance(s.n, int) and s.n <= 0:
            continue
        if isinstance(s, Fold):
            d = simp(nz(s.hi) - nz(s.lo))
            if isinstance(d, int) and d <= 0:
                continue
            if isinstance(d, int) and d == 1 and s.size is not None:
                out.extend(norm(s.body(s.lo)))
                continue
        if isinstance(s, Rep) and isinstance(s.n, int):
            s = Lit(bytes([s.byte]) * s.n) if isinstance(s.byte, int) and s.n < 70000 else s
        if out and isinstance(s, Lit) and isinstance(out[-1], Lit):
            out[-1] = Lit(out[-1].b + s.b)
            continue
        if out and isinstance(s, Sl) and isinstance(out[-1], Sl):
            p = out[-1]
            if p.base.same(s.base) is True:
                d = simp(p.off + p.n - s.off)
                if isinstance(d, int) and d == 0:
                    out[-1] = Sl(p.base, p.off, simp(p.n + s.n))
                    continue
        out.append(s)
    return tuple(out)


def mkbytes(rope, mutable=False):
    rope = norm(rope)
    if not mutable:
        if not rope:
            return b''
        if len(rope) == 1 and isinstance(rope[0], Lit):
            return rope[0].b
        return SymBytes(rope)
    return SymByteArray(rope)


def rope_of(x):
    if isinstance(x, SymBytes):
        return x.r
    if isinstance(x, (bytes, bytearray, memoryview)):
        return (Lit(bytes(x)),) if len(x) else ()
    raise TypeError(f"a bytes-like object is required, not '{type(x).__name__}'")


def isbytes(x):
    return isinstance(x, (bytes, bytearray, SymBytes, memoryview))


def bvar(name, length=None, idx=(), named=True, rng=None):
    """A byte string variable; its length is a non-negative integer; rng: of its bytes"""
    c = ctx()
    if rng is not None:
        c.tables['range'] = {**c.tables.get('range', {}), name: rng}
    tab = c.tables.setdefault('bvar', {})
    key = (name,) + tuple(str(simp(i)) for i in idx)
    if key not in tab:
        if length is None:
            f = z3.Function(f'len:{name}', *([z3.IntSort()] * len(idx)), z3.IntSort()) if idx \
                else None
            length = f(*[nz(i) for i in idx]) if f is not None else z3.Int(f'len:{name}')
            c.assume(length >= 0)
            if not idx and named:
                c.named[f'len:{name}'] = length
        tab[key] = Base(name, length, idx)
    b = tab[key]
    return mkbytes((Sl(b, 0, b.len),))


def brep(b, count):
    b = bytes(b)
    if len(b) == 0:
        return b''
    if len(b) != 1:
        raise Unsupported('repetition of a multi-byte string')
    count = simp(count) if not isinstance(count, int) else count
    if not isinstance(count, int):
        if not ctx().must(count >= 0):
            count = simp(z3.If(count < 0, I(0), count))
    elif count < 0:
        count = 0
    return mkbytes((Rep(b[0], count),))


def cut_seg(s, a, b):
    """s[a:b], 0 <= a <= b <= len(s) known; returns a rope"""
    n = simp(b - a)
    if isinstance(a, int) and a == 0 and isinstance(simp(s.n - b), int) and simp(s.n - b) == 0:
        return (s,)
    if isinstance(s, Sl):
        return (Sl(s.base, simp(s.off + a), n),)
    if isinstance(s, Rep):
        return (Rep(s.byte, n),)
    if isinstance(s, Lit):
        if isinstance(a, int) and isinstance(b, int):
            return (s.cut(a, b),)
        # case split on the position inside the literal
        c = ctx()
        if not isinstance(a, int):
            for k in range(len(s.b) + 1):
                if c.branch(a == k):
                    a = k
                    break
            else:
                raise core.PathEnd
        if not isinstance(b, int):
            for k in range(a, len(s.b) + 1):
                if c.branch(b == k):
                    b = k
                    break
            else:
                raise core.PathEnd
        return (s.cut(a, b),)
    if isinstance(s, (Be, Opq)):
        c = ctx()
        for nm in ('a', 'b'):
            v = a if nm == 'a' else b
            if not isinstance(v, int):
                for k in range(s.n + 1):
                    if c.branch(v == k):
                        break
                else:
                    raise core.PathEnd
                if nm == 'a':
                    a = k
                else:
                    b = k
        if isinstance(s, Opq):
            if a == 0 and b == s.n:
                return (s,)
            return (Opq(s.f + f'[{a}:{b}]', s.args, b - a),) if b > a else ()
        if b <= a:
            return ()
        t = s.t
        if b < s.n:
            t = t / I(256 ** (s.n - b))
        if a > 0:
            t = t % I(256 ** (b - a))
        return (be(t, b - a),)
    if isinstance(s, Fold):
        c = ctx()
        if s.size:
            q1, r1 = divide(a, s.size)
            q2, r2 = divide(b, s.size)
            if q1 is not None and q2 is not None:
                if r1 == 0 and r2 == 0:
                    return (s.like(simp(nz(s.lo) + q1), simp(nz(s.lo) + q2)),)
                if r2 and isinstance(simp(nz(q2) - nz(q1)), int) and simp(nz(q2) - nz(q1)) == 0:
                    return slice_rope(s.body(simp(nz(s.lo) + q1)), r1, r2)
                if r1 and r2 == 0 and isinstance(simp(nz(q2) - nz(q1)), int) and simp(nz(q2) - nz(q1)) == 1:
                    return slice_rope(s.body(simp(nz(s.lo) + q1)), r1, s.size)
        # walk the elements from the left
        # the whole element boundary positions may be matched symbolically
        if c.branch(z3.BoolVal(True) if isinstance(n, int) and n > 0 else nz(n) > 0):
            if not c.branch(nz(s.lo) < nz(s.hi)):
                raise core.PathEnd
            el, rest = s.unfold()
            return slice_rope(tuple(el) + (rest,), a, b)
        return ()
    raise Unsupported(f'slice of {s}')


def slice_rope(rope, a, b):
    """rope[a:b] for 0 <= a <= b <= len(rope)"""
    c = ctx()
    out = []
    pos = 0
    rope = tuple(rope)
    for s in rope:
        n = s.n
        end = simp(pos + n)
        # entirely before a?
        if _le(end, a):
            pos = end
            continue
        if _le(b, pos):
            break
        if c.nofork() and not isinstance(simp(a - pos), int) and c.must(nz(a) >= nz(pos)):
            lo = simp(a - pos)
        else:
            lo = simp(a - pos) if not _le(a, pos) else 0
        if s is rope[-1] and not isinstance(n, int) and (isinstance(simp(b - pos - lo), int) or c.nofork()):
            hi = simp(b - pos)
        elif _le(end, b):
            hi = n
        else:
            hi = simp(b - pos)
        out.extend(cut_seg(s, lo, hi))
        pos = end
        if hi is not n:
            break
    return norm(out)


def divide(t, c):
    """t == c*q + r syntactically, 0 <= r < c: (q, r), else (None, None)"""
    if isinstance(t, int):
        return t // c, t % c
    t = z3.simplify(t)
    args = t.children() if z3.is_add(t) else [t]
    const_, out = 0, []
    for x in args:
        if z3.is_int_value(x):
            const_ += x.as_long()
        elif z3.is_mul(x) and z3.is_int_value(x.arg(0)) and x.arg(0).as_long() % c == 0:
            co = x.arg(0).as_long() // c
            rest = x.children()[1:]
            v = rest[0]
            for y in rest[1:]:
                v = v * y
            out.append(co * v)
        elif c == 1:
            out.append(x)
        else:
            return None, None
    return simp(z3.Sum([*out, I(const_ // c)]) if out else I(const_ // c)), const_ % c


def _le(x, y):
    if isinstance(x, int) and isinstance(y, int):
        return x <= y
    return ctx().branch(nz(x) <= nz(y))


def clamp_slice(i, n):
    """Python slice bounds semantics for step 1: returns (a, b) with a<=b"""
    a, b = i.start, i.stop
    if i.step is not None and not (isinstance(i.step, int) and i.step == 1):
        return None
    c = ctx()

    def fix(v, default):
        if v is None:
            return default
        v = zi(v)
        if isinstance(v, int) and isinstance(n, int):
            if v < 0:
                v = max(0, v + n)
            return min(v, n)
        if c.branch(nz(v) < 0):
            v = simp(v + n)
            if c.branch(nz(v) < 0):
                return 0
            return v
        if c.nofork() and not c.must(nz(v) <= nz(n)) and not c.must(nz(v) > nz(n)):
            return simp(z3.If(nz(v) > nz(n), nz(n), nz(v)))
        if c.branch(nz(v) > nz(n)):
            return n
        return v
    a = fix(a, 0)
    b = fix(b, n)
    if a is b or (isinstance(a, int) and a == 0):
        return a, b
    if not _le(a, b):
        b = a
    return a, b


class SymBytes(Sym):
    mutable = False

    def __init__(self, rope):
        self.r = tuple(rope)

    @property
    def n(self):
        return rlen(self.r)

    def _len(self):
        return mkint(self.n)

    def __bool__(self):
        return ctx().branch(nz(self.n) > 0)

    def _new(self, rope):
        return mkbytes(rope, self.mutable)

    def __add__(self, o):
        if not isbytes(o):
            raise TypeError(f"can't concat {type(o).__name__} to bytes")
        return self._new(self.r + rope_of(o))

    def __radd__(self, o):
        if not isbytes(o):
            raise TypeError(f"can't concat bytes to {type(o).__name__}")
        return mkbytes(rope_of(o) + self.r, isinstance(o, bytearray) or getattr(o, 'mutable', False))

    def __mul__(self, o):
        if isinstance(o, int) and o <= 64:
            return self._new(self.r * o)
        if len(self.r) == 1 and isinstance(self.r[0], Lit):
            return brep(self.r[0].b, zi(o))
        raise Unsupported('repetition of symbolic bytes')
    __rmul__ = __mul__

    def __eq__(self, o):
        if not isbytes(o):
            return False
        return mkbool(rope_eq(self.r, rope_of(o)))

    def __ne__(self, o):
        if not isbytes(o):
            return True
        r = rope_eq(self.r, rope_of(o))
        return (not r) if isinstance(r, bool) else mkbool(z3.Not(r))
    __hash__ = Sym.__hash__

    def getitem(self, i):
        n = self.n
        if isinstance(i, slice):
            ab = clamp_slice(i, n)
            if ab is None:
                return self.step_slice(i)
            return self._new(slice_rope(self.r, *ab))
        i = zi(i)
        c = ctx()
        if isinstance(i, int) and i < 0 or not isinstance(i, int) and c.branch(i < 0):
            i = simp(i + n)
        if not c.branch(z3.And(nz(i) >= 0, nz(i) < nz(n))):
            raise IndexError('index out of range')
        return mkint(self.byte_at(i))

    def step_slice(self, i):
        raise Unsupported('slice with a step')

    def byte_at(self, i):
        pos = 0
        for s in self.r:
            end = simp(pos + s.n)
            if _le(simp(i + 1), end):
                off = simp(i - pos)
                if isinstance(s, Sl):
                    return s.base.at(simp(s.off + off))
                if isinstance(s, Rep):
                    return s.byte
                return int_of_rope(cut_seg(s, off, simp(off + 1)))
            pos = end
        raise core.PathEnd

    # --- methods of bytes ------------------------------------------------
    def join(self, it):
        raise Unsupported('join on a symbolic separator')
    def hex(self, *a):
        return SymHex(self)
    def tobytes(self):
        return mkbytes(self.r)
    def startswith(self, p, *a):
        if a or isinstance(p, tuple):
            raise Unsupported('startswith with bounds')
        p = rope_of(p)
        n = rlen(p)
        if not ctx().branch(nz(n) <= nz(self.n)):
            return False
        return mkbool(rope_eq(slice_rope(self.r, 0, n), p))
    def endswith(self, p, *a):
        if a or isinstance(p, tuple):
            raise Unsupported('endswith with bounds')
        p = rope_of(p)
        n = rlen(p)
        if not ctx().branch(nz(n) <= nz(self.n)):
            return False
        return mkbool(rope_eq(slice_rope(self.r, simp(self.n - n), self.n), p))
    def removeprefix(self, p):
        return self.getitem(slice(mkint(rlen(rope_of(p))), None)) if self.startswith(p) else self
    def strip_end(self, chars, left):
        """rstrip/lstrip of a single byte value: k bytes remain"""
        c = ctx()
        if chars is None or len(chars) != 1:
            raise Unsupported('strip of several values')
        v = chars[0]
        rope = list(self.r)
        # peel what is syntactically made of v
        while rope:
            s = rope[0] if left else rope[-1]
            if isinstance(s, Rep) and isinstance(s.byte, int):
                if s.byte == v:
                    rope.pop(0 if left else -1)
                    continue
                if c.branch(nz(s.n) > 0):
                    return self._new(rope)
                rope.pop(0 if left else -1)
                continue
            if isinstance(s, Lit):
                b = s.b.lstrip(bytes([v])) if left else s.b.rstrip(bytes([v]))
                if b:
                    rope[0 if left else -1] = Lit(b)
                    return self._new(rope)
                rope.pop(0 if left else -1)
                continue
            if isinstance(s, Be) and left and v == 0 and len(rope) == 1 and isinstance(s.n, int) and s.n > 16 \
                    and c.must(nz(s.t) >= I(256 ** max(s.n - 65, 0))):
                # a long integer with a bounded number of leading zeros: what is left is that integer, in fewer bytes
                k = c.newint('zeros')
                c.assume(z3.Or(*[z3.And(k == i, nz(s.t) < I(256 ** (s.n - i)), nz(s.t) >= I(256 ** (s.n - i - 1)))
                                 for i in range(min(65, s.n))]))
                b = Base(c.fresh('stripped#'), simp(s.n - k), tuple(c.generic))
                out = (Sl(b, 0, simp(s.n - k)),)
                c.tables.setdefault('beint', []).append((out, s.t))
                return self._new(out)
            if isinstance(s, Be):
                last = int_of_rope(cut_seg(s, 0, 1) if left else cut_seg(s, s.n - 1, s.n))
                if c.branch(nz(last) != v):
                    return self._new(rope)
                rest = cut_seg(s, 1, s.n) if left else cut_seg(s, 0, s.n - 1)
                rope[0 if left else -1:1 if left else None] = list(rest)
                continue
            break
        if not rope:
            return self._new(())
        s = rope[0] if left else rope[-1]
        if isinstance(s, Sl) and len(rope) == 1:
            # k bytes are stripped: all equal v, and the next is not v
            k = c.newint('strip')
            c.assume(z3.And(k >= 0, k <= nz(s.n)))
            j = z3.Int('j')
            first = (lambda x: s.off + x) if left else (lambda x: s.off + s.n - 1 - x)
            args = [nz(x) for x in s.base.idx]
            c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k),
                                               s.base.at_f(*args, nz(first(j))) == v)))
            c.assume(z3.Implies(k < nz(s.n), s.base.at(simp(first(k))) != v))
            out = self._new((Sl(s.base, simp(s.off + k), simp(s.n - k)),) if left else
                            (Sl(s.base, s.off, simp(s.n - k)),))
            if left and v == 0:
                # leading zeros are no part of the value
                c.assume(nz(zi(int_of_rope(self.r))) == nz(zi(int_of_rope(out.r))))
            return out
        raise Unsupported('strip of an arbitrary rope')
    def rstrip(self, chars=None): return self.strip_end(chars, False)
    def lstrip(self, chars=None): return self.strip_end(chars, True)
    def decode(self, *a):
        s = source_of(self, 'enc(')
        if s is not None:
            return s
        from .rt import bytes_seq
        c = ctx()
        if not c.branch(atom('utf8', self).c):
            # ASCII is always valid
            w = c.newint('notascii')
            c.assume(z3.And(w >= 0, w < nz(self.n)))
            c.assume(nz(zi(bytes_seq(self).at(w))) >= 128)
            if not c.feasible():
                raise core.PathEnd
            raise UnicodeDecodeError('utf-8', b'', 0, 1, 'invalid')
        return decoded(self, 'utf8')
    def isascii(self):
        return atom('isascii', self)
    def __repr__(self): return f'<bytes {" ".join(map(repr, self.r))}>'


def source_of(b, prefix):
    """the string b is the encoding of, when it is one"""
    r = norm(b.r)
    if len(r) == 1 and isinstance(r[0], Sl) and r[0].base.name.startswith(prefix):
        x = r[0]
        if ctx().must(z3.And(nz(x.off) == 0, nz(x.n) == nz(x.base.len))):
            return SymStr(x.base.name[len(prefix):-1], idx=x.base.idx)
    return None


def decoded(b, how):
    text, terms = sig(b)
    return SymStr(f'{how}({text})', idx=terms)


class SymByteArray(SymBytes):
    mutable = True

    def __iadd__(self, o):
        if not isbytes(o):
            raise TypeError(f"can't concat {type(o).__name__} to bytearray")
        self.r = norm(self.r + rope_of(o))
        return self
    def extend(self, o):
        if isbytes(o):
            self.r = norm(self.r + rope_of(o))
        elif isinstance(o, (list, tuple)) and all(isinstance(x, (int, SymInt)) for x in o):
            self.r = norm(self.r + tuple(be(zi(x), 1) for x in o))
        else:
            raise Unsupported('bytearray.extend')
    def append(self, v):
        self.r = norm(self.r + (be(zi(v), 1),))
    def clear(self):
        self.r = ()
    def delitem(self, i):
        if isinstance(i, slice):
            ab = clamp_slice(i, self.n)
            if ab is None:
                raise Unsupported('del with a step')
            a, b = ab
            n = self.n
            self.r = norm(slice_rope(self.r, 0, a) + slice_rope(self.r, b, n))
            return
        raise Unsupported('del of an item')
    def copy(self):
        return SymByteArray(self.r)
    def pop(self, *a):
        raise Unsupported('bytearray.pop')


class SymHex(SymStr):
    """hexadecimal text of a byte string"""
    def __init__(self, b):
        super().__init__('hex(' + rope_key(b.r) + ')')
        self.b = b
    def __eq__(self, o):
        if isinstance(o, SymHex):
            return self.b == o.b
        if isinstance(o, str):
            try:
                return self.b == bytes.fromhex(o)
            except ValueError:
                return False
        return False
    __hash__ = Sym.__hash__
    def __bool__(self):
        return bool(self.b)


def rope_key(rope):
    return '|'.join(repr(s) for s in norm(rope))


def int_of_rope(rope):
    """big-endian integer of a rope of concrete length"""
    rope = norm(rope)
    n = rlen(rope)
    c = ctx()
    if not rope:
        return 0
    if len(rope) == 1 and isinstance(rope[0], Be):
        return rope[0].t
    if len(rope) == 1 and isinstance(rope[0], Lit):
        return int.from_bytes(rope[0].b, 'big')
    if isinstance(n, int) and n <= 8:
        tot = 0
        for s in rope:
            if isinstance(s, Lit):
                v = int.from_bytes(s.b, 'big')
            elif isinstance(s, Be):
                v = s.t
            elif isinstance(s, Sl):
                m = simp(s.n)
                if not isinstance(m, int):
                    # its length is one of few
                    m = next((k for k in range(n + 1) if c.branch(nz(m) == k)), None)
                    if m is None:
                        raise Unsupported('integer of a symbolic length slice')
                    tot = tot * 256 ** m
                    for i in range(m):
                        tot = tot + nz(s.base.at(simp(s.off + i))) * 256 ** (m - 1 - i)
                    continue
                v = 0
                for i in range(m):
                    v = v * 256 + s.base.at(simp(s.off + i))
                v = simp(v)
            elif isinstance(s, Rep):
                v = int.from_bytes(bytes([s.byte]) * s.n, 'big')
            else:
                return _opaque_int(rope, n)
            tot = tot * (256 ** s.n) + v
        t = simp(tot)
        if not isinstance(t, int) and len(rope) == 1 and isinstance(rope[0], Sl):
            c.tables.setdefault('intof', {})[str(t), n] = rope[0]
        return t
    return _opaque_int(rope, n)


def _opaque_int(rope, n):
    """from_bytes of a long or variable length string: a named integer, the
    same for provably equal strings, which encodes back to the string."""
    c = ctx()
    tab = c.tables.setdefault('beint', [])
    for r, t in tab:
        if rope_must_eq(r, rope):
            return t
    t = c.newint('beint')
    c.assume(t >= 0)
    if isinstance(n, int):
        c.assume(t < I(256 ** n))
        if len(rope) == 1:
            c.tables.setdefault('intof', {})[str(t), n] = rope[0]
    tab.append((rope, t))
    return t


def _surely_unknown(a, b):
    """quick answers: nothing known makes these equal.  Results of uninterpreted functions are interned, so two different
    ones are not known to be equal unless bytes of one have been looked at (answering no too often is sound)."""
    if not a or not b:
        return False
    x, y = a[0], b[0]
    if isinstance(x, Lit) and isinstance(y, Lit):
        n = min(len(x.b), len(y.b))
        if x.b[:n] != y.b[:n]:
            return True
    if len(a) == len(b) == 1 and isinstance(x, Sl) and isinstance(y, Sl) and x.base is not y.base \
            and (x.base.app or y.base.app) and x.base.same(y.base) is None:
        return True
    if len(a) == len(b) == 1 and (isinstance(x, Sl) and x.base.app and isinstance(y, Lit)
                                  or isinstance(y, Sl) and y.base.app and isinstance(x, Lit)):
        return True
    return False


def rope_must_eq(a, b):
    c = ctx()
    a, b = norm(a), norm(b)
    if rope_key(a) == rope_key(b):
        return True
    if _surely_unknown(a, b):
        return False
    if not c.must(nz(rlen(a)) == nz(rlen(b))):
        return False
    c.depth_no_fork += 1
    try:
        f = rope_eq(a, b, atoms=False)
    except core.NoFork:
        return False
    finally:
        c.depth_no_fork -= 1
    return c.must(f) if not isinstance(f, bool) else f


def strip_folds(r1, r2):
    """without the common segments at the beginning, when there are folds over the same range that agree on every element"""
    if not (any(isinstance(s, Fold) for s in r1) and any(isinstance(s, Fold) for s in r2)):
        return r1, r2
    a, b = list(r1), list(r2)
    folds = False
    while a and b:
        x, y = a[0], b[0]
        if isinstance(x, Fold) and isinstance(y, Fold) and x.fid != y.fid:
            if not fold_must_eq(x, y):
                break
            folds = True
        elif rope_key((x,)) != rope_key((y,)):
            break
        a.pop(0)
        b.pop(0)
    return (tuple(a), tuple(b)) if folds else (r1, r2)


def fold_must_eq(x, y):
    c = ctx()
    if not c.must(z3.And(nz(x.lo) == nz(y.lo), nz(x.hi) == nz(y.hi))):
        return False

    def run():
        k = c.newint('foldk')
        c.assume(z3.And(k >= nz(x.lo), k < nz(x.hi)))
        if not c.feasible():
            raise core.PathEnd
        f = rope_eq(x.body(k), y.body(k), False)
        return c.must(f) if not isinstance(f, bool) else f
    return all(kind == 'ret' and v is True for _, kind, v in c.sub_explore(run))


def seg_eq(x, y, n, atoms):
    """condition for two segments of equal length n to be the same bytes"""
    # one length is a small number: so is the other
    xn, yn = simp(x.n), simp(y.n)
    if isinstance(xn, int) and xn <= 8 and not isinstance(yn, int) and isinstance(y, Sl):
        y, n = Sl(y.base, y.off, xn), xn
    elif isinstance(yn, int) and yn <= 8 and not isinstance(xn, int) and isinstance(x, Sl):
        x, n = Sl(x.base, x.off, yn), yn
    if isinstance(x, Lit) and isinstance(y, Lit):
        return x.b == y.b
    if isinstance(x, Sl) and isinstance(y, Sl):
        same = x.base.same(y.base)
        if same is not None:
            d = simp(nz(x.off) == nz(y.off)) if False else z3.simplify(nz(x.off) == nz(y.off))
            if same is True and z3.is_true(d):
                return True
            cond = z3.And(zb(same), d)
            if ctx().must(cond):
                return True
        if isinstance(n, int) and n <= 32:
            return z3.And([x.base.at(simp(x.off + i)) == y.base.at(simp(y.off + i))
                           for i in range(n)])
    elif isinstance(n, int) and n <= 64 and not isinstance(x, (Fold, Opq)) and not isinstance(y, (Fold, Opq)):
        if n <= 8 or isinstance(x, Be) or isinstance(y, Be):
            a, b = int_of_rope((x,)), int_of_rope((y,))
            return nz(a) == nz(b)
        bx, by = SymBytes((x,)), SymBytes((y,))
        return z3.And([nz(bx.byte_at(i)) == nz(by.byte_at(i)) for i in range(n)])
    elif isinstance(x, Rep) and isinstance(y, Rep):
        return nz(x.byte) == nz(y.byte)
    elif isinstance(x, Opq) and isinstance(y, Opq) and x.f == y.f:
        return z3.And([nz(p) == nz(q) for p, q in zip(x.args, y.args)])
    if not atoms:
        return False
    return atom_sym('beq', SymBytes((x,)), SymBytes((y,))).c


def rope_eq(r1, r2, atoms=True):
    """z3 condition (or bool) for the equality of two ropes; may case split."""
    c = ctx()
    r1, r2 = norm(r1), norm(r2)
    if rope_key(r1) == rope_key(r2):
        return True
    s1, s2 = strip_folds(r1, r2)
    if s1 is not r1:
        r1, r2 = s1, s2
        if not r1 and not r2:
            return True
    # two plain variables: do not split on lengths
    n1, n2 = rlen(r1), rlen(r2)
    leneq = z3.simplify(nz(n1) == nz(n2))
    if z3.is_false(leneq):
        return False
    # aliases established by assumed equalities
    if len(r1) == 1 and len(r2) == 1 and not isinstance(r1[0], Fold) and not isinstance(r2[0], Fold):
        if atoms:
            if isinstance(r1[0].n, int) and isinstance(r2[0].n, int) or c.must(leneq):
                return _and([seg_eq(r1[0], r2[0], simp(r1[0].n), atoms)])
            if isinstance(r1[0], Sl) and isinstance(r2[0], Sl) and r1[0].base.same(r2[0].base) is None:
                return z3.And(leneq, zb(atom_sym('beq', SymBytes(r1), SymBytes(r2))))
    if not c.branch(leneq):
        return False
    conds = []
    a, b = list(r1), list(r2)
    while a or b:
        if not a or not b:
            rest = a or b
            return _and(conds + [nz(rlen(rest)) == 0])
        x, y = a[0], b[0]
        if isinstance(x, Fold) and isinstance(y, Fold):
            if x.fid == y.fid and len(x.args) == len(y.args) and c.must(z3.And(
                    nz(x.lo) == nz(y.lo), *[p == q for p, q in zip(x.args, y.args)])):
                if c.must(nz(x.hi) == nz(y.hi)):
                    a.pop(0); b.pop(0)
                    continue
            elif c.must(z3.And(nz(x.lo) == nz(y.lo), nz(x.hi) == nz(y.hi))):
                # equal if the bodies agree for an arbitrary k
                k = c.newint('foldk')
                c.assume(z3.And(k >= nz(x.lo), z3.Or(k < nz(x.hi), nz(x.lo) >= nz(x.hi))))
                conds.append(zb(rope_eq(x.body(k), y.body(k), atoms)))
                a.pop(0); b.pop(0)
                continue
        xn, yn = simp(x.n), simp(y.n)
        if isinstance(xn, int) and xn == 0:
            a.pop(0)
            continue
        if isinstance(yn, int) and yn == 0:
            b.pop(0)
            continue
        d = simp(nz(xn) - nz(yn))
        if isinstance(d, int):
            order = (d > 0) - (d < 0)
        elif c.must(nz(xn) == nz(yn)):
            order = 0
        elif isinstance(x, Fold) or isinstance(y, Fold):
            order = None
        elif c.branch(nz(xn) == nz(yn)):
            order = 0
        elif c.branch(nz(xn) < nz(yn)):
            order = -1
        else:
            order = 1
        if order is None or (order == 0 and (isinstance(x, Fold) != isinstance(y, Fold))):
            s, lst = (x, a) if isinstance(x, Fold) else (y, b)
            if c.branch(nz(s.lo) < nz(s.hi)):
                el, rest = s.unfold()
                lst[0:1] = list(el) + [rest]
            else:
                c.assume(nz(s.n) == 0)
                lst.pop(0)
            if len(conds) > 400:
                raise Unsupported('equality of folds')
            continue
        if order == 0:
            if isinstance(yn, int) and yn <= 8:
                xn = yn
            r = seg_eq(x, y, xn, atoms)
            if r is False:
                # different bytes, unless the segment is empty
                if isinstance(xn, int):
                    return False
                conds.append(nz(xn) == 0)
            elif r is not True:
                conds.append(z3.Or(zb(r), nz(xn) == 0) if not isinstance(xn, int) else r)
            a.pop(0); b.pop(0)
        elif order < 0:
            if not isinstance(xn, int) and c.must(nz(xn) == 0):
                a.pop(0)
                continue
            h = list(cut_seg(y, 0, xn))
            if not h:
                a.pop(0)
                continue
            b[0:1] = h + list(cut_seg(y, xn, yn))
        else:
            if not isinstance(yn, int) and c.must(nz(yn) == 0):
                b.pop(0)
                continue
            h = list(cut_seg(x, 0, yn))
            if not h:
                b.pop(0)
                continue
            a[0:1] = h + list(cut_seg(x, yn, xn))
    return _and(conds)


def _and(conds):
    out = []
    for x in conds:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    return z3.And(out) if out else True


# ----------------------------------------------------------------------
# uninterpreted functions over byte strings
# ----------------------------------------------------------------------

def bapp(fname, args, length):
    """f(args) as a byte string of the given length; provably equal arguments
    give the same result (congruence)."""
    c = ctx()
    tab = c.tables.setdefault('app', {}).setdefault(fname, [])
    for oargs, res in tab:
        if len(oargs) == len(args) and all(val_must_eq(x, y) for x, y in zip(oargs, args)):
            return res
    b = Base(c.fresh(fname + '#'), length, tuple(c.generic), app=(fname, args))
    res = mkbytes((Sl(b, 0, length),))
    tab.append((args, res))
    return res


def vapp(fname, args, make):
    """f(args) as an arbitrary value built by make(n), with congruence."""
    c = ctx()
    tab = c.tables.setdefault('vapp', {}).setdefault(fname, [])
    for oargs, res in tab:
        if len(oargs) == len(args) and all(val_must_eq(x, y) for x, y in zip(oargs, args)):
            return res
    res = make(len(tab))
    tab.append((args, res))
    return res


def val_must_eq(x, y):
    if x is y:
        return True
    if isbytes(x) and isbytes(y):
        if not isinstance(x, Sym) and not isinstance(y, Sym):
            return bytes(x) == bytes(y)
        return rope_must_eq(rope_of(x), rope_of(y))
    if isinstance(x, (int, SymInt)) and isinstance(y, (int, SymInt)):
        return ctx().must(nz(zi(x)) == nz(zi(y)))
    if isinstance(x, SymStr) and isinstance(y, SymStr):
        return x.key() == y.key()
    if isinstance(x, Opaque) and isinstance(y, Opaque):
        return x.key() == y.key()
    if isinstance(x, Sym) or isinstance(y, Sym):
        return False
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return all(val_must_eq(p, q) for p, q in zip(x, y))
    return type(x) is type(y) and x == y


class Opaque(Sym):
    """An object only known by name (a key, a certificate...)."""
    def __init__(self, kind, name, idx=(), **attrs):
        self.__dict__['kind'] = kind
        self.__dict__['oname'] = name
        self.__dict__['idx'] = tuple(idx)
        self.__dict__['attrs'] = attrs
        self.__dict__['pytypes'] = attrs.pop('pytypes', ())
        self.__dict__['truth'] = attrs.pop('truth', True)
    def key(self):
        return (self.kind, self.oname) + tuple(str(simp(i)) for i in self.idx)
    def __bool__(self):
        return bool(self.truth)
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name in self.attrs:
            v = self.attrs[name]
            return v(self) if not isinstance(v, Sym) and getattr(v, '_lazy', False) else v
        raise Unsupported(f'attribute {name} of opaque {self.kind}')
    def __eq__(self, o):
        if isinstance(o, Opaque):
            if self.key() == o.key():
                return True
            if self.key()[:2] == o.key()[:2] and len(self.idx) == len(o.idx):
                same = z3.And([nz(p) == nz(q) for p, q in zip(self.idx, o.idx)])
                if ctx().must(same):
                    return True
            return atom_sym('same', self, o)
        return False
    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(z3.Not(r.c)) if isinstance(r, SymBool) else not r
    __hash__ = Sym.__hash__
    def __repr__(self): return f'<{self.kind} {self.oname}{list(self.idx) if self.idx else ""}>'


def lazy(f):
    f._lazy = True
    return f


# ----------------------------------------------------------------------
# lists
# ----------------------------------------------------------------------

class SList(Sym):
    """A list of symbolic length: concatenation of parts
    ('s', n, elem, tag): n elements elem(k), or ('c', [values])."""
    def __init__(self, parts, tuple_=False, contains=None):
        self.parts = [p for p in parts if not (p[0] == 'c' and not p[1])]
        self.tuple_ = tuple_
        self.contains_fn = contains

    @property
    def n(self):
        tot = 0
        for p in self.parts:
            tot = tot + (p[1] if p[0] == 's' else len(p[1]))
        return simp(tot)
    def _len(self):
        return mkint(self.n)
    def __bool__(self):
        return ctx().branch(nz(self.n) > 0)
    def at(self, i):
        pos = 0
        for p in self.parts:
            m = p[1] if p[0] == 's' else len(p[1])
            end = simp(pos + m)
            if _le(simp(i + 1), end):
                off = simp(i - pos)
                if p[0] == 's':
                    ctx().looked(p[3], off)
                    return p[2](off)
                if isinstance(off, int):
                    return p[1][off]
                for j, v in enumerate(p[1]):
                    if ctx().branch(nz(off) == j):
                        return v
                raise core.PathEnd
            pos = end
        raise core.PathEnd
    def getitem(self, i):
        c = ctx()
        n = self.n
        if isinstance(i, slice):
            if i.step is not None:
                raise Unsupported('list slice with a step')
            a, b = clamp_slice(i, n)
            if isinstance(a, int) and a == 0 and simp(nz(b) - nz(n)) is not None \
                    and isinstance(simp(nz(b) - nz(n)), int) and simp(nz(b) - nz(n)) == 0:
                return SList(list(self.parts))
            return SList([('s', simp(nz(b) - nz(a)), lambda k: self.at(simp(k + a)), 'slice')])
        i = zi(i)
        if c.branch(nz(i) < 0):
            i = simp(i + n)
        if not c.branch(z3.And(nz(i) >= 0, nz(i) < nz(n))):
            raise IndexError('list index out of range')
        return self.at(i)
    def append(self, v):
        if self.parts and self.parts[-1][0] == 'c':
            self.parts[-1] = ('c', self.parts[-1][1] + [v])
        else:
            self.parts.append(('c', [v]))
    def extend(self, it):
        if isinstance(it, SList):
            self.parts.extend(it.parts)
        elif isinstance(it, (list, tuple)):
            for v in it:
                self.append(v)
        else:
            raise Unsupported('list.extend')
    def copy(self):
        return SList(list(self.parts))
    def __add__(self, o):
        if isinstance(o, SList):
            return SList(self.parts + o.parts)
        if isinstance(o, (list, tuple)):
            return SList(self.parts + [('c', list(o))])
        return NotImplemented
    def __radd__(self, o):
        if isinstance(o, (list, tuple)):
            return SList([('c', list(o))] + self.parts)
        return NotImplemented
    def __iadd__(self, o):
        self.extend(o)
        return self
    def __eq__(self, o):
        r = list_eq(self, o)
        return r if isinstance(r, bool) else mkbool(r)
    def __ne__(self, o):
        r = list_eq(self, o)
        return (not r) if isinstance(r, bool) else mkbool(z3.Not(r))
    __hash__ = Sym.__hash__
    def contains(self, x):
        if self.contains_fn is not None:
            return self.contains_fn(x)
        if len(self.parts) == 1 and self.parts[0][0] == 's':
            return member(self.parts[0], x)
        # split by parts
        for p in self.parts:
            if p[0] == 'c':
                for v in p[1]:
                    if v is x or v == x:
                        return True
            else:
                if member(p, x):
                    return True
        return False
    def __repr__(self): return f'<list of {self.n}>'


def member(part, x):
    """x in {elem(k) | 0<=k<n}: a predicate of x with a witness index; elements
    looked at are related to it by note_element."""
    _, n, elem, tag = part
    c = ctx()
    text, terms = _join_sig(f'in:{tag}', [sig(x)])
    a = predicate(text, terms)
    j = z3.Int('idx:' + text) if not terms else \
        z3.Function('idx:' + text, *([z3.IntSort()] * (len(terms) + 1)))(*terms)
    seen = c.tables.setdefault('member', {})
    if str(a) not in seen:
        seen[str(a)] = a
        c.assume(z3.Implies(a, z3.And(j >= 0, j < nz(n))))
        e = elem(j)
        c.assume(z3.Implies(a, zb(val_eq(e, x))))
        others = c.tables.setdefault('members_of', {}).setdefault(tag, [])
        if isinstance(x, (int, SymInt)):
            # a number and a term may be equal: their predicates have different names
            for y, b in others:
                if isinstance(y, (int, SymInt)) and (isinstance(x, int) or isinstance(y, int)
                                                     or z3.is_int_value(nz(x.t)) or z3.is_int_value(nz(y.t))):
                    c.assume(z3.Implies(zb(val_eq(x, y)), a == b))
        others.append((x, a))
        for v in c.tables.get('elements_of', {}).get(tag, []):
            c.assume(z3.Implies(zb(val_eq(v, x)), a))
    return SymBool(a)


def note_element(tag, value, guard):
    """value is an element of the list (when guard): membership of equal things holds"""
    c = ctx()
    lst = c.tables.setdefault('members_of', {}).get(tag, [])
    for x, a in lst:
        c.assume(z3.Implies(z3.And(zb(guard), zb(val_eq(value, x))), a))


def val_key(x):
    if isinstance(x, SymInt):
        return simp(x.t)
    if isinstance(x, SymBytes):
        return rope_key(x.r)
    if isinstance(x, SymStr):
        return x.key()
    if isinstance(x, Opaque):
        return x.key()
    if isinstance(x, int):
        return int(x)
    return repr(x)


def val_eq(x, y):
    """z3 condition or bool for x == y"""
    if type(x) is type(y) and isinstance(x, tuple):
        if len(x) != len(y):
            return False
        return _and([val_eq(p, q) for p, q in zip(x, y)])
    r = x == y
    if isinstance(r, SymBool):
        return r.c
    return bool(r)


def list_eq(x, y):
    c = ctx()
    if not isinstance(y, (SList, list, tuple)):
        return False
    px = x.parts if isinstance(x, SList) else [('c', list(x))] if x else []
    py = y.parts if isinstance(y, SList) else [('c', list(y))] if y else []
    nx = x.n if isinstance(x, SList) else len(x)
    ny = y.n if isinstance(y, SList) else len(y)
    if not c.branch(nz(nx) == nz(ny)):
        return False
    # equal lengths: compare an arbitrary element (this gives a condition only
    # usable positively, in obligations)
    if isinstance(nx, int) and isinstance(ny, int):
        gx = x.at if isinstance(x, SList) else x.__getitem__
        gy = y.at if isinstance(y, SList) else y.__getitem__
        return _and([val_eq(gx(i), gy(i)) for i in range(nx)])
    sx = tuple((p[0], p[3] if p[0] == 's' else None) for p in px)
    k = c.newint('eqk')
    c.assume(z3.And(k >= 0, z3.Or(k < nz(nx), nz(nx) <= 0)))
    if not c.branch(k < nz(nx)):
        return True
    gx = x.at if isinstance(x, SList) else (lambda i: SList(px).at(i))
    gy = y.at if isinstance(y, SList) else (lambda i: SList(py).at(i))
    return val_eq(gx(k), gy(k))


def slist(name, n=None, elem=None, contains=None):
    """a list variable of symbolic length"""
    c = ctx()
    if n is None:
        n = z3.Int(f'n:{name}')
        c.assume(n >= 0)
        c.named[f'n:{name}'] = n
    def get(k, elem=elem):
        v = elem(k)
        if len(ctx().generic) < 8:
            note_element(name, v, z3.And(nz(k) >= 0, nz(k) < nz(n)))
        return v
    return SList([('s', n, get, name)], contains=contains)


def intlist(name, lo, hi, n=None, cls=None):
    """list of integers in [lo, hi]; with cls, IntEnum-or-int values"""
    f = z3.Function(f'el:{name}', z3.IntSort(), z3.IntSort())

    def elem(k):
        t = f(nz(k))
        c = ctx()
        seen = c.tables.setdefault('el', set())
        if str(t) not in seen:
            seen.add(str(t))
            c.assume(z3.And(t >= lo, t <= hi))
        return SymInt(t) if cls is None else SymEnum(cls, t)
    return slist(name, n, elem)


def sint(name, lo=None, hi=None):
    c = ctx()
    t = z3.Int(name)
    if name not in c.named:
        c.named[name] = t
        if lo is not None:
            c.assume(t >= lo)
        if hi is not None:
            c.assume(t <= hi)
    return SymInt(t)


def senum(cls, name):
    """an arbitrary member of an IntEnum"""
    c = ctx()
    t = z3.Int(name)
    if name not in c.named:
        c.named[name] = t
        c.assume(z3.Or([t == int(m) for m in cls]))
    return SymEnum(cls, t)


def sbool(name):
    c = ctx()
    t = z3.Bool(name)
    c.named[name] = t
    return SymBool(t)
