"""Hooks the instrumented code calls: Python's own operations, extended to
symbolic values.  On concrete values every hook does what Python does."""
import builtins
import collections.abc
import contextlib
import enum
import functools
import io
import itertools
import math
import operator
import struct
import sys
import types
import z3
from . import core, sym
from .core import Unsupported, PathEnd, ctx
from .sym import (Sym, SymInt, SymBool, SymBytes, SymByteArray, SymStr, SymEnum, SList, Opaque, I,
                  Lit, Be, Sl, Rep, Fold, Ratio, zi, zb, nz, simp, mkint, mkbool, mkbytes, rope_of,
                  rlen, isbytes, be, norm)


class _Skip:
    def __repr__(self): return 'SKIP'


SKIP = _Skip()


class Splat:
    """A symbolic sequence in a starred position."""
    def __init__(self, seq):
        self.seq = seq


class Poison(Sym):
    """A value nothing is known of: any use is out of reach."""
    def __init__(self, why):
        object.__setattr__(self, 'why', why)
    def _nope(self, what):
        raise Unsupported(f'{what} on a value unknown after a loop ({self.why})')
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        self._nope(f'attribute {n}')
    def __setattr__(self, n, v): self._nope('assignment')
    def __bool__(self): self._nope('truth')
    def __eq__(self, o): self._nope('==')
    def __ne__(self, o): self._nope('!=')
    __hash__ = Sym.__hash__


for _n in 'add radd sub rsub mul rmul lt le gt ge floordiv mod iadd contains getitem iter len'.split():
    setattr(Poison, f'__{_n}__', (lambda nn: lambda self, *a: self._nope(nn))(_n))


# ----------------------------------------------------------------------
# lists
# ----------------------------------------------------------------------

class VList(list):
    """A list that may become symbolic in place (at a loop cut)."""
    sym = None
    def _s(self):
        return self.sym
    def __len__(self):
        if self.sym is not None:
            n = self.sym.n
            if isinstance(n, int):
                return n
            raise Unsupported('native len of a symbolic list')
        return list.__len__(self)
    def __bool__(self):
        return bool(self.sym) if self.sym is not None else list.__len__(self) > 0
    def __iter__(self):
        if self.sym is not None:
            n = self.sym.n
            if isinstance(n, int):
                return iter([self.sym.at(i) for i in range(n)])
            raise Unsupported('native iteration of a symbolic list')
        return list.__iter__(self)
    def __getitem__(self, i):
        if self.sym is not None:
            return self.sym.getitem(i)
        r = list.__getitem__(self, i)
        return VList(r) if isinstance(i, slice) else r
    def __eq__(self, o):
        if self.sym is not None:
            return self.sym == desym(o)
        o = desym(o)
        if isinstance(o, SList):
            return o == self
        return list.__eq__(self, o)
    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(z3.Not(r.c)) if isinstance(r, SymBool) else r if r is NotImplemented else not r
    __hash__ = None
    def __contains__(self, x):
        return bool(contains(x, self))
    def append(self, v):
        if self.sym is not None:
            self.sym.append(v)
        else:
            list.append(self, v)
    def extend(self, it):
        it = desym(it)
        if self.sym is None and isinstance(it, SList):
            self.sym = SList([('c', list(self))])
            list.clear(self)
        if self.sym is not None:
            self.sym.extend(it if isinstance(it, SList) else list(it))
        else:
            list.extend(self, it)
    def clear(self):
        self.sym = None
        list.clear(self)
    def copy(self):
        if self.sym is not None:
            r = VList()
            r.sym = self.sym.copy()
            return r
        return VList(self)
    def _native(self):
        if self.sym is not None:
            raise Unsupported('operation on a symbolic list')
    def pop(self, *a):
        self._native()
        return list.pop(self, *a)
    def insert(self, *a):
        self._native()
        return list.insert(self, *a)
    def remove(self, x):
        self._native()
        for i, v in enumerate(list.__iter__(self)):
            if v is x or v == x:
                list.__delitem__(self, i)
                return
        raise ValueError('list.remove(x): x not in list')
    def index(self, x, *a):
        self._native()
        for i, v in enumerate(list.__iter__(self)):
            if v is x or v == x:
                return i
        raise ValueError('not in list')
    def reverse(self):
        self._native()
        list.reverse(self)
    def sort(self, **k):
        self._native()
        list.sort(self, **k)
    def __add__(self, o):
        o = desym(o)
        if self.sym is not None or isinstance(o, SList):
            r = VList()
            r.sym = SList(parts_of(self) + parts_of(o))
            return r
        return VList(list.__add__(self, o))
    def __radd__(self, o):
        return VList(list(o)) + self
    def __iadd__(self, o):
        self.extend(o)
        return self
    def __mul__(self, n):
        self._native()
        return VList(list.__mul__(self, n))
    __rmul__ = __mul__
    def __repr__(self):
        return repr(self.sym) if self.sym is not None else list.__repr__(self)


class VDict(dict):
    """A dictionary that may become symbolic in place (at a loop cut)."""
    sym = None
    def __eq__(self, o):
        if self.sym is not None or isinstance(desym(o), SDict):
            return dict_eq(self, o)
        return dict.__eq__(self, o)
    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(z3.Not(r.c)) if isinstance(r, SymBool) else r if r is NotImplemented else not r
    __hash__ = None
    def __len__(self):
        if self.sym is not None:
            raise Unsupported('native len of a symbolic dictionary')
        return dict.__len__(self)
    def __bool__(self):
        if self.sym is not None:
            return bool(self.sym)
        return dict.__len__(self) > 0 or bool(overlay(self))
    def __iter__(self):
        if self.sym is not None:
            raise Unsupported('native iteration of a symbolic dictionary')
        return dict.__iter__(self)


def dict_pairs(d):
    """the pairs of a dictionary as list parts"""
    d = desym(d)
    if isinstance(d, SDict):
        return list(d.pairs.parts)
    its = [(k, v) for k, v in dict_items(d)]
    return [('c', its)] if its else []


def dict_eq(a, b):
    """same pairs in the same order (sufficient, and exact for distinct keys in the same order)"""
    return SList(dict_pairs(a)) == SList(dict_pairs(b))


def desym(x):
    if isinstance(x, VDict) and x.sym is not None:
        return x.sym
    if isinstance(x, VList) and x.sym is not None:
        n = x.sym.n
        if isinstance(n, int) and all(p[0] == 'c' for p in x.sym.parts):
            vals = [v for p in x.sym.parts for v in p[1]]
            x.sym = None
            list.clear(x)
            list.extend(x, vals)
            return x
        return x.sym
    return x


def parts_of(x):
    x = desym(x)
    if isinstance(x, SList):
        return list(x.parts)
    return [('c', list(x))] if len(x) else []


def vlist(slist):
    r = VList()
    r.sym = slist
    return r


class VRange(SList):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step
        if isinstance(step, int):
            if step == 0:
                raise ValueError('range() arg 3 must not be zero')
            d = simp(nz(hi) - nz(lo)) if step > 0 else simp(nz(lo) - nz(hi))
            s = abs(step)
            if isinstance(d, int):
                n = max(0, -(-d // s))
            else:
                n = simp(z3.If(nz(d) > 0, (nz(d) + (s - 1)) / s, I(0)))
        else:
            c = ctx()
            if not c.must(nz(step) > 0):
                raise Unsupported('range with a possibly negative step')
            d = simp(nz(hi) - nz(lo))
            if c.branch(nz(d) <= 0):
                n = 0
            else:
                q = -((-mkint(d)) // mkint(step))
                n = zi(q)
        super().__init__([('s', n, lambda k: mkint(nz(lo) + nz(k) * nz(step)), f'range({lo},{hi},{step})')])
    def copy(self):
        return self
    def contains(self, x):
        raise Unsupported('membership of a symbolic range')


class VIter(Sym):
    """iterator over a symbolic sequence, at a given position"""
    def __init__(self, seq):
        self.seq, self.pos = seq, 0
    def __iter__(self):
        return self
    def __next__(self):
        if not ctx().branch(nz(self.pos) < nz(self.seq.n)):
            raise StopIteration
        v = self.seq.at(self.pos)
        self.pos = simp(nz(self.pos) + 1)
        return v
    def rest(self):
        p, s = self.pos, self.seq
        if isinstance(p, int) and p == 0:
            return s
        return SList([('s', simp(nz(s.n) - nz(p)), lambda k: s.at(simp(nz(k) + nz(p))), 'rest')])


def bytes_seq(b):
    """the integers of a byte string as a sequence"""
    snap = SymBytes(b.r)
    s = SList([('s', snap.n, lambda k: mkint(snap.byte_at(k)), 'bytes:' + sym.rope_key(b.r))])
    s.src = snap
    return s


class SGen(Sym):
    """(fn(x) for x in seq): not evaluated yet"""
    def __init__(self, seq, fn):
        self.seq, self.fn = seq, fn
        self.used = False


def outcomes(fn, seq, k):
    """what fn(seq[k]) can do: [(cond, kind, value)]"""
    c = ctx()
    eff = c.ghost.get('effects', 0)

    def run():
        r = fn(seq.at(k))
        if isinstance(r, SymBool):
            return r
        return r
    out = c.sub_explore(run)
    if c.ghost.get('effects', 0) != eff:
        raise Unsupported('side effect in an expression over a symbolic sequence')
    return out


def effect():
    c = core.C
    if c is not None:
        c.ghost['effects'] = c.ghost.get('effects', 0) + 1


def either(c):
    """a free choice; inside of an expression it is a predicate, so that the conditions of its outcomes stay exclusive"""
    if c.sub is None:
        return c.choose(2) == 1
    return c.branch(c.record('q', lambda: c.newbool('q')))


def merge(rets):
    """one value out of [(cond, value)] (exhaustive), or None"""
    vals = [v for _, v in rets]
    if len(vals) == 1:
        return vals[0]
    if all(isinstance(v, (int, SymInt)) and not isinstance(v, bool) for v in vals):
        terms = [zi(v) for v in vals]
        if len({str(simp(t)) for t in terms}) == 1:
            return mkint(terms[0])
        t = nz(terms[-1])
        for (c, _), x in zip(reversed(rets[:-1]), reversed(terms[:-1])):
            t = z3.If(c, nz(x), t)
        return mkint(t)
    if all(isinstance(v, (bool, SymBool)) for v in vals):
        t = zb(vals[-1])
        for (c, v) in reversed(rets[:-1]):
            t = z3.If(c, zb(v), t)
        return mkbool(t)
    if all(isbytes(v) for v in vals):
        if len({sym.rope_key(rope_of(v)) for v in vals}) == 1:
            return vals[0]
    return None


def mapped(seq, fn):
    """[fn(x) for x in seq], exceptions of any element raised now."""
    c = ctx()
    K = c.newint('k')
    n = seq.n
    c.generic.append(K)
    try:
        inside = z3.And(K >= 0, K < nz(n))
        outs = c.sub_explore(lambda: _under(inside, lambda: fn(seq.at(K))))
    finally:
        c.generic.pop()
    excs = [(cd, v) for cd, kd, v in outs if kd == 'exc']
    for cd, v in excs:
        e = c.newint('kx')
        cond = z3.substitute(cd, (K, e))
        if either(c):
            c.assume(z3.And(e >= 0, e < nz(n), cond))
            if not c.feasible():
                raise PathEnd
            raise v
    oks = z3.Or([cd for cd, kd, _ in outs if kd == 'ret']) if outs else z3.BoolVal(False)
    if excs:
        c.forall(K, nz(n), oks, tags=tags_of(seq))
    rets = [(cd, v) for cd, kd, v in outs if kd == 'ret']
    if any(v is SKIP for _, v in rets):
        return filtered(seq, rets, K, n)

    def elem(k):
        c = ctx()
        if excs and z3.is_expr(k):
            c.assume(z3.Implies(z3.And(k >= 0, k < nz(n)), z3.substitute(oks, (K, k))))
        outs = [(cd, v) for cd, kd, v in c.sub_explore(lambda: fn(seq.at(k))) if kd == 'ret']
        if not outs:
            raise PathEnd
        m = merge(outs)
        if m is not None:
            if len(outs) == 1:
                # redo it for its facts
                return fn(seq.at(k))
            return m
        return fn(seq.at(k))
    tag = f'map:{c.fresh("map")}'
    r = SList([('s', n, elem, tag)])
    r.origin = (seq, fn)
    return r


def tags_of(seq):
    return [seq.parts[0][3]] if len(seq.parts) == 1 and seq.parts[0][0] == 's' else ()


def filtered(seq, rets, K, n):
    """the elements that are kept, in order: an increasing selection"""
    c = ctx()
    name = c.fresh('sel')
    sel = z3.Function(name, z3.IntSort(), z3.IntSort())
    m = c.newint('nsel')
    i, j = z3.Ints('i j')
    kept = z3.Or([cd for cd, v in rets if v is not SKIP])
    at = lambda t: z3.substitute(kept, (K, t))
    c.assume(z3.And(m >= 0, m <= nz(n)))
    c.forall(i, m, z3.And(sel(i) >= 0, sel(i) < nz(n), at(sel(i))), (), sel(i))
    c.forall(i, m, z3.Implies(i + 1 < m, sel(i) < sel(i + 1)), (), sel(i))
    inv = z3.Function(name + '^', z3.IntSort(), z3.IntSort())
    c.forall(j, nz(n), z3.Implies(at(j), z3.And(inv(j) >= 0, inv(j) < m, sel(inv(j)) == j)),
             tags_of(seq), inv(j))
    vals = [(cd, v) for cd, v in rets if v is not SKIP]

    def elem(k):
        c = ctx()
        s = sel(nz(k))
        c.assume(z3.Implies(z3.And(nz(k) >= 0, nz(k) < m), z3.And(s >= 0, s < nz(n), at(s))))
        v = merge([(z3.substitute(cd, (K, s)), subst(v, K, s)) for cd, v in vals])
        if v is None:
            for cd, w in vals:
                if c.branch(z3.substitute(cd, (K, s))):
                    return subst(w, K, s)
            raise PathEnd
        return v
    r = SList([('s', m, elem, name)])
    r.selection = (sel, inv, seq)
    return r


def _under(cond, fn):
    c = ctx()
    c.assume(cond)
    return fn()


def first(seq, fn, default=None, has_default=False):
    """next((fn(x) for x in seq if ...), default)"""
    c = ctx()
    n = seq.n
    K = c.newint('k')
    c.generic.append(K)
    try:
        outs = c.sub_explore(lambda: _under(z3.And(K >= 0, K < nz(n)), lambda: fn(seq.at(K))))
    finally:
        c.generic.pop()
    skip = [cd for cd, kd, v in outs if kd == 'ret' and v is SKIP]
    skip = z3.Or(skip) if skip else z3.BoolVal(False)
    if either(c):
        c.forall(K, nz(n), skip, tags_of(seq))
        if not c.feasible():
            raise PathEnd
        if has_default:
            return default
        raise StopIteration
    f = c.newint('first')
    c.assume(z3.And(f >= 0, f < nz(n)))
    c.forall(K, f, skip, tags_of(seq))
    v = fn(seq.at(f))
    if v is SKIP or not c.feasible():
        raise PathEnd
    return v


def quantified(seq, fn, want):
    """any (want=True) / all (want=False) over a symbolic sequence"""
    c = ctx()
    n = seq.n
    K = c.newint('k')
    c.generic.append(K)

    def run():
        v = fn(seq.at(K))
        return v if v is SKIP or isinstance(v, (SymBool, bool)) else bool(v)
    try:
        outs = c.sub_explore(lambda: _under(z3.And(K >= 0, K < nz(n)), run))
    finally:
        c.generic.pop()
    conds, excs = [], []
    for cd, kd, v in outs:
        if kd == 'exc':
            excs.append((cd, v))
        elif v is not SKIP:
            conds.append(z3.And(cd, zb(v) if want else z3.Not(zb(v))))
    hit = z3.simplify(z3.Or(conds)) if conds else z3.BoolVal(False)
    if excs:
        raise Unsupported('exception in any()/all()')
    if either(c):
        c.forall(K, nz(n), z3.Not(hit), tags_of(seq))
        for w in c.tables.get('wits', ())[-4:]:
            # an element shown to exist earlier on is looked at
            if c.must(z3.And(w >= 0, w < nz(n))):
                v = fn(seq.at(w))
                if v is not SKIP:
                    if isinstance(v, bool) and v is want:
                        raise PathEnd
                    if isinstance(v, SymBool):
                        c.assume(z3.Not(zb(v)) if want else zb(v))
        if not c.feasible():
            raise PathEnd
        return not want
    w = c.newint('wit')
    c.assume(z3.And(w >= 0, w < nz(n)))
    c.tables['wits'] = (*c.tables.get('wits', ()), w)
    v = fn(seq.at(w))
    if v is SKIP:
        raise PathEnd
    if bool(v) != want:
        raise PathEnd
    return want


# ----------------------------------------------------------------------
# substitution of an index in values
# ----------------------------------------------------------------------

def sub_t(t, K, j):
    return simp(z3.substitute(t, (K, nz(j)))) if z3.is_expr(t) else t


def sub_rope(rope, K, j):
    out = []
    for s in rope:
        if isinstance(s, Lit):
            out.append(s)
        elif isinstance(s, Be):
            out.append(be(sub_t(s.t, K, j), s.n))
        elif isinstance(s, Rep):
            out.append(Rep(sub_t(s.byte, K, j), sub_t(s.n, K, j)))
        elif isinstance(s, Sl):
            out.append(Sl(sub_base(s.base, K, j), sub_t(s.off, K, j), sub_t(s.n, K, j)))
        elif isinstance(s, sym.Opq):
            out.append(sym.Opq(s.f, tuple(sub_t(a, K, j) for a in s.args), s.n))
        elif isinstance(s, Fold):
            out.append(Fold(sub_t(s.lo, K, j), sub_t(s.hi, K, j),
                            (lambda b: lambda k: sub_rope(b(k), K, j))(s.body), s.fid,
                            tuple(sub_t(a, K, j) for a in s.args), s.size, s.least))
        else:
            raise Unsupported('substitution')
    return norm(out)


def sub_base(b, K, j):
    if not b.idx:
        return b
    idx = tuple(sub_t(i, K, j) for i in b.idx)
    n = sub_t(b.len, K, j)
    if z3.is_expr(n):
        ctx().assume(n >= 0)
    r = sym.Base(b.name, sub_t(b.len, K, j), idx,
                 (b.app[0], tuple(subst(a, K, j) for a in b.app[1])) if b.app else None)
    return r


def subst(v, K, j, depth=0):
    if depth > 8:
        raise Unsupported('substitution in a deep value')
    if v is None or isinstance(v, (int, str, bytes, float, type, types.FunctionType, enum.Enum)):
        return v
    if isinstance(v, SymEnum):
        t = sub_t(v.t, K, j)
        return v.cls(t) if isinstance(t, int) and t in v.cls._value2member_map_ else \
            SymEnum(v.cls, nz(t))
    if isinstance(v, SymInt):
        return mkint(sub_t(v.t, K, j))
    if isinstance(v, SymBool):
        return mkbool(z3.substitute(v.c, (K, nz(j))))
    if isinstance(v, SymBytes):
        return mkbytes(sub_rope(v.r, K, j), v.mutable)
    if type(v) is SymStr:
        return SymStr(v.label, v.n, tuple(sub_t(i, K, j) for i in v.idx))
    if isinstance(v, Opaque):
        if not v.idx:
            return v
        r = object.__new__(type(v))
        r.__dict__.update(v.__dict__)
        r.__dict__['idx'] = tuple(sub_t(i, K, j) for i in v.idx)
        return r
    if isinstance(v, tuple):
        vals = [subst(x, K, j, depth + 1) for x in v]
        return tuple(vals) if type(v) is tuple else type(v)(*vals)
    if isinstance(v, VList):
        if v.sym is not None:
            return vlist(subst(v.sym, K, j, depth + 1))
        return VList([subst(x, K, j, depth + 1) for x in v])
    if isinstance(v, SList):
        parts = []
        for p in v.parts:
            if p[0] == 'c':
                parts.append(('c', [subst(x, K, j, depth + 1) for x in p[1]]))
            else:
                parts.append(('s', sub_t(p[1], K, j),
                              (lambda e: lambda k: subst(e(k), K, j))(p[2]), f'{p[3]}@{j}'))
        return SList(parts)
    if isinstance(v, dict):
        return {k: subst(x, K, j, depth + 1) for k, x in v.items()}
    if isinstance(v, (Poison, core_Generic)):
        return v
    mod = type(v).__module__
    if mod.startswith('siotls') or getattr(type(v), '__vc_copy__', False):
        r = object.__new__(type(v)) if not isinstance(v, BaseException) else v
        if r is not v:
            for k, x in vars(v).items():
                object.__setattr__(r, k, subst(x, K, j, depth + 1))
        return r
    raise Unsupported(f'substitution in a {type(v).__name__}')


class core_Generic(Sym):
    """A value produced for every k in [0, n): placeholder K stands for k."""
    def __init__(self, K, n, value):
        self.K, self.n, self.value = K, n, value


# ----------------------------------------------------------------------
# byte streams
# ----------------------------------------------------------------------

class VBytesIO:
    """io.BytesIO over ropes."""
    def __init__(self, initial_bytes=b''):
        if initial_bytes is None:
            initial_bytes = b''
        self._rope = rope_of(initial_bytes)
        self._pos = 0
        self.closed = False
    def _end(self):
        return rlen(self._rope)
    def tell(self):
        return mkint(self._pos)
    def seek(self, off, whence=0):
        off, whence = zi(off), int(whence)
        effect()
        if whence == 0:
            if ctx().branch(nz(off) < 0):
                raise ValueError(f'negative seek value {off}')
            p = off
        elif whence == 1:
            p = simp(nz(self._pos) + nz(off))
        elif whence == 2:
            p = simp(nz(self._end()) + nz(off))
        else:
            raise ValueError('invalid whence')
        if whence and not (isinstance(p, int) and p >= 0) and ctx().branch(nz(p) < 0):
            p = 0
        self._pos = simp(p)
        return mkint(self._pos)
    def read(self, size=-1):
        effect()
        c = ctx()
        end = self._end()
        pos = self._pos
        if isinstance(size, float):
            raise TypeError(f"argument should be integer or None, not 'float'")
        left = simp(nz(end) - nz(pos))
        neg = c.branch(nz(left) <= 0) if not isinstance(left, int) else left <= 0
        if size is None or (isinstance(size, int) and size < 0):
            k = left
        else:
            size = zi(size)
            if not isinstance(size, int) and c.branch(size < 0):
                k = left
            elif isinstance(size, int) and isinstance(left, int):
                k = min(size, left)
            elif c.branch(nz(size) <= nz(left)):
                k = size
            else:
                k = left
        if neg:
            return b''
        stop = simp(nz(pos) + nz(k))
        r = mkbytes(sym.slice_rope(self._rope, pos, stop))
        self._pos = stop
        return r
    def read1(self, size=-1):
        return self.read(size)
    def readinto(self, b):
        raise Unsupported('BytesIO.readinto')
    def write(self, b):
        effect()
        if not isbytes(b):
            raise TypeError(f"a bytes-like object is required, not '{type(b).__name__}'")
        rope = rope_of(b)
        n = rlen(rope)
        c = ctx()
        end, pos = self._end(), self._pos
        d = simp(nz(end) - nz(pos))
        if isinstance(d, int) and d == 0 or not isinstance(d, int) and c.must(nz(d) == 0):
            self._rope = norm(self._rope + rope)
            self._pos = rlen(self._rope)
            return mkint(n)
        if c.branch(nz(pos) > nz(end)):
            if c.branch(nz(n) > 0):
                self._rope = norm(self._rope + (Rep(0, simp(nz(pos) - nz(end))),) + rope)
        else:
            stop = simp(nz(pos) + nz(n))
            head = sym.slice_rope(self._rope, 0, pos)
            tail = sym.slice_rope(self._rope, stop, end) if c.branch(nz(stop) < nz(end)) else ()
            self._rope = norm(head + rope + tail)
        self._pos = simp(nz(pos) + nz(n))
        return mkint(n)
    def truncate(self, size=None):
        effect()
        p = self._pos if size is None else zi(size)
        if ctx().branch(nz(p) < nz(self._end())):
            self._rope = norm(sym.slice_rope(self._rope, 0, p))
        return mkint(p)
    def getvalue(self):
        return mkbytes(self._rope)
    def getbuffer(self):
        return mkbytes(self._rope)
    def close(self):
        self.closed = True
    def flush(self):
        pass
    def readable(self): return True
    def writable(self): return True
    def seekable(self): return True
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def __iter__(self):
        raise Unsupported('iteration of a BytesIO')


class NativeOrV(type):
    pass


SHIMS = {}     # module attribute path -> replacement, e.g. ('io', 'BytesIO')


@contextlib.contextmanager
def shimmed(fullname):
    """io.BytesIO is replaced while siotls modules are being imported, so that
    SerialIO derives from the symbolic stream."""
    saved = io.BytesIO
    io.BytesIO = VBytesIO
    try:
        yield
    finally:
        io.BytesIO = saved


# ----------------------------------------------------------------------
# calls
# ----------------------------------------------------------------------

MODELS = {}       # callable (by identity) -> model
METHODS = {}      # (type, method name) -> model(obj, *args)


def model(*fs):
    def deco(g):
        for f in fs:
            MODELS[f] = g
        return g
    return deco


def hashable(f):
    try:
        hash(f)
        return True
    except BaseException:  # noqa: BLE001
        return False


def has_sym(x, depth=0):
    if isinstance(x, (Sym, Splat, VBytesIO)):
        return True
    if isinstance(x, VList) and x.sym is not None:
        return True
    if depth < 3:
        if isinstance(x, (list, tuple, set, frozenset)):
            return any(has_sym(v, depth + 1) for v in list(x))
        if isinstance(x, dict):
            return any(has_sym(v, depth + 1) for v in x.values())
    return False


PY_OK = (types.FunctionType, types.MethodType)
TRUSTED_MODS = ('siotls', 'pyvc', 'contracts', '__main__', 'dataclasses', 'contextlib', 'functools',
                'collections', 'logging', 'typing', 'types', 'enum', 'abc', 'textwrap', 'spec')
NATIVE_OK = {getattr, setattr, hasattr, callable, id, issubclass, print, object.__new__, super}


def mod_ok(m):
    m = m or ''
    return m.split('.')[0] in TRUSTED_MODS


def call(f, *a, **k):
    if core.C is None:
        return f(*a, **k)
    if isinstance(f, functools.partial):
        return call(f.func, *f.args, *a, **{**f.keywords, **k})
    if isinstance(f, Sym):
        return f(*a, **k)
    if hashable(f):
        m = MODELS.get(f)
        if m is not None:
            return m(*a, **k)
    if isinstance(f, type):
        return construct(f, a, k)
    if isinstance(f, types.MethodType):
        if isinstance(f.__self__, type) and METHODS.get((f.__self__, f.__name__)):
            return METHODS[f.__self__, f.__name__](*a, **k)
        if not mod_ok(f.__func__.__module__) and (has_sym(a) or has_sym(k)):
            raise Unsupported(f'call of {f.__func__.__module__}.{f.__qualname__}')
        return f(*a, **k)
    if isinstance(f, types.FunctionType):
        if not mod_ok(f.__module__) and (has_sym(a) or has_sym(k)):
            raise Unsupported(f'call of {f.__module__}.{f.__qualname__}')
        return f(*a, **k)
    if isinstance(f, types.BuiltinFunctionType) or type(f).__name__ in (
            'method-wrapper', 'wrapper_descriptor', 'method_descriptor', 'classmethod_descriptor'):
        if f in NATIVE_OK:
            return f(*a, **k)
        self_ = getattr(f, '__self__', None)
        if self_ is not None and not isinstance(self_, types.ModuleType):
            if f.__name__ == '__init__' and isinstance(self_, BaseException):
                return f(*a, **k)
            if isinstance(self_, type) and f.__name__ == '__init_subclass__' or mod_ok(type(self_).__module__) \
                    and type(f).__name__ == 'method-wrapper':
                return f(*a, **k)
            return method(self_, f.__name__, a, k)
        if isinstance(f, types.MethodDescriptorType) and a:
            return method(a[0], f.__name__, a[1:], k)
        if has_sym(a) or has_sym(k):
            raise Unsupported(f'call of {getattr(f, "__qualname__", f)}')
        return f(*a, **k)
    return f(*a, **k)


def construct(cls, a, k):
    if cls is type and len(a) == 3:
        return type(str(a[0]), tuple(a[1]), dict(desym(a[2])), **k)
    if issubclass(cls, enum.Enum):
        if len(a) == 1 and isinstance(desym(a[0]), Sym):
            return enum_cast(cls, a[0])
        return cls(*a, **k)
    if issubclass(cls, BaseException):
        return cls(*a, **k)
    if cls.__module__ == 'builtins' or not mod_ok(cls.__module__) and not getattr(cls, '__vc_ok__', False):
        if has_sym(a) or has_sym(k):
            if isinstance(cls.__init__, types.FunctionType) and mod_ok(cls.__init__.__module__):
                return cls(*a, **k)
            raise Unsupported(f'call of {cls.__module__}.{cls.__qualname__}')
    return cls(*a, **k)


def enum_cast(cls, v):
    v = desym(v)
    if isinstance(v, SymInt) and issubclass(cls, int):
        if isinstance(v, SymEnum) and v.cls is cls:
            return v
        c = ctx()
        vals = sorted({int(m) for m in cls})
        miss = cls.__dict__.get('_missing_')
        if c.branch(in_values(v.t, vals)):
            return SymEnum(cls, v.t)
        if miss is not None:
            raise Unsupported(f'{cls.__name__}._missing_')
        raise ValueError(f'{v!r} is not a valid {cls.__name__}')
    if isinstance(v, SymStr) and issubclass(cls, str):
        # a member is equal to its value
        if bool(sym.atom('member of ' + cls.__name__, v)):
            return v
        raise ValueError(f'{v!r} is not a valid {cls.__name__}')
    raise ValueError(f'{v!r} is not a valid {cls.__name__}')


def in_values(t, vals):
    """t is one of vals, written with as few intervals as possible"""
    runs = []
    for v in vals:
        if runs and runs[-1][1] == v - 1:
            runs[-1][1] = v
        else:
            runs.append([v, v])
    return z3.Or([t == a if a == b else z3.And(t >= a, t <= b) for a, b in runs])


def callm(obj, name, *a, **k):
    if core.C is None:
        return getattr(obj, name)(*a, **k)
    obj = desym(obj) if name not in ('append', 'extend', 'clear') else obj
    if isinstance(obj, Sym):
        f = getattr(obj, name)
        if isinstance(obj, Opaque) and not isinstance(f, PY_OK):
            return call(f, *a, **k)
        return f(*a, **k)
    if isinstance(obj, type):
        m = METHODS.get((obj, name))
        if m is not None:
            return m(*a, **k)
        if issubclass(obj, int) and name == 'from_bytes':
            return int_from_bytes(*a, **k)
        return call(getattr(obj, name), *a, **k)
    if isinstance(obj, types.ModuleType):
        return call(getattr(obj, name), *a, **k)
    if isinstance(obj, (bytes, bytearray, str, list, dict, set, frozenset, int, float, tuple)) \
            and type(obj).__module__ in ('builtins', 'pyvc.rt') or isinstance(obj, (dict, int)):
        return method(obj, name, a, k)
    return call(getattr(obj, name), *a, **k)


def method(obj, name, a, k):
    """a method of a builtin object"""
    if isinstance(obj, (VBytesIO, Sym)):
        return getattr(obj, name)(*a, **k)
    if isinstance(obj, (list, dict, set, bytearray)) and name not in (
            'get', 'items', 'keys', 'values', 'copy', 'index', 'count', 'hex', 'decode', 'startswith'):
        effect()
    if isinstance(obj, (bytes, bytearray)) and name == 'join':
        return join(obj, *a)
    if isinstance(obj, dict):
        return dict_method(obj, name, a, k)
    if isinstance(obj, (list, set)) and type(obj).__name__ in ('list', 'VList', 'set'):
        if name in ('append', 'add', 'extend', 'clear', 'copy', 'pop', 'insert', 'remove', 'index',
                    'reverse', 'discard', 'update', 'sort', 'count'):
            if isinstance(obj, set) and has_sym(a):
                raise Unsupported(f'set.{name} of a symbolic value')
            if name in ('index', 'count', 'remove') and not isinstance(obj, VList) and has_sym(a):
                raise Unsupported(f'list.{name}')
            if name == 'extend' and not isinstance(obj, VList) and isinstance(desym(a[0]), SList):
                raise Unsupported('list.extend')
            return getattr(obj, name)(*a, **k)
    if not has_sym(a) and not has_sym(k):
        if isinstance(obj, (bytes, bytearray)) and name == 'hex':
            return sym.SymHex(SymBytes(rope_of(obj)))
        return getattr(obj, name)(*a, **k)
    if isinstance(obj, bytearray):
        raise Unsupported(f'bytearray.{name} with a symbolic argument')
    if isinstance(obj, bytes):
        return getattr(SymBytes(rope_of(obj)), name)(*a, **k)
    if isinstance(obj, str):
        if name in ('format', 'join'):
            return SymStr(f'{obj!r}.{name}{a!r}')
        if name in ('startswith', 'endswith', '__eq__'):
            raise Unsupported(f'str.{name}')
        raise Unsupported(f'str.{name}')
    if isinstance(obj, int) and not isinstance(obj, bool) and name == 'to_bytes':
        return SymInt(I(int(obj))).to_bytes(*a, **k)
    if mod_ok(type(obj).__module__):
        return getattr(obj, name)(*a, **k)
    raise Unsupported(f'{type(obj).__name__}.{name} with symbolic arguments')


# -- dictionaries ------------------------------------------------------

_MISSING = object()


def overlay(d):
    return ctx().tables.setdefault('overlay', {}).get(id(d), ())


def dict_find(d, key):
    """the key of d equal to key, or _MISSING; forks on a symbolic key"""
    if isinstance(key, SymEnum) or isinstance(key, SymInt):
        for k in list(d):
            if isinstance(k, int) and not isinstance(k, bool) and bool(key == int(k)):
                return k, d[k]
        for k, v in overlay(d):
            if bool(key == k):
                return k, v
        return _MISSING, None
    if isinstance(key, (SymBytes, SymStr, Opaque)):
        for k in list(d):
            if isinstance(k, (bytes, str, int)) and not isinstance(key, Opaque):
                r = key == k
                if bool(r):
                    return k, d[k]
        for k, v in overlay(d):
            if bool(key == k):
                return k, v
        return _MISSING, None
    if isinstance(key, tuple) and has_sym(key):
        for k, v in list(d.items()) + list(overlay(d)):
            if isinstance(k, tuple) and len(k) == len(key) and all(bool(x == y) for x, y in zip(key, k)):
                return k, v
        return _MISSING, None
    if isinstance(key, Sym):
        raise Unsupported(f'dictionary lookup of a {type(key).__name__}')
    if key in d:
        return key, d[key]
    for k, v in overlay(d):
        if bool(k == key):
            return k, v
    return _MISSING, None


def dict_set(d, key, value):
    if isinstance(key, Sym) or isinstance(key, tuple) and has_sym(key) or overlay(d):
        k, _ = dict_find(d, key)
        if k is not _MISSING and not isinstance(k, Sym) and not has_sym(k):
            dict.__setitem__(d, k, value)
            return
        ov = ctx().tables.setdefault('overlay', {})
        lst = list(ov.get(id(d), ()))
        if k is not _MISSING:
            lst = [(x, value if x is k else v) for x, v in lst]
        elif not isinstance(key, Sym) and not has_sym(key):
            dict.__setitem__(d, key, value)
            return
        else:
            lst.append((key, value))
            ctx().tables.setdefault('overlay_keep', []).append(d)
        ov[id(d)] = tuple(lst)
        return
    d[key] = value


def dict_items(d):
    return list(d.items()) + list(overlay(d))


def dict_method(d, name, a, k):
    if name == 'get':
        key, v = dict_find(d, a[0])
        return v if key is not _MISSING else (a[1] if len(a) > 1 else None)
    if name == 'setdefault':
        key, v = dict_find(d, a[0])
        if key is not _MISSING:
            return v
        v = a[1] if len(a) > 1 else None
        dict_set(d, a[0], v)
        return v
    if name == '__getitem__':
        return getitem(d, a[0])
    if name == '__contains__':
        return contains(a[0], d)
    if name == '__setitem__':
        return dict_set(d, *a)
    if name == 'pop':
        key, v = dict_find(d, a[0])
        if key is _MISSING:
            if len(a) > 1:
                return a[1]
            raise KeyError(a[0])
        delitem(d, a[0])
        return v
    if overlay(d):
        if name == 'items':
            return dict_items(d)
        if name == 'values':
            return [v for _, v in dict_items(d)]
        if name == 'keys':
            return [x for x, _ in dict_items(d)]
        if name == 'clear':
            ctx().tables['overlay'].pop(id(d), None)
            return d.clear()
        raise Unsupported(f'dict.{name} with symbolic keys')
    if name == 'update' and has_sym(a) and any(isinstance(x, Sym) for x in a):
        raise Unsupported('dict.update')
    return getattr(d, name)(*a, **k)


class SDict(Sym):
    """{key(k): value(k) for k < n} over a symbolic number of pairs with
    pairwise distinct keys, or not known to be distinct."""
    def __init__(self, pairs, distinct=False):
        self.pairs, self.distinct = pairs, distinct
    def _len(self):
        c = ctx()
        if self.distinct or c.tables.get('distinct', {}).get(id(self)):
            return mkint(self.pairs.n)
        if not hasattr(self, '_n'):
            n = c.newint('ndict')
            c.assume(z3.And(n >= 0, n <= nz(self.pairs.n), z3.Implies(nz(self.pairs.n) >= 1, n >= 1)))
            self._n = n
        return mkint(self._n)
    def __bool__(self):
        return ctx().branch(nz(self.pairs.n) > 0)
    def setitem(self, key, value):
        if bool(self.has(key)):
            raise Unsupported('replacing a value of a symbolic dictionary')
        self.pairs = SList(list(self.pairs.parts) + [('c', [(key, value)])])
        self.version += 1
    version = 0
    def find(self, key):
        """the last pair with that key"""
        c = ctx()
        present = self.has(key)
        if not bool(present):
            return None
        j = c.newint('at')
        i = z3.Int('j')
        c.assume(z3.And(j >= 0, j < nz(self.pairs.n)))
        k, v = self.pairs.at(j)
        c.assume(zb(sym.val_eq(k, key)))
        return k, v
    def has(self, key):
        c = ctx()
        tab = c.tables.setdefault('sdict', {})
        kk = (id(self), self.version, str(sym.sig(key)))
        c.tables.setdefault('keepalive', []).append(self)
        if kk not in tab:
            tab[kk] = quantified(self.pairs, lambda p: p[0] == key, True)
        return tab[kk]
    def get(self, key, default=None):
        r = self.find(key)
        return r[1] if r is not None else default
    def getitem(self, key):
        r = self.find(key)
        if r is None:
            raise KeyError(key)
        return r[1]
    def contains(self, key):
        return self.has(key)
    def setdefault(self, key, default=None):
        r = self.find(key)
        if r is not None:
            return r[1]
        self.setitem(key, default)
        return default
    def values(self):
        if not self.distinct:
            raise Unsupported('values of a dictionary with possibly equal keys')
        p = self.pairs
        return SList([('s', p.n, lambda k: p.at(k)[1], 'values')])
    def keys(self):
        p = self.pairs
        return SList([('s', p.n, lambda k: p.at(k)[0], 'keys')])
    def items(self):
        return self.pairs
    def __eq__(self, o):
        if isinstance(o, SDict):
            return self.pairs == o.pairs
        return False
    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(z3.Not(r.c)) if isinstance(r, SymBool) else not r
    __hash__ = Sym.__hash__


# -- subscripts ----------------------------------------------------------

def getitem(o, i):
    if core.C is None:
        return o[i]
    o = desym(o)
    if isinstance(o, (SymBytes, SList, SDict)):
        return o.getitem(i)
    if isinstance(o, Sym):
        return o[i]
    if isinstance(o, dict):
        if type(o).__getitem__ is not dict.__getitem__:
            return o[i]
        k, v = dict_find(o, i)
        if k is _MISSING:
            if hasattr(type(o), '__missing__'):
                return o[i]
            raise KeyError(i)
        return v
    sl = isinstance(i, slice)
    if sl and any(isinstance(x, Sym) for x in (i.start, i.stop, i.step)) or isinstance(i, Sym):
        if isinstance(o, (bytes, bytearray)):
            return SymBytes(rope_of(o)).getitem(i)
        if isinstance(o, (list, tuple)):
            return SList([('c', list(o))]).getitem(i)
        if isinstance(o, type):
            return type(o).__getitem__(o, i)
        if not isinstance(type(o).__getitem__, types.FunctionType):
            raise Unsupported(f'symbolic subscript of a {type(o).__name__}')
    return o[i]


def setitem(o, i, v):
    if core.C is None:
        o[i] = v
        return
    effect()
    o = desym(o)
    if isinstance(o, SDict):
        return o.setitem(i, v)
    if isinstance(o, dict) and type(o).__setitem__ is dict.__setitem__:
        return dict_set(o, i, v)
    if isinstance(o, SymByteArray):
        if isinstance(i, slice):
            ab = sym.clamp_slice(i, o.n)
            if ab is None:
                raise Unsupported('slice assignment with a step')
            n = o.n
            o.r = norm(sym.slice_rope(o.r, 0, ab[0]) + rope_of(v) + sym.slice_rope(o.r, ab[1], n))
            return
        i = zi(i)
        if not ctx().branch(z3.And(nz(i) >= 0, nz(i) < nz(o.n))):
            raise Unsupported('bytearray item assignment')
        n = o.n
        o.r = norm(sym.slice_rope(o.r, 0, i) + (be(zi(v), 1),) + sym.slice_rope(o.r, simp(nz(i) + 1), n))
        return
    if getattr(type(o), '__vc_ok__', False) and hasattr(type(o), '__setitem__'):
        effect()
        return o.__setitem__(i, v)
    if isinstance(o, Sym) or isinstance(i, Sym):
        raise Unsupported(f'item assignment on a {type(o).__name__}')
    o[i] = v


def delitem(o, i):
    if core.C is None:
        del o[i]
        return
    effect()
    o = desym(o)
    if isinstance(o, SymByteArray):
        return o.delitem(i)
    if isinstance(o, dict):
        k, _ = dict_find(o, i)
        if k is _MISSING:
            raise KeyError(i)
        ov = overlay(o)
        if any(x is k for x, _ in ov):
            ctx().tables['overlay'][id(o)] = tuple((x, v) for x, v in ov if x is not k)
        else:
            del o[k]
        return
    if getattr(type(o), '__vc_ok__', False) and hasattr(type(o), '__delitem__'):
        effect()
        return o.__delitem__(i)
    if isinstance(o, Sym) or isinstance(i, Sym):
        raise Unsupported(f'item deletion on a {type(o).__name__}')
    del o[i]


def contains(x, o):
    if core.C is None:
        return x in o
    o = desym(o)
    if isinstance(o, (SList, SDict)):
        return o.contains(x)
    if isinstance(o, SymBytes):
        raise Unsupported('in on symbolic bytes')
    if isinstance(o, Sym):
        raise Unsupported(f'in on {type(o).__name__}')
    if isinstance(o, dict):
        return dict_find(o, x)[0] is not _MISSING
    if isinstance(o, type) and issubclass(o, enum.Enum):
        if isinstance(x, SymInt):
            return mkbool(in_values(x.t, sorted({int(m) for m in o})))
        return x in o
    if isinstance(o, SGen):
        return quantified(o.seq, lambda v: o.fn(v) == x, True)
    if isinstance(o, (list, tuple, set, frozenset, type({}.keys()), type({}.values()))):
        els = list(o)
        if has_sym(x) or any(has_sym(v) for v in els):
            if isinstance(x, (int, SymInt)) and all(isinstance(v, (int, SymInt)) for v in els):
                cs = [zb(sym.val_eq(x, v)) for v in els]
                return mkbool(z3.Or(cs)) if cs else False
            for v in els:
                if v is x or bool(v == x):
                    return True
            return False
        return x in els if not isinstance(o, (set, frozenset)) else x in o
    if isinstance(o, range) and isinstance(x, SymInt):
        if o.step == 1:
            return mkbool(z3.And(x.t >= o.start, x.t < o.stop))
        return contains(x, list(o))
    if getattr(type(o), '__vc_ok__', False) and hasattr(type(o), '__contains__'):
        return o.__contains__(x)
    if isinstance(x, Sym):
        raise Unsupported(f'in on {type(o).__name__}')
    return x in o


def is_(x, y):
    if core.C is None:
        return x is y
    if isinstance(x, SymEnum) and isinstance(y, enum.Enum) or \
            isinstance(y, SymEnum) and isinstance(x, enum.Enum):
        e, m = (x, y) if isinstance(x, SymEnum) else (y, x)
        return e == m if type(m) is e.cls else False
    if isinstance(x, SymBool) and isinstance(y, bool):
        return x == y
    if isinstance(y, SymBool) and isinstance(x, bool):
        return y == x
    if isinstance(x, SymEnum) and isinstance(y, SymEnum):
        return x == y if x.cls is y.cls else False
    if isinstance(x, Opaque) and isinstance(y, Opaque):
        return x is y or x == y
    return x is y


# -- displays and comprehensions --------------------------------------------

def mklist(vals):
    if core.C is None:
        return vals
    if any(isinstance(v, Splat) for v in vals):
        parts, cur = [], []
        for v in vals:
            if isinstance(v, Splat):
                if cur:
                    parts.append(('c', cur))
                    cur = []
                parts.extend(parts_of(v.seq))
            else:
                cur.append(v)
        if cur:
            parts.append(('c', cur))
        return vlist(SList(parts))
    return VList(vals)


def mkdict(pairs):
    if core.C is None:
        d = {}
        for k, v in pairs:
            d[k] = v
        return d
    d = VDict()
    for k, v in pairs:
        dict_set(d, k, v)
    return d


class VSet(VList):
    """a set holding symbolic values (no duplicates are removed unless equal)"""


def mkset(vals):
    if core.C is None or not any(isinstance(v, Sym) for v in vals):
        return set(vals)
    out = VSet()
    for v in vals:
        if not bool(contains(v, out)):
            out.append(v)
    return out


def star(x):
    if core.C is None:
        return x
    x = desym(x)
    if isinstance(x, SGen):
        x = mapped(x.seq, x.fn)
    if isinstance(x, SymBytes):
        x = bytes_seq(x)
    if isinstance(x, VIter):
        x = x.rest()
    if isinstance(x, SList):
        n = x.n
        if isinstance(n, int):
            return [x.at(i) for i in range(n)]
        return (Splat(x),)
    if isinstance(x, types.GeneratorType):
        x = drain(x)
        x = desym(x)
        return (Splat(x),) if isinstance(x, SList) else x
    if isinstance(x, Sym):
        raise Unsupported(f'unpacking of {type(x).__name__}')
    return x


def sequence(x):
    """a symbolic sequence, or None if x is to be iterated natively"""
    x = desym(x)
    if isinstance(x, SList):
        n = x.n
        return x if not isinstance(n, int) else None
    if isinstance(x, SymBytes):
        return bytes_seq(x)
    if isinstance(x, VIter):
        s = x.rest()
        x.pos = x.seq.n
        return s
    if isinstance(x, SGen):
        return None
    return None


def native_iter(x):
    x = desym(x)
    if isinstance(x, SList):
        return iter([x.at(i) for i in range(x.n)])
    if isinstance(x, dict) and core.C is not None and overlay(x):
        return iter([k for k, _ in dict_items(x)])
    if isinstance(x, SDict):
        raise Unsupported('native iteration of a symbolic dictionary')
    if isinstance(x, SymBytes):
        raise Unsupported('native iteration of bytes')
    return iter(x)


def drain(gen):
    """list(generator); generic values become a symbolic part"""
    parts, cur = [], []
    c = ctx()
    for v in gen:
        if c.ghost.get('gen_generic'):
            K, n = c.ghost['gen_generic'][-1]
            if cur:
                parts.append(('c', cur))
                cur = []
            parts.append(('s', n, (lambda v, K: lambda k: subst(v, K, k))(v, K), c.fresh('gen')))
        else:
            cur.append(v)
    if not parts:
        return VList(cur)
    if cur:
        parts.append(('c', cur))
    return vlist(SList(parts))


def comp(kind, it, fn):
    if core.C is None:
        return _native_comp(kind, it, fn)
    it = desym(it)
    if isinstance(it, SGen):
        g = it
        seq, f2 = g.seq, (lambda x: (lambda v: SKIP if v is SKIP else fn(v))(g.fn(x)))
        if kind == 'gen':
            return SGen(seq, f2)
        it, fn = seq, f2
    seq = sequence(it)
    if seq is None:
        if isinstance(it, SDict):
            seq = it.keys()
        elif isinstance(it, core_Generic):
            raise Unsupported('generic value')
        else:
            return _native_comp(kind, native_iter(it), fn)
    if isinstance(seq.n, int):
        return _native_comp(kind, [seq.at(i) for i in range(seq.n)], fn)
    if kind == 'gen':
        return SGen(seq, fn)
    if kind == 'list':
        return vlist(concat_parts(seq, fn))
    if kind == 'dict':
        r = concat_parts(seq, fn)
        return SDict(r, distinct=getattr(seq, 'distinct', False) or distinct_hint(seq, r))
    if kind == 'set':
        r = concat_parts(seq, fn)
        r.is_set = True
        return r
    raise Unsupported(kind)


def distinct_hint(seq, pairs):
    """are the keys known to be pairwise distinct? (ghost fact of the harness)"""
    fn = core.C.ghost.get('distinct_keys')
    return bool(fn and fn(pairs))


def concat_parts(seq, fn):
    """map over each part of a sequence"""
    parts = []
    for p in seq.parts:
        if p[0] == 'c':
            vals = [v for v in (fn(x) for x in p[1]) if v is not SKIP]
            if vals:
                parts.append(('c', vals))
        else:
            parts.extend(mapped(SList([p]), fn).parts)
    r = SList(parts)
    return r


def _native_comp(kind, it, fn):
    if kind == 'gen':
        return (v for v in map(fn, it) if v is not SKIP)
    vals = [v for v in map(fn, it) if v is not SKIP]
    if core.C is not None and core.C.ghost.get('gen_generic'):
        raise Unsupported('comprehension inside of a generic iteration')
    if kind == 'list':
        return mklist(vals)
    if kind == 'set':
        return mkset(vals)
    return mkdict(vals)


def unpack(v, n, star_i=None):
    if core.C is None:
        return v if star_i is None else _starred(builtins.list(v), n, star_i)
    v = desym(v)
    if isinstance(v, SGen):
        v = mapped(v.seq, v.fn)
    if isinstance(v, types.GeneratorType):
        v = desym(drain(v))
    if isinstance(v, SymBytes):
        v = bytes_seq(v)
    if isinstance(v, VIter):
        v = v.rest()
    if isinstance(v, SList):
        c = ctx()
        m = v.n
        if star_i is None:
            if not c.branch(nz(m) == n):
                raise ValueError(f'not enough or too many values to unpack (expected {n})')
            return [v.at(i) for i in range(n)]
        if not c.branch(nz(m) >= n - 1):
            raise ValueError(f'not enough values to unpack (expected at least {n - 1})')
        after = n - 1 - star_i
        mid = v.getitem(slice(star_i, mkint(nz(m) - after) if after else None))
        return [v.at(i) for i in range(star_i)] + [mklist([Splat(mid)])] + \
            [v.at(simp(nz(m) - after + i)) for i in range(after)]
    if isinstance(v, Sym):
        raise Unsupported(f'unpacking of a {type(v).__name__}')
    return v if star_i is None else _starred(builtins.list(v), n, star_i)


def _starred(l, n, i):
    if len(l) < n - 1:
        raise ValueError(f'not enough values to unpack (expected at least {n - 1}, got {len(l)})')
    after = n - 1 - i
    return l[:i] + [l[i:len(l) - after]] + l[len(l) - after:]


def yielded(v):
    return v


OPS = dict(Add=operator.iadd, Sub=operator.isub, Mult=operator.imul, BitOr=operator.ior,
           BitAnd=operator.iand, BitXor=operator.ixor, FloorDiv=operator.ifloordiv, Mod=operator.imod,
           LShift=operator.ilshift, RShift=operator.irshift, Div=operator.itruediv, Pow=operator.ipow)


def aug(op, a, b):
    return OPS[op](a, b)


# -- builtins ----------------------------------------------------------------

@model(len)
def m_len(x):
    x = desym(x)
    if isinstance(x, (SymBytes, SList, SDict)):
        return x._len()
    if isinstance(x, SymStr):
        c = ctx()
        if x.n is None:
            n = z3.Int(f'strlen:{x.label}') if not x.idx else z3.Function(
                f'strlen:{x.label}', *([z3.IntSort()] * (len(x.idx) + 1)))(*[nz(i) for i in x.idx])
            c.assume(n >= 0)
            x.n = n
        return mkint(x.n)
    if isinstance(x, dict) and overlay(x):
        return builtins.len(x) + builtins.len(overlay(x))
    m = getattr(type(x), '__len__', None)
    if isinstance(m, types.FunctionType) and not isinstance(x, list):
        return m(x)
    return builtins.len(x)


@model(int)
def m_int(x=0, *a, **k):
    x = desym(x)
    if isinstance(x, SymInt):
        return mkint(x.t)
    if isinstance(x, SymBool):
        return mkint(x.as_int())
    if isinstance(x, Ratio):
        return x.floor()
    if isinstance(x, SymStr):
        return str_to_int(x)
    if isinstance(x, Sym):
        raise Unsupported(f'int of a {type(x).__name__}')
    return builtins.int(x, *a, **k)


def str_to_int(s):
    c = ctx()
    ok = sym.atom('isnumber', s)
    if not bool(ok):
        raise ValueError(f'invalid literal for int() with base 10: {s!r}')
    return SymInt(z3.Int('int(' + s.label + ')'))


def int_from_bytes(b, byteorder='big', *, signed=False):
    b = desym(b)
    if isinstance(b, (list, tuple)):
        b = m_bytes(b)
    if isinstance(b, SymBytes):
        if signed or byteorder != 'big':
            raise Unsupported('from_bytes')
        return mkint(sym.int_of_rope(b.r))
    return builtins.int.from_bytes(b, byteorder, signed=signed)


MODELS[int.from_bytes] = int_from_bytes


def ints_rope(it):
    out = []
    for v in it:
        v = zi(v)
        if not ctx().branch(z3.And(nz(v) >= 0, nz(v) <= 255)):
            raise ValueError('bytes must be in range(0, 256)')
        out.append(be(v, 1))
    return norm(out)


class SChain(Sym):
    """itertools.chain.from_iterable over a symbolic sequence"""
    def __init__(self, seq):
        self.seq = seq


def bytes_rope(x):
    x = desym(x)
    if isbytes(x):
        return rope_of(x)
    if isinstance(x, (int, SymInt)):
        n = zi(x)
        if ctx().branch(nz(n) < 0):
            raise ValueError('negative count')
        return (Rep(0, n),) if not isinstance(n, int) else (Lit(b'\0' * n),)
    if isinstance(x, SGen):
        x = mapped(x.seq, x.fn)
    if isinstance(x, VIter):
        x = x.rest()
    if isinstance(x, SChain):
        return join_rope(mapped(x.seq, lambda t: mkbytes(ints_rope(t))))
    if isinstance(x, SList):
        if getattr(x, 'src', None) is not None:
            return x.src.r
        return join_rope(mapped(x, lambda v: mkbytes(ints_rope([v]))))
    if isinstance(x, str):
        raise TypeError('string argument without an encoding')
    if isinstance(x, Opaque) and '__bytes__' in x.attrs:
        return rope_of(x.attrs['__bytes__'](x))
    return ints_rope(list(x))


@model(bytes)
def m_bytes(x=b'', *a):
    if a:
        if isinstance(x, SymStr):
            return x.encode(*a)
        return builtins.bytes(x, *a)
    return mkbytes(bytes_rope(x))


@model(bytearray)
def m_bytearray(x=b'', *a):
    return SymByteArray(norm(bytes_rope(x)))


@model(memoryview)
def m_memoryview(x):
    return mkbytes(rope_of(x))


@model(str)
def m_str(x='', *a):
    if isinstance(x, SymStr):
        return x
    if isinstance(x, Sym):
        return SymStr('str(' + repr(x) + ')')
    return builtins.str(x, *a)


@model(repr)
def m_repr(x):
    return builtins.repr(x)


@model(bool)
def m_bool(x=False):
    return builtins.bool(x)


@model(float)
def m_float(x=0.0):
    if isinstance(x, Sym):
        raise Unsupported('float')
    return builtins.float(x)


def _flat(T):
    if isinstance(T, tuple):
        return [y for t in T for y in _flat(t)]
    if isinstance(T, types.UnionType):
        return [y for t in T.__args__ for y in _flat(t)]
    return [T]


def pytypes(x):
    """the Python classes a symbolic value stands for an instance of"""
    if isinstance(x, SymEnum):
        return x.cls.__mro__
    if isinstance(x, SymInt):
        return (int,)
    if isinstance(x, SymBool):
        return (bool, int)
    if isinstance(x, SymByteArray):
        return (bytearray,)
    if isinstance(x, SymBytes):
        return (bytes,)
    if isinstance(x, SymStr):
        return (str,)
    if isinstance(x, VRange):
        return (range,)
    if isinstance(x, SList):
        return (tuple,) if x.tuple_ else (list,)
    if isinstance(x, SDict):
        return (dict,)
    if isinstance(x, Opaque):
        return tuple(x.pytypes)
    return ()


@model(isinstance)
def m_isinstance(x, T):
    if isinstance(x, Sym) and not mod_ok(type(x).__module__) or isinstance(x, Sym) and \
            type(x).__module__.startswith('pyvc'):
        ts = pytypes(x)
        if isinstance(x, Opaque) and callable(x.attrs.get('isinstance')):
            return x.attrs['isinstance'](T)
        for t in _flat(T):
            if t is object:
                return True
            if t in (collections.abc.Buffer if hasattr(collections.abc, 'Buffer') else None,):
                if isinstance(x, SymBytes):
                    return True
            for u in ts:
                try:
                    if issubclass(u, t):
                        return True
                except TypeError:
                    raise Unsupported('isinstance')
        return False
    return builtins.isinstance(x, T)


@model(type)
def m_type(*a, **k):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, Sym):
            ts = pytypes(x)
            if not ts:
                raise Unsupported(f'type of {x!r}')
            return ts[0]
        if type(x) is VList:
            return list
        return builtins.type(x)
    return builtins.type(*a, **k)


@model(range)
def m_range(*a):
    if not any(isinstance(x, Sym) for x in a):
        return builtins.range(*a)
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        (lo, hi), st = a, 1
    else:
        lo, hi, st = a
    return VRange(zi(lo), zi(hi), zi(st))


def _minmax(a, k, is_min):
    if k.get('key') is not None:
        raise Unsupported('min/max with a key')
    vals = a
    if len(a) == 1:
        x = desym(a[0])
        if isinstance(x, (SGen, SList)):
            raise Unsupported('min/max of a symbolic sequence')
        vals = list(x)
        if not vals:
            if 'default' in k:
                return k['default']
            raise ValueError('arg is an empty sequence')
    if not any(isinstance(v, Sym) for v in vals):
        return (builtins.min if is_min else builtins.max)(vals)
    inf = [v for v in vals if isinstance(v, float)]
    if inf:
        rest = [v for v in vals if not isinstance(v, float)]
        for f in inf:
            if f == float('inf') and is_min or f == float('-inf') and not is_min:
                continue
            return f
        vals = rest
    if not all(isinstance(v, (int, SymInt)) for v in vals):
        raise Unsupported('min/max')
    best = vals[0]
    for v in vals[1:]:
        x, y = nz(zi(best)), nz(zi(v))
        best = mkint(z3.If((y < x) if is_min else (y > x), y, x))
    return best


@model(min)
def m_min(*a, **k): return _minmax(a, k, True)


@model(max)
def m_max(*a, **k): return _minmax(a, k, False)


def _q(it, want):
    it = desym(it)
    if isinstance(it, SGen):
        return quantified(it.seq, it.fn, want)
    s = sequence(it)
    if s is not None:
        return quantified(s, lambda x: x, want)
    for v in native_iter(it):
        if builtins.bool(v) == want:
            return want
    return not want


@model(any)
def m_any(it): return _q(it, True)


@model(all)
def m_all(it): return _q(it, False)


@model(sum)
def m_sum(it, start=0):
    it = desym(it)
    if isinstance(it, (SGen, SList)):
        raise Unsupported('sum of a symbolic sequence')
    for v in it:
        start = start + v
    return start


@model(next)
def m_next(it, *d):
    if isinstance(it, SGen):
        if it.used:
            raise Unsupported('second next of a symbolic generator')
        it.used = True
        return first(it.seq, it.fn, d[0] if d else None, builtins.bool(d))
    if isinstance(it, VIter):
        try:
            return it.__next__()
        except StopIteration:
            if d:
                return d[0]
            raise
    return builtins.next(it, *d)


@model(iter)
def m_iter(x, *a):
    if a:
        return builtins.iter(x, *a)
    x = desym(x)
    if isinstance(x, SymBytes):
        return VIter(bytes_seq(x))
    if isinstance(x, range) and core.C is not None and core.C.ghost.get('virtual_iterators'):
        return VIter(VRange(x.start, x.stop, x.step))
    if isinstance(x, (bytes, bytearray)):
        return VIter(bytes_seq(SymBytes(rope_of(x)))) if False else builtins.iter(x)
    if isinstance(x, SList):
        return VIter(x)
    if isinstance(x, (SGen, VIter)):
        return x
    return native_iter(x)


@model(zip)
def m_zip(*its, strict=False):
    its = [desym(x.seq) if isinstance(x, Splat) else desym(x) for x in its]
    if its and all(isinstance(x, VIter) and x is its[0] for x in its):
        it, w = its[0], len(its)
        seq = it.rest()
        it.pos = it.seq.n
        n = seq.n
        c = ctx()
        q = mkint(n) // w if not isinstance(n, int) else n // w
        r = zi(mkint(n) % w) if not isinstance(n, int) else n % w
        if strict and c.branch(nz(r) != 0):
            raise ValueError('zip() argument is shorter than the previous ones')
        return SList([('s', zi(q), lambda k: tuple(seq.at(simp(nz(k) * w + i)) for i in builtins.range(w)),
                       'zip')])
    seqs = []
    for x in its:
        if isinstance(x, VIter):
            x = x.rest()
        if isinstance(x, SGen):
            x = mapped(x.seq, x.fn)
        if isinstance(x, SymBytes):
            x = bytes_seq(x)
        seqs.append(x)
    if not any(isinstance(x, SList) and not isinstance(x.n, int) for x in seqs):
        return builtins.zip(*[native_iter(x) for x in seqs], strict=strict)
    seqs = [x if isinstance(x, SList) else SList([('c', list(x))]) for x in seqs]
    c = ctx()
    n = seqs[0].n
    for x in seqs[1:]:
        if c.must(nz(n) == nz(x.n)):
            continue
        if strict:
            if c.branch(nz(n) != nz(x.n)):
                raise ValueError('zip() argument is shorter')
        else:
            n = simp(z3.If(nz(n) < nz(x.n), nz(n), nz(x.n)))
    return SList([('s', n, lambda k: tuple(x.at(k) for x in seqs), 'zip')])


@model(enumerate)
def m_enumerate(x, start=0):
    x = desym(x)
    if isinstance(x, SGen):
        x = mapped(x.seq, x.fn)
    s = sequence(x)
    if s is None:
        return builtins.enumerate(native_iter(x), start)
    return SList([('s', s.n, lambda k: (mkint(nz(k) + nz(zi(start))), s.at(k)), 'enumerate')])


@model(reversed)
def m_reversed(x):
    x = desym(x)
    s = sequence(x)
    if s is None:
        return builtins.reversed(x if not isinstance(x, SList) else [x.at(i) for i in builtins.range(x.n)])
    n = s.n
    return SList([('s', n, lambda k: s.at(simp(nz(n) - 1 - nz(k))), 'reversed')])


@model(map)
def m_map(f, *its):
    if len(its) == 1:
        x = desym(its[0])
        if isinstance(x, SGen):
            return SGen(x.seq, lambda v: (lambda w: SKIP if w is SKIP else call(f, w))(x.fn(v)))
        s = sequence(x)
        if s is not None:
            return SGen(s, lambda v: call(f, v))
    return (call(f, *xs) for xs in builtins.zip(*[native_iter(i) for i in its]))


@model(filter)
def m_filter(f, it):
    test = (lambda v: v) if f is None else (lambda v: call(f, v))
    x = desym(it)
    if isinstance(x, SGen):
        return SGen(x.seq, lambda v: (lambda w: w if w is not SKIP and test(w) else SKIP)(x.fn(v)))
    s = sequence(x)
    if s is not None:
        return SGen(s, lambda v: v if test(v) else SKIP)
    return (v for v in native_iter(x) if test(v))


@model(list)
def m_list(x=()):
    x = desym(x)
    if isinstance(x, SGen):
        return vlist(concat_parts(x.seq, x.fn))
    if isinstance(x, SDict):
        x = x.keys()
    if isinstance(x, types.GeneratorType):
        return drain(x)
    s = sequence(x)
    if s is not None:
        return vlist(SList(list(s.parts)))
    return VList(native_iter(x))


@model(tuple)
def m_tuple(x=()):
    r = m_list(x)
    if r.sym is not None:
        return SList(list(r.sym.parts), tuple_=True)
    return builtins.tuple(r)


@model(set, frozenset)
def m_set(x=()):
    x = desym(x)
    if isinstance(x, SGen):
        x = mapped(x.seq, x.fn)
    s = sequence(x)
    if s is not None:
        r = SList(list(s.parts))
        r.is_set = True
        return r
    vals = list(native_iter(x))
    return mkset(vals)


@model(dict)
def m_dict(x=(), **k):
    x = desym(x)
    if isinstance(x, SGen):
        return SDict(concat_parts(x.seq, x.fn))
    s = sequence(x)
    if s is not None:
        return SDict(s)
    if isinstance(x, dict):
        r = mkdict(dict_items(x))
    else:
        r = mkdict([tuple(p) for p in native_iter(x)])
    r.update(k)
    return r


@model(sorted)
def m_sorted(x, **k):
    x = desym(x)
    if has_sym(x):
        raise Unsupported('sorted')
    return mklist(builtins.sorted(x, **k))


@model(abs)
def m_abs(x): return abs(x)


@model(divmod)
def m_divmod(a, b): return a // b, a % b


@model(pow)
def m_pow(a, b, m=None):
    if isinstance(a, Sym) or isinstance(b, Sym):
        raise Unsupported('pow')
    return builtins.pow(a, b, m) if m is not None else builtins.pow(a, b)


@model(ord)
def m_ord(x):
    if isinstance(x, SymBytes):
        return x.getitem(0)
    return builtins.ord(x)


@model(hash)
def m_hash(x):
    if isinstance(x, Sym):
        raise Unsupported('hash')
    return builtins.hash(x)


@model(math.ceil)
def m_ceil(x):
    if isinstance(x, Ratio):
        return x.ceil()
    if isinstance(x, SymInt):
        return x
    return math.ceil(x)


@model(math.floor)
def m_floor(x):
    if isinstance(x, Ratio):
        return x.floor()
    if isinstance(x, SymInt):
        return x
    return math.floor(x)


@model(itertools.chain)
def m_chain(*its):
    its = [desym(i) for i in its]
    if any(isinstance(i, (SGen, SList, SymBytes)) for i in its):
        parts = []
        for i in its:
            if isinstance(i, SGen):
                parts.extend(concat_parts(i.seq, i.fn).parts)
            elif isinstance(i, SymBytes):
                parts.extend(bytes_seq(i).parts)
            else:
                parts.extend(parts_of(i))
        return SList(parts)
    return itertools.chain(*[native_iter(i) for i in its])


@model(itertools.chain.from_iterable)
def m_chain_from(it):
    it = desym(it)
    if isinstance(it, SGen):
        it = mapped(it.seq, it.fn)
    if isinstance(it, SList) and not isinstance(it.n, int):
        return SChain(it)
    return itertools.chain.from_iterable(native_iter(it))


@model(itertools.pairwise)
def m_pairwise(it):
    it = desym(it)
    if isinstance(it, SList) and not isinstance(it.n, int):
        n = it.n
        return SList([('s', simp(z3.If(nz(n) > 0, nz(n) - 1, I(0))),
                       lambda k: (it.at(k), it.at(simp(nz(k) + 1))), 'pairwise')])
    return itertools.pairwise(native_iter(it))


@model(itertools.islice)
def m_islice(it, *a):
    it = desym(it)
    if isinstance(it, (SGen, SList, SymBytes, VIter)) or any(isinstance(x, Sym) for x in a):
        raise Unsupported('islice')
    return itertools.islice(it, *a)


@model(struct.unpack)
def m_unpack(fmt, data):
    if not isinstance(data, SymBytes):
        return struct.unpack(fmt, data)
    sizes = {'B': 1, 'H': 2, 'I': 4, 'L': 4, 'Q': 8}
    if fmt[0] not in '!>' or any(ch not in sizes for ch in fmt[1:]):
        raise Unsupported('struct format')
    tot = sum(sizes[ch] for ch in fmt[1:])
    if not ctx().branch(nz(data.n) == tot):
        raise struct.error(f'unpack requires a buffer of {tot} bytes')
    out, pos = [], 0
    for ch in fmt[1:]:
        out.append(mkint(sym.int_of_rope(sym.slice_rope(data.r, pos, pos + sizes[ch]))))
        pos += sizes[ch]
    return tuple(out)


@model(struct.pack)
def m_pack(fmt, *vals):
    if not has_sym(vals):
        return struct.pack(fmt, *vals)
    sizes = {'B': 1, 'H': 2, 'I': 4, 'L': 4, 'Q': 8}
    if fmt[0] not in '!>' or any(ch not in sizes for ch in fmt[1:]):
        raise Unsupported('struct format')
    out = ()
    for ch, v in builtins.zip(fmt[1:], vals):
        try:
            out += rope_of(SymInt(nz(zi(v))).to_bytes(sizes[ch], 'big'))
        except OverflowError:
            raise struct.error('argument out of range') from None
    return mkbytes(out)


def join_rope(seq):
    """concatenation of a symbolic sequence of byte strings"""
    out = ()
    for p in seq.parts:
        if p[0] == 'c':
            for v in p[1]:
                if not isbytes(v):
                    raise TypeError(f'sequence item: expected a bytes-like object, {type(v).__name__} found')
                out += rope_of(v)
        else:
            def body(k, e=p[2]):
                v = e(k)
                if not isbytes(v):
                    raise TypeError('sequence item: expected a bytes-like object')
                return rope_of(v)
            out += (Fold(0, p[1], body),)
    return norm(out)


def join(sep, it):
    it = desym(it)
    if isinstance(it, SGen):
        it = concat_parts(it.seq, it.fn)
    if isinstance(it, types.GeneratorType):
        it = desym(drain(it))
    if isinstance(it, SDict):
        raise Unsupported('join of a dictionary')
    if isinstance(it, SList):
        if len(sep):
            raise Unsupported('join with a separator')
        return mkbytes(join_rope(it))
    vals = list(native_iter(it))
    out = ()
    for i, v in builtins.enumerate(vals):
        if isinstance(v, Splat):
            out += join_rope(v.seq)
            continue
        if not isbytes(v):
            raise TypeError(f'sequence item {i}: expected a bytes-like object, {type(v).__name__} found')
        if i and len(sep):
            out += rope_of(sep)
        out += rope_of(v)
    return mkbytes(out)


METHODS[bytes, 'fromhex'] = bytes.fromhex
METHODS[dict, 'fromkeys'] = lambda it, v=None: mkdict([(k, v) for k in native_iter(it)])


class Hooks:
    call = staticmethod(call)
    callm = staticmethod(callm)
    star = staticmethod(star)
    getitem = staticmethod(getitem)
    setitem = staticmethod(setitem)
    delitem = staticmethod(delitem)
    contains = staticmethod(contains)
    is_ = staticmethod(is_)
    mklist = staticmethod(mklist)
    mkdict = staticmethod(mkdict)
    mkset = staticmethod(mkset)
    comp = staticmethod(comp)
    unpack = staticmethod(unpack)
    yielded = staticmethod(yielded)
    aug = staticmethod(aug)
    SKIP = SKIP


HOOKS = Hooks()
