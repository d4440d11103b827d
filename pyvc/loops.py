"""Loops.  A loop over concrete data runs natively.  Any other is cut by an
inductive description of what it modifies:

* discovery: the body runs once at an arbitrary iteration K, from a candidate
  description of the modified locations at K, over all of its paths; what it
  does to each location either confirms the candidate at K+1 or demotes it
  (linear integer -> bounded integer -> unknown, appended bytes -> unknown,
  appended list -> unknown, stream position at element K -> stream position
  within bounds), until the description is inductive;
* the generic iteration: the body runs at an arbitrary K, obligations are
  emitted, it ends at the back edge or leaves the loop by itself;
* the exit: the code after the loop runs from the description at K = n.

No bound is put on the number of iterations.
"""
import inspect
import sys
import types
import z3
from . import core, sym, rt
from .core import Unsupported, PathEnd, NeedCut, ctx
from .sym import (Sym, SymInt, SymBool, SymBytes, SymByteArray, SList, I, Fold, Sl, zi, zb, nz, simp, mkint,
                  mkbytes, rlen, norm, isbytes, rope_of)
from .rt import VList, VBytesIO, VIter, Poison, desym, subst, sub_rope, vlist

MAX_UNROLL_FORKS = 3
MAX_UNROLL = 600
MISSING = object()


class Discover(BaseException):
    def __init__(self, key):
        self.key = key


class LoopInfo:
    def __init__(self, lid):
        self.lid = lid
        self.templates = {}
        self.edges = []
        self.ready = False
        self.failed = None
        self.round = 0
        self.uid = None
        self.seen_exit = False


# ----------------------------------------------------------------------
# locations
# ----------------------------------------------------------------------

def is_state(o):
    m = type(o).__module__
    return (m.startswith('siotls') or getattr(type(o), '__vc_state__', False)) \
        and not isinstance(o, (type, types.FunctionType, BaseException)) and hasattr(o, '__dict__') \
        and not isinstance(o, int)


def walk(roots):
    """{path: (getter value, container, key)} for all the mutable locations"""
    out, seen = {}, {}
    keep = []

    def go(o, path, depth):
        if isinstance(o, (SymByteArray, VBytesIO, VIter, VList, dict)) or is_state(o):
            if id(o) in seen:
                return
            seen[id(o)] = path
            keep.append(o)
        else:
            if isinstance(o, tuple) and depth < 6 and type(o) is tuple:
                for i, v in enumerate(o):
                    go(v, path + (i,), depth + 1)
            elif isinstance(o, types.MethodType):
                go(o.__self__, path + ('self',), depth)
            return
        if depth > 8:
            return
        if isinstance(o, SymByteArray):
            out[path + ('bytes',)] = (norm(o.r), o, 'bytes')
        elif isinstance(o, VIter):
            out[path + ('ipos',)] = (mkint(o.pos) if z3.is_expr(o.pos) else o.pos, o, 'ipos')
        elif isinstance(o, VList):
            out[path + ('list',)] = (tuple(map(_partkey, rt.parts_of(o))), o, 'list')
            if o.sym is None:
                for i, v in enumerate(list.__iter__(o)):
                    go(v, path + (i,), depth + 1)
        elif isinstance(o, dict):
            if isinstance(o, rt.VDict) and o.sym is not None:
                out[path + ('dict',)] = (tuple(map(_partkey, rt.dict_pairs(o))), o, 'dict')
                return
            out[path + ('dict',)] = (tuple((id(k), id(v)) for k, v in rt.dict_items(o)), o, 'dict')
            if len(o) < 40:
                for k, v in o.items():
                    go(v, path + (('k', str(k)),), depth + 1)
        else:
            if isinstance(o, VBytesIO):
                out[path + ('rope',)] = (o._rope, o, 'rope')
                out[path + ('pos',)] = (o._pos, o, 'pos')
            for k, v in list(vars(o).items()):
                if isinstance(o, VBytesIO) and k in ('_rope', '_pos'):
                    continue
                out[path + ('.' + k,)] = (v, o, ('attr', k))
                go(v, path + ('.' + k,), depth + 1)
    for name, o in roots.items():
        if name.startswith('vc__'):
            continue
        out[('L', name)] = (o, None, ('local', name))
        go(o, ('L', name), 0)
    walk.keep = keep
    return out


def _partkey(p):
    if p[0] == 'c':
        return ('c', tuple(id(v) for v in p[1]))
    return ('s', str(p[1]), p[3])


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)) and not isinstance(a, bool):
        d = simp(nz(zi(a)) - nz(zi(b)))
        return isinstance(d, int) and d == 0
    if z3.is_expr(a) or z3.is_expr(b):
        d = simp(nz(a) - nz(b))
        return isinstance(d, int) and d == 0
    if isinstance(a, (bytes, str, bool, float, type(None))) and type(a) is type(b):
        return a == b
    if type(a) is SymBytes and type(b) is SymBytes:
        return sym.rope_key(a.r) == sym.rope_key(b.r)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a and isinstance(a[0], sym.Seg) or b and isinstance(b[0], sym.Seg):
            return sym.rope_key(a) == sym.rope_key(b)
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False


# ----------------------------------------------------------------------
# templates: what a location holds after k iterations
# ----------------------------------------------------------------------

class T:
    """base: dead"""
    rank = 9
    def __init__(self, path, v0):
        self.path, self.v0 = path, v0
    def at(self, k, h):
        return Poison(str(self.path[-1]))
    def holds(self, v, k1, h):
        return True
    def demote(self):
        return None


class Dead(T):
    pass


class Lin(T):
    def __init__(self, path, v0, step):
        self.path, self.v0, self.step = path, v0, step
    def at(self, k, h):
        return mkint(nz(zi(self.v0)) + nz(k) * self.step)
    def holds(self, v, k1, h):
        if not isinstance(v, (int, SymInt)):
            return False
        return ctx().must(nz(zi(v)) == nz(zi(self.v0)) + nz(k1) * self.step)
    def demote(self):
        return Int(self.path, self.v0, True, True)


class Int(T):
    """unknown integer, at least (at most) its initial value if inductive"""
    def __init__(self, path, v0, lo, hi):
        self.path, self.v0, self.lo, self.hi = path, v0, lo, hi
        self.bad_lo = self.bad_hi = False
    def at(self, k, h):
        c = ctx()
        t = c.newint('hv')
        c.assume(nz(k) >= 0)
        if self.lo:
            c.assume(t >= nz(zi(self.v0)))
        if self.hi:
            c.assume(t <= nz(zi(self.v0)))
        return mkint(t)
    def holds(self, v, k1, h):
        if not isinstance(v, (int, SymInt)):
            self.demoted = Dead(self.path, self.v0)
            return False
        c = ctx()
        ok = True
        if self.lo and not c.must(nz(zi(v)) >= nz(zi(self.v0))):
            self.bad_lo = True
            ok = False
        if self.hi and not c.must(nz(zi(v)) <= nz(zi(self.v0))):
            self.bad_hi = True
            ok = False
        return ok
    demoted = None
    def demote(self):
        return self.demoted or Int(self.path, self.v0, self.lo and not self.bad_lo, self.hi and not self.bad_hi)


class New(T):
    """attribute created by the body: absent before the first iteration, then what the last one left"""
    def __init__(self, path, v, K, owner):
        self.path, self.v0, self.v, self.K, self.owner = path, MISSING, v, K, owner
    def at(self, k, h):
        if isinstance(self.v, (int, SymInt)):
            return mkint(z3.substitute(nz(zi(self.v)), (self.K, nz(k) - 1)))
        return Poison(str(self.path[-1]))
    def holds(self, v, k1, h):
        if not isinstance(self.v, (int, SymInt)):
            return True
        return isinstance(v, (int, SymInt)) and ctx().must(
            nz(zi(v)) == z3.substitute(nz(zi(self.v)), (self.K, nz(k1) - 1)))
    def demote(self):
        return New(self.path, None, self.K, self.owner)


class Bool(T):
    """unknown boolean"""
    def at(self, k, h):
        return sym.mkbool(ctx().newbool('hvb'))
    def holds(self, v, k1, h):
        return isinstance(v, (bool, SymBool))
    def demote(self):
        return Dead(self.path, self.v0)


class Append(T):
    tags = ()
    """bytes: initial ++ delta(0) ++ ... ++ delta(k-1)"""
    def __init__(self, path, v0, mutable, delta, K, rebind):
        self.path, self.v0, self.mutable, self.delta, self.K, self.rebind = path, v0, mutable, delta, K, rebind
    def rope(self, k):
        K, d = self.K, self.delta
        tags = self.tags

        def body(j):
            for t in tags:
                ctx().looked(t, j)
            return sub_rope(d, K, j)
        f = Fold(0, k, body)
        return norm(tuple(self.v0) + (f,))
    def at(self, k, h):
        return mkbytes(self.rope(k), self.mutable)
    def holds(self, v, k1, h):
        r = rope_of(v) if isbytes(v) else v
        if not isinstance(r, tuple):
            return False
        # v must be rope(K) ++ delta(K)
        want = norm(self.rope(h.K) + sub_rope(self.delta, self.K, h.K))
        return sym.rope_key(norm(r)) == sym.rope_key(want) or sym.rope_must_eq(r, want)
    def demote(self):
        return Bytes(self.path, self.v0, self.mutable)


class Bytes(T):
    """unknown bytes"""
    def __init__(self, path, v0, mutable):
        self.path, self.v0, self.mutable = path, v0, mutable
    def at(self, k, h):
        c = ctx()
        n = c.fresh('hvbytes')
        v = sym.bvar(n, None, tuple(c.generic))
        return SymByteArray(rope_of(v)) if self.mutable else v
    def holds(self, v, k1, h):
        return isbytes(v) or isinstance(v, tuple)
    def demote(self):
        return Dead(self.path, self.v0)


class ListApp(T):
    """list: initial ++ [value(0), ..., value(k-1)]; alts: [(cond, value)]"""
    def __init__(self, path, v0, alts, K):
        self.path, self.v0, self.alts, self.K = path, v0, alts, K
    def elem(self, bound):
        alts, K, tag = self.alts, self.K, f'loop:{self.path}'

        def get(k):
            c = ctx()
            conds = [z3.substitute(cd, (K, nz(k))) for cd, _ in alts]
            c.assume(z3.Implies(z3.And(nz(k) >= 0, nz(k) < nz(bound)), z3.Or(conds)))
            if len(alts) == 1:
                return subst(alts[0][1], K, k)
            m = rt.merge([(cd, subst(v, K, k)) for cd, (_, v) in zip(conds, alts)])
            if m is not None:
                return m
            for cd, (_, v) in zip(conds, alts):
                if c.branch(cd):
                    return subst(v, K, k)
            raise PathEnd
        return get
    def at(self, k, h):
        return SList(list(self.v0) + [('s', k, self.elem(k), f'{h.lid}:{self.path[1:]}')])
    def holds(self, v, k1, h):
        # v: list of parts; one element appended to what was installed
        return isinstance(v, list) and len(appended(h.installed_parts(self.path), v) or ()) == 1
    def demote(self):
        return ListSome(self.path, self.v0, self.alts, self.K)


class ListSome(T):
    """list: initial ++ some of the values of some of the iterations"""
    def __init__(self, path, v0, alts, K):
        self.path, self.v0, self.alts, self.K = path, v0, alts, K
    def at(self, k, h):
        c = ctx()
        name = c.fresh('some')
        idx = tuple(c.generic)
        sel = z3.Function(name, *([z3.IntSort()] * (len(idx) + 2)))
        m = c.newint('nsome')
        c.assume(m >= 0)
        alts, K = self.alts, self.K

        def get(i):
            c = ctx()
            s = sel(*idx, nz(i))
            conds = [z3.substitute(cd, (K, s)) for cd, _ in alts]
            c.assume(z3.Implies(z3.And(nz(i) >= 0, nz(i) < m),
                                z3.And(s >= 0, s < nz(k), z3.Or(conds) if conds else z3.BoolVal(False))))
            if not alts:
                raise PathEnd
            if len(alts) == 1:
                return subst(alts[0][1], K, s)
            mg = rt.merge([(cd, subst(v, K, s)) for cd, (_, v) in zip(conds, alts)])
            if mg is not None:
                return mg
            for cd, (_, v) in zip(conds, alts):
                if c.branch(cd):
                    return subst(v, K, s)
            raise PathEnd
        return SList(list(self.v0) + [('s', m, get, name)])
    def holds(self, v, k1, h):
        return isinstance(v, list) and appended(h.installed_parts(self.path), v) is not None
    def demote(self):
        return Dead(self.path, self.v0)


def appended(old, new):
    """values appended to a list of parts, or None"""
    def flat(parts):
        out = []
        for p in parts:
            if p[0] == 'c':
                out.extend(('v', v) for v in p[1])
            else:
                out.append(('p', p))
        return out
    a, b = flat(old), flat(new)
    if len(b) < len(a):
        return None
    for x, y in zip(a, b):
        if x[0] != y[0]:
            return None
        if x[0] == 'v' and x[1] is not y[1]:
            return None
        if x[0] == 'p' and (str(x[1][1]), x[1][3]) != (str(y[1][1]), y[1][3]):
            return None
    rest = b[len(a):]
    if any(k == 'p' for k, _ in rest):
        return None
    return [v for _, v in rest]


class PosFold(T):
    """position of a stream: at the beginning of element k of a Fold"""
    def __init__(self, path, v0, rope, i):
        self.path, self.v0, self.rope, self.i = path, v0, rope, i
        self.fold = rope[i]
    def m(self):
        return simp(nz(self.fold.hi) - nz(self.fold.lo))
    def pos(self, k):
        f = self.fold
        e = simp(nz(f.lo) + nz(k))
        f.n   # facts
        return simp(nz(self.v0) + nz(f.total(e)) - nz(f.total(f.lo)))
    def at(self, k, h):
        # whether there is an element left is decided here
        c = ctx()
        f, m = self.fold, self.m()
        c.assume(z3.And(nz(k) >= 0, nz(k) <= nz(m)))
        if c.branch(nz(k) < nz(m)):
            e = simp(nz(f.lo) + nz(k))
            rope = self.rope[:self.i] + f.split(e) + self.rope[self.i + 1:]
            pre = f.like(f.lo, e)
            pre.n
        else:
            c.assume(nz(k) == nz(m))
            rope = self.rope
        h.set_rope(self.path, rope)
        p = self.pos(k)
        return p
    def holds(self, v, k1, h):
        c = ctx()
        f = self.fold
        return c.must(z3.And(nz(v) == nz(self.pos(k1)), nz(k1) <= nz(self.m())))
    def demote(self):
        return Pos(self.path, self.v0, self.rope)


class Pos(T):
    """position of a stream: between the initial one and its end; it stays below the limits that the stream holds
    and the integers in scope that bound it"""
    def __init__(self, path, v0, rope, names=None):
        self.path, self.v0, self.rope = path, v0, rope
        self.bounded = True
        self.names = names
        self.bad = set()

    def uppers(self, h, table):
        """{name: term} what may bound the position"""
        out = {}
        o = table[self.path][1]
        for k, v in vars(o).items():
            if k in ('_rope', '_pos'):
                continue
            if isinstance(v, list) and not (isinstance(v, VList) and v.sym is not None):
                for i, x in enumerate(list.__iter__(v)):
                    x = desym(x)
                    if isinstance(x, (int, SymInt)) and not isinstance(x, bool):
                        out[k, i] = nz(zi(x))
            elif isinstance(v, (int, SymInt)) and not isinstance(v, bool):
                out[k] = nz(zi(v))
        for p, loc in table.items():
            v = loc[0]
            if len(p) == 2 and p[0] == 'L' and isinstance(v, SymInt) and p not in h.info.templates:
                out[p] = nz(zi(v))
        return out

    def at(self, k, h):
        c = ctx()
        ups = self.uppers(h, h.entry)
        # asked again on every path: the decisions of a path are replayed in order
        base = [n for n, t in ups.items() if c.must(nz(self.v0) <= t)]
        if self.names is None:
            self.names = base
        t = c.newint('hvpos')
        c.assume(t >= nz(self.v0))
        if self.bounded:
            c.assume(t <= nz(rlen(self.rope)))
        for n in self.names:
            if n in ups:
                c.assume(t <= ups[n])
        return t

    def holds(self, v, k1, h):
        c = ctx()
        if not c.must(nz(v) >= nz(self.v0)):
            raise Unsupported('a stream moves backwards in a loop')
        ok = True
        if self.bounded and not c.must(nz(v) <= nz(rlen(self.rope))):
            self.bad.add('end')
            ok = False
        ups = self.uppers(h, h.entry)
        for n in self.names or []:
            if n not in ups or not c.must(nz(v) <= ups[n]):
                self.bad.add(n)
                ok = False
        return ok

    def demote(self):
        r = Pos(self.path, self.v0, self.rope, [n for n in self.names or [] if n not in self.bad])
        r.bounded = self.bounded and 'end' not in self.bad
        if r.names == self.names and r.bounded == self.bounded:
            return None
        return r


class EndPos(T):
    """position of a stream: at its end"""
    def at(self, k, h):
        return None
    def holds(self, v, k1, h):
        return ctx().must(nz(v) == nz(rlen(h.now[self.path[:-1] + ('rope',)][0])))
    def demote(self):
        return None


# ----------------------------------------------------------------------
# handles
# ----------------------------------------------------------------------

class Native:
    __slots__ = ('it',)
    def __init__(self, it=None):
        self.it = it
    def __iter__(self):
        return iter(self.it)
    def step(self): return True
    def guard(self, c): return c
    def has(self, n): return False
    def get(self, n): return None


NATIVE_WHILE = Native()


class Unroll:
    """A while loop, unrolled as long as few iterations fork."""
    def __init__(self, lid, names=()):
        self.lid = lid
        self.names = names
        self.over = {}
        self.it = 0
        self.forky = 0
        self.mark = None
    def step(self):
        c = core.C
        hook = c.ghost.get('while head')
        if hook is not None:
            # a contract on one iteration: it is told of each arrival at the head
            self.over = hook(self.lid, self.it, self.names) or {}
        if self.mark is not None and c.forks > self.mark:
            self.forky += 1
        self.mark = c.forks
        self.it += 1
        if self.forky > MAX_UNROLL_FORKS or self.it > MAX_UNROLL:
            if c.sub is not None:
                raise Unsupported('loop inside of an expression')
            raise NeedCut(self.lid)
        return True
    def guard(self, cond): return cond
    def has(self, n): return n in self.over
    def get(self, n): return self.over[n]


class Cut:
    def __init__(self, lid, kind, names, frame, seq=None):
        self.lid, self.kind, self.names, self.seq = lid, kind, names, seq
        self.frame = frame
        self.over = {}
        self.state = 0
        self.mode = None
        self.gen = bool(frame.f_code.co_flags & inspect.CO_GENERATOR) and kind == 'for'

    def has(self, n):
        return n in self.over
    def get(self, n):
        return self.over[n]

    def roots(self):
        r = dict(self.frame.f_locals)
        g = core.C.ghost.get('roots')
        if g:
            r.update(g)
        return r

    # -- installation ---------------------------------------------------
    def install(self, k):
        """put every modified location at its description after k iterations"""
        self.parts = {}
        self.over = {}
        late = []
        for path, t in self.info.templates.items():
            loc = self.entry.get(path)
            if isinstance(t, EndPos):
                late.append(path)
                continue
            if loc is None:
                # did not exist at the head
                if path[0] == 'L' and len(path) == 2:
                    self.over[path[1]] = t.at(k, self)
                elif isinstance(t, New):
                    owner = next((l[0] for p, l in self.entry.items() if p == path[:-1]), None)
                    if owner is None:
                        raise Unsupported(f'new location {path} in a loop')
                    if ctx().branch(nz(k) > 0):
                        object.__setattr__(owner, path[-1][1:], t.at(k, self))
                continue
            v = t.at(k, self)
            self.put(path, loc[1], loc[2], v)
        for path in late:
            o = self.entry[path][1]
            o._pos = rlen(o._rope)

    def put(self, path, container, key, v):
        if key == 'bytes':
            container.r = rope_of(v) if isbytes(v) else (() if isinstance(v, Poison) else v)
        elif key == 'rope':
            container._rope = rope_of(v) if isbytes(v) else v
        elif key == 'pos':
            container._pos = zi(v) if not isinstance(v, Poison) else v
        elif key == 'ipos':
            container.pos = zi(v)
        elif key == 'list':
            if isinstance(v, Poison):
                v = SList([('s', ctx().newint('hvlen'), lambda k: Poison('list'), 'poison')])
            list.clear(container)
            container.sym = v
            self.parts[path] = list(v.parts)
        elif key == 'dict':
            if not isinstance(container, rt.VDict):
                raise Unsupported('dictionary modified in a loop')
            if isinstance(v, Poison):
                v = SList([('s', ctx().newint('hvlen'), lambda k: Poison('dictionary'), 'poison')])
            dict.clear(container)
            ctx().tables.get('overlay', {}).pop(id(container), None)
            container.sym = rt.SDict(v, distinct=True)
            self.parts[path] = list(v.parts)
        elif key[0] == 'local':
            self.over[key[1]] = v
        elif key[0] == 'attr':
            object.__setattr__(container, key[1], v)

    def installed_parts(self, path):
        return self.parts.get(path, [])

    def set_rope(self, path, rope):
        self.entry[path][1]._rope = rope

    # -- the protocol -----------------------------------------------------
    def begin(self):
        """at the loop head: returns 'iter' or 'exit'"""
        c = core.C
        if c.sub is not None:
            raise Unsupported('loop inside of an expression')
        if c.depth_no_fork:
            raise Unsupported('loop where nothing can be forked')
        key = (self.lid, tuple(c.taken))
        self.entry = walk(self.roots())
        self.keep = walk.keep
        info = self.info = c.ex.loopinfo.get(key)
        disc = c.pos < len(c.prefix) and c.prefix[c.pos][0] == 'd'
        if info is None or (not info.ready and not disc):
            raise Discover(key)
        if info.failed:
            raise Unsupported(info.failed)
        n = self.seq.n if self.seq is not None else None
        info.tags = [] if self.seq is None else list(rt.tags_of(self.seq))
        self.n = n
        if disc:
            self.mode = 'disc'
            c.taken.append(c.prefix[c.pos])
            c.pos += 1
            c.discovery += 1
            c.disc_frame = self.frame
            info.fold_at = {p: self.fold_at(p) for p, v in self.entry.items() if v[2] == 'pos'}
            c.namespace.append(f'{info.uid}.{info.round}')
        elif self.kind == 'for' and not self.gen:
            self.mode = 'exit' if c.choose(2) else 'iter'
        else:
            self.mode = 'iter'
        if self.mode == 'exit':
            c.assume(nz(n) >= 0)
            self.assume_previous(n)
            self.install(n)
            if not c.feasible():
                raise PathEnd
            return 'exit'
        if disc:
            K = self.K = z3.Int(f'K~{info.uid}')
        else:
            K = self.K = c.newint('K')
        self.base = len(c.pc)
        c.assume(K >= 0)
        if n is not None:
            c.assume(K < nz(n))
        c.generic.append(K)
        if not disc:
            self.assume_previous(K)
        self.install(K)
        self.head = walk({**self.roots(), **self.over})
        if self.gen:
            c.ghost.setdefault('gen_generic', []).append((K, n))
            c.depth_no_fork += 1
        elif not disc and not c.feasible():
            raise PathEnd
        return 'iter'

    def fold_at(self, p):
        """index of the Fold that begins at a position"""
        rope = self.entry.get(p[:-1] + ('rope',))
        off = 0
        for i, s in enumerate(rope[0] if rope else ()):
            if isinstance(s, Fold) and core.C.must(nz(off) == nz(self.entry[p][0])):
                return i
            off = simp(off + s.n)
        return None

    def assume_previous(self, hi):
        """every earlier iteration took one of the paths that continue"""
        info = self.info
        if self.kind != 'for' or not info.use_forall:
            return
        c = core.C
        K = z3.Int(f'K~{info.uid}')
        conds = [cd for cd in info.conds]
        if not conds:
            c.assume(nz(hi) <= 0)
            return
        c.forall(K, nz(hi), z3.Or(conds), tags=info.tags)

    def back_edge(self):
        c = core.C
        info = self.info
        self.now = walk({**self.roots()})
        if self.mode == 'disc':
            cond = z3.And(c.pc[self.base:])
            rec = {}
            for path in set(self.now) | set(self.head):
                t = info.templates.get(path)
                hv = self.head.get(path, (MISSING,))[0]
                nv = self.now.get(path, (MISSING,))[0]
                if t is not None:
                    val = self.value_of(path, self.now)
                    ok = val is not MISSING and t.holds(val, simp(self.K + 1), self)
                    rec[path] = ('t', ok, hv, val)
                elif nv is MISSING:
                    continue
                elif hv is MISSING and not (len(path) == 2 and path[0] == 'L'):
                    # a location of an object that was created by the body
                    ups = [path[:i] + x for i in range(2, len(path)) for x in ((), ('list',), ('dict',))]
                    if not any(q in rec or q in info.templates or self.changed(q) for q in ups):
                        if path[-1].startswith('.') if isinstance(path[-1], str) else False:
                            rec[path] = ('n', None, hv, nv)
                            continue
                        raise Unsupported(f'new location {path} in a loop')
                elif not same(hv, nv):
                    rec[path] = ('n', None, hv, self.value_of(path, self.now))
            info.edges.append((cond, rec, dict(self.parts)))
            info.entry = self.entry
            info.entry_rope = {p: v[0] for p, v in self.entry.items() if p[-1] == 'rope'}
            info.head_vals = {p: v[0] for p, v in self.head.items()}
            raise PathEnd
        if self.kind == 'while' and c.ghost.get('termination'):
            self.progress()
        if self.gen:
            c.depth_no_fork -= 1
            c.ghost['gen_generic'].pop()
            c.generic.pop()
            self.install(self.n)
            return
        c.cover(f'loop {self.lid}')
        raise PathEnd

    def changed(self, path):
        hv = self.head.get(path, (MISSING,))[0]
        nv = self.now.get(path, (MISSING,))[0]
        return not same(hv, nv)

    def value_of(self, path, table):
        loc = table.get(path)
        if loc is None:
            return MISSING
        v, o, key = loc
        if key == 'list':
            return list(rt.parts_of(o))
        if key == 'dict':
            return rt.dict_pairs(o)
        return v

    def progress(self):
        """a quantity bounded by a constant strictly grows, or a natural number
        strictly decreases"""
        c = core.C
        ok = []
        for path, t in self.info.templates.items():
            hv = self.head.get(path, (None,))[0]
            nv = self.now.get(path, (None,))[0]
            if isinstance(t, (Pos, PosFold)):
                end = rlen(self.entry[path][1]._rope)
                ok.append(z3.And(nz(nv) > nz(hv), nz(hv) < nz(end)))
            elif isinstance(t, (Lin, Int)) and isinstance(hv, (int, SymInt)) and isinstance(nv, (int, SymInt)):
                a, b = nz(zi(hv)), nz(zi(nv))
                ok.append(z3.And(b < a, a > 0))
            elif path[-1] in ('bytes',):
                ok.append(nz(rlen(nv)) < nz(rlen(hv)))
            elif isbytes(hv) and isbytes(nv):
                ok.append(nz(rlen(rope_of(nv))) < nz(rlen(rope_of(hv))))
        fn = c.ghost['termination']
        c.prove(f'terminates[{self.lid}]', z3.Or(ok) if ok else False)

    # for
    def __iter__(self):
        m = self.begin()
        if m == 'exit':
            return
        yield self.seq.at(self.K)
        if self.mode == 'iter' and self.gen:
            self.back_edge()
            return
        self.back_edge()

    # while
    def step(self):
        if self.state == 0:
            self.state = 1
            self.begin()
            return True
        self.back_edge()
        raise PathEnd

    def guard(self, cond):
        self.over = {}
        return cond


def update(info, K):
    """New descriptions from the recorded back edges; True when inductive."""
    stable = True
    info.conds = [cd for cd, _, _ in info.edges]
    paths = []
    for _, rec, _ in info.edges:
        for p in rec:
            if p not in paths:
                paths.append(p)
    paths.sort(key=lambda p: (len(p), str(p)))
    for p in paths:
        recs = [(cd, rec[p], parts) for cd, rec, parts in info.edges if p in rec]
        t = info.templates.get(p)
        if t is not None:
            if isinstance(t, (ListApp, ListSome)):
                # refresh the appended values
                alts, counts = list_alts(info, p)
                if alts is None:
                    info.templates[p] = Dead(p, t.v0)
                    stable = False
                    continue
                old = [(str(c), _show(v)) for c, v in t.alts]
                new = [(str(c), _show(v)) for c, v in alts]
                t.alts = alts
                if isinstance(t, ListApp) and any(x != 1 for x in counts):
                    info.templates[p] = ListSome(p, t.v0, alts, K)
                    stable = False
                elif len(old) != len(new):
                    stable = False
                continue
            if isinstance(t, Append):
                r = recs[-1][1]
                if not r[1] and t.tries < 2:
                    d = suffix(r[2], r[3])
                    if d is not None:
                        t.delta = d
                        t.tries += 1
                        stable = False
                        continue
            if all(r[1] for _, r, _ in recs):
                continue
            stable = False
            nt = t.demote()
            if nt is None:
                raise Unsupported(f'cannot describe {p} in the loop {info.lid}')
            info.templates[p] = nt
            continue
        stable = False
        info.templates[p] = candidate(info, p, recs, K)
        info.templates[p].tags = info.tags
    return stable


def _show(v):
    try:
        return str(sym.sig(v))
    except BaseException:  # noqa: BLE001
        return type(v).__name__


def suffix(hv, nv):
    a = norm(rope_of(hv) if isbytes(hv) else hv)
    b = norm(rope_of(nv) if isbytes(nv) else nv)
    if len(b) < len(a):
        return None
    for i, s in enumerate(a):
        if sym.rope_key((s,)) != sym.rope_key((b[i],)):
            if i == len(a) - 1 and isinstance(s, sym.Lit) and isinstance(b[i], sym.Lit) \
                    and b[i].b.startswith(s.b):
                return norm((sym.Lit(b[i].b[len(s.b):]),) + b[i + 1:])
            return None
    return b[len(a):]


Append.tries = 0


def list_alts(info, p):
    alts, counts = [], []
    for cd, rec, parts in info.edges:
        if p in rec:
            new = rec[p][3]
            old = parts.get(p)
            if old is None:
                old = entry_parts(info, p)
            app = appended(old, new) if isinstance(new, list) else None
            if app is None:
                return None, None
            counts.append(len(app))
            alts.extend((cd, v) for v in app)
        else:
            counts.append(0)
    return alts, counts


def entry_parts(info, p):
    return info.entry_parts[p]


def candidate(info, p, recs, K):
    loc = info.entry.get(p)
    v0 = loc[0] if loc is not None else MISSING
    kind = loc[2] if loc is not None else ('local', p[-1])
    cd, (tag, _, hv, nv), _ = recs[0]
    if loc is None and len(p) > 2:
        same_ = len(recs) == len(info.edges) and len({str(r[3]) for _, r, _ in recs}) == 1
        return New(p, nv if same_ else None, K, None)
    if kind == 'list' or kind == 'dict' and isinstance(loc[1], rt.VDict):
        alts, counts = list_alts(info, p)
        if alts is None:
            return Dead(p, v0)
        cls = ListApp if all(x == 1 for x in counts) else ListSome
        return cls(p, entry_parts(info, p), alts, K)
    if kind == 'dict':
        raise Unsupported('dictionary modified in a loop')
    if kind == 'rope':
        ds = [suffix(r[2], r[3]) for _, r, _ in recs]
        if len(recs) == len(info.edges) and len(recs) == 1 and ds[0] is not None:
            return Append(p, v0, False, ds[0], K, False)
        if all(d is not None for d in ds):
            return Bytes(p, v0, False)
        raise Unsupported('stream overwritten in a loop')
    if kind == 'pos':
        rope = info.entry_rope[p[:-1] + ('rope',)]
        if any(p[:-1] + ('rope',) in rec for _, rec, _ in info.edges):
            return EndPos(p, v0)
        # a Fold begins at the initial position?
        i = info.fold_at.get(p)
        return Pos(p, v0, rope) if i is None else PosFold(p, v0, rope, i)
    if kind == 'ipos':
        d = simp(nz(nv) - nz(hv))
        return Lin(p, v0, d) if isinstance(d, int) else Int(p, v0, True, False)
    if kind == 'bytes' or (isbytes(v0) and all(isbytes(r[3]) for _, r, _ in recs)):
        mutable = kind == 'bytes' or isinstance(v0, (SymByteArray,))
        if kind != 'bytes' and isinstance(v0, SymByteArray) is False and isinstance(nv, SymByteArray):
            return Dead(p, v0)
        ds = [suffix(r[2], r[3]) for _, r, _ in recs]
        if len(recs) == len(info.edges) and ds[0] is not None and \
                len({sym.rope_key(d) if d is not None else None for d in ds}) == 1:
            return Append(p, rope_of(v0) if isbytes(v0) else v0, mutable, ds[0], K, kind != 'bytes')
        return Bytes(p, v0, mutable)
    if isinstance(v0, bool) and all(isinstance(r[3], (bool, SymBool)) for _, r, _ in recs):
        return Bool(p, v0)
    if isinstance(v0, (int, SymInt)) and not isinstance(v0, bool) \
            and all(isinstance(r[3], (int, SymInt)) for _, r, _ in recs):
        ds = {str(simp(nz(zi(r[3])) - nz(zi(r[2])))) for _, r, _ in recs}
        d = simp(nz(zi(nv)) - nz(zi(hv)))
        if len(ds) == 1 and isinstance(d, int) and len(recs) == len(info.edges):
            return Lin(p, v0, d)
        return Int(p, v0, True, True)
    return Dead(p, v0)


def run_discovery(ex, key):
    """Find the description of a loop."""
    lid, dec = key
    info = ex.loopinfo[key] = LoopInfo(lid)
    info.uid = f'{lid.rsplit(":", 1)[-1]}.{len(ex.loopinfo)}'
    K = z3.Int(f'K~{info.uid}')
    info.conds = []
    info.use_forall = True
    saved = ex.work
    try:
        for rnd in range(9):
            info.edges = []
            info.round = rnd
            ex.work = [list(dec) + [('d', rnd)]]
            while ex.work:
                ex.one(info)
                if info.failed:
                    break
            if info.failed:
                break
            info.entry_parts = {}
            if info.edges:
                for p, loc in info.entry.items():
                    if loc[2] in ('list', 'dict'):
                        info.entry_parts[p] = loc[3] if len(loc) > 3 else None
            try:
                if not info.edges:
                    break
                fix_entry_parts(info)
                if update(info, K):
                    break
            except Unsupported as e:
                info.failed = str(e)
                break
        else:
            info.failed = f'no inductive description of the loop {lid} was found'
    finally:
        ex.work = saved
    info.use_forall = not any(isinstance(t, (Pos, PosFold)) for t in info.templates.values())
    info.ready = True


def fix_entry_parts(info):
    for p, loc in info.entry.items():
        if loc[2] in ('list', 'dict'):
            info.entry_parts[p] = info.entry_list.get(p, [])


_orig_begin = Cut.begin


def _begin(self):
    r = None
    c = core.C
    # remember the parts of the lists before anything is installed
    pre = {}
    for p, loc in walk(self.roots()).items():
        if loc[2] == 'list':
            pre[p] = list(rt.parts_of(loc[1]))
            pre[p] = [('c', list(x[1])) if x[0] == 'c' else x for x in pre[p]]
        elif loc[2] == 'dict' and isinstance(loc[1], rt.VDict):
            pre[p] = rt.dict_pairs(loc[1])
    r = _orig_begin(self)
    self.info.entry_list = pre
    return r


Cut.begin = _begin


def loop(lid, kind, names, it=None):
    c = core.C
    if c is None:
        return Native(it) if kind == 'for' else NATIVE_WHILE
    frame = sys._getframe(1)
    if kind == 'while':
        if lid in c.ex.cuts:
            return Cut(lid, kind, names, frame)
        return Unroll(lid, names)
    it = desym(it)
    if isinstance(it, rt.SGen):
        it = rt.concat_parts(it.seq, it.fn)
    if isinstance(it, rt.SDict):
        it = it.keys()
    if isinstance(it, types.GeneratorType) and c.ghost.get('drain_generators'):
        it = desym(rt.drain(it))
    seq = rt.sequence(it)
    if seq is None:
        return Native(rt.native_iter(it))
    return Cut(lid, kind, names, frame, seq)


rt.Hooks.loop = staticmethod(loop)
