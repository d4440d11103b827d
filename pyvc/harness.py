"""What the contract files (/verif/contracts) are written with."""
import importlib
import logging
import os
import pkgutil
import sys
import time
import types
import z3
from . import core, sym, rt, loops, instr
from .core import Unsupported, PathEnd, ctx
from .sym import (Sym, SymInt, SymBool, SymBytes, SymByteArray, SymStr, SymEnum, SList, Opaque, I, Fold, Lit,
                  Be, Sl, Rep, zi, zb, nz, simp, mkint, mkbool, mkbytes, rope_of, rlen, bvar, sint, senum,
                  sbool, intlist, slist, bapp, vapp, val_must_eq, isbytes, be)
from .rt import desym, VList, subst, SDict

class Task:
    def __init__(self, name, fn, **opts):
        self.name, self.fn, self.opts = name, fn, opts


def tasks_of(module):
    return module.TASKS


_STATE = {}


def load(extra=()):
    """import the whole of siotls, instrumented"""
    if 'mods' in _STATE:
        return
    instr.install()
    sys.setrecursionlimit(5000)
    logging.disable(logging.CRITICAL)
    import siotls
    for m in pkgutil.walk_packages(siotls.__path__, 'siotls.'):
        if m.name.endswith('__main__') or '.examples' in m.name:
            continue
        importlib.import_module(m.name)
    from . import models  # noqa: F401
    _STATE['mods'] = {n: m for n, m in sys.modules.items() if n == 'siotls' or n.startswith('siotls.')}
    snap = []
    for m in _STATE['mods'].values():
        for k, v in list(vars(m).items()):
            if isinstance(v, (dict, list, set)) and not k.startswith('__'):
                snap.append((v, _copy(v)))
            if isinstance(v, type) and v.__module__ == m.__name__:
                for k2, v2 in list(vars(v).items()):
                    if isinstance(v2, (dict, list, set)) and not k2.startswith('__') and k2 != '__annotations__' \
                            and not k2.startswith('_member') and not k2.startswith('_value2'):
                        snap.append((v2, _copy(v2)))
    _STATE['snap'] = snap
    core.START.append(restore)


def _copy(v):
    if isinstance(v, dict):
        return {k: (dict(x) if type(x) is dict else x) for k, x in v.items()}, \
            {k: x for k, x in v.items()}
    return v.copy(), None


def restore(c):
    for v, (cp, orig) in _STATE['snap']:
        if isinstance(v, dict):
            dict.clear(v)
            for k, x in cp.items():
                o = orig[k]
                if type(x) is dict and type(o) is dict:
                    o.clear()
                    o.update(x)
                v[k] = o
        elif isinstance(v, list):
            v[:] = cp
        else:
            v.clear()
            v.update(cp)


# -- specification helpers ---------------------------------------------------

def attempt(fn, *a, **k):
    """(value, None) or (None, exception)"""
    try:
        return fn(*a, **k), None
    except Exception as e:  # noqa: BLE001
        if core.engine_error(e):
            raise Unsupported(f'engine: {type(e).__name__}: {e}{core.where_(e)}') from e
        return None, e


def cond(x):
    return zb(x) if isinstance(x, (SymBool, bool)) else x


def prove(name, c, detail=None):
    return ctx().prove(name, cond(c), detail)


def fail(name, detail=None):
    return ctx().fail(name, detail)


def assume(c):
    cx = ctx()
    cx.assume(cond(c))
    if not cx.feasible():
        raise PathEnd


def branch(c):
    return ctx().branch(cond(c))


def cover(name):
    ctx().cover(name)


def choose(options):
    options = list(options)
    if len(options) == 1:
        return options[0]
    return options[ctx().choose(len(options))]


def T(x):
    """z3 term of an int-like"""
    return nz(zi(x))


def And(*a): return z3.And([cond(x) for x in a])
def Or(*a): return z3.Or([cond(x) for x in a])
def Not(a): return z3.Not(cond(a))
def Implies(a, b): return z3.Implies(cond(a), cond(b))


def blen(b):
    return rlen(rope_of(b))


def bslice(b, i, j):
    """b[i:j], 0 <= i <= j <= len(b) known"""
    return mkbytes(sym.slice_rope(rope_of(b), simp(nz(zi(i))), simp(nz(zi(j)))))


def beq(a, b):
    """condition for two byte strings to be equal"""
    if not isbytes(a) or not isbytes(b):
        return z3.BoolVal(False)
    r = sym.rope_eq(rope_of(a), rope_of(b))
    return z3.BoolVal(r) if isinstance(r, bool) else r


def concat(*parts):
    out = ()
    for p in parts:
        out += rope_of(p)
    return mkbytes(out)


def ube(x, n):
    """big-endian encoding, the value must be known to fit"""
    t = zi(x)
    if not isinstance(t, int):
        assert ctx().must(z3.And(t >= 0, t < I(256 ** n))), 'ube: value may not fit'
    return mkbytes((be(t, n),))


def exc_name(e):
    return type(e).__name__ if e is not None else 'no exception'


def ghost():
    return ctx().ghost


__all__ = [n for n in dir() if not n.startswith('__')]
