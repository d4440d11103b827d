"""pyvc core: path contexts, the solver interface and the path explorer.

A *task* is a Python callable executed by CPython over the instrumented code of
/repo with symbolic arguments.  Each time control flow depends on a symbolic
condition, `branch` asks z3 which outcomes are feasible under the path
condition and the explorer re-executes the task once per feasible outcome.
Obligations (`prove`) are sent to z3 (and, on request, re-discharged by cvc5).
"""
import sys
import time
import z3


def _text(t):
    """the whole term: the printer of z3.py is slow and abbreviates what is large"""
    if isinstance(t, z3.FuncDeclRef):
        return t.name()
    if isinstance(t, z3.ExprRef) and z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return t.decl().name()
    return z3.Z3_ast_to_string(t.ctx_ref(), t.as_ast())


z3.AstRef.__str__ = z3.AstRef.__repr__ = _text

z3.set_param('model.compact', True)


class Unsupported(BaseException):
    """The code uses something the generator has no semantics for: undecided."""


class PathEnd(BaseException):
    """The current path is infeasible or was cut at a loop back edge."""


class NeedCut(BaseException):
    """A loop was not exhausted by unrolling, it must be cut by an invariant."""
    def __init__(self, loop_id):
        self.loop_id = loop_id


class Budget(BaseException):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0


C = None            # the current path context
QUERY_MS = 8000


class Ctx:
    def __init__(self, ex, prefix):
        self.ex = ex
        self.prefix = prefix
        self.taken = []
        self.pos = 0
        self.solver = z3.Solver()
        self.solver.set('timeout', ex.query_ms)
        self.counter = {}
        self.tables = {}     # interning tables, per path
        self.atoms = {}
        self.ghost = {}      # ghost state for the harness
        self.trace = []
        self.pc = []
        self.depth_no_fork = 0
        self.loops = {}
        self.named = {}      # symbolic inputs, for counterexamples

        self.generic = []    # indices of the generic iterations being executed
        self.discovery = 0   # >0: obligations are not evaluated, only loop facts
        self.sub = None      # work list of a nested exploration
        self.forks = 0       # real forks so far on this path
        self.nforall = 0
        self.namespace = []  # of fresh names, inside of a discovery

    # -- naming -------------------------------------------------------
    def newint(self, name):
        """A fresh integer; a function of the generic indices in scope."""
        n = self.fresh(name)
        if self.generic:
            return z3.Function(n, *([z3.IntSort()] * (len(self.generic) + 1)))(*self.generic)
        return z3.Int(n)

    def newbool(self, name):
        n = self.fresh(name)
        if self.generic:
            return z3.Function(n, *([z3.IntSort()] * len(self.generic)), z3.BoolSort())(*self.generic)
        return z3.Bool(n)

    def sub_explore(self, fn):
        """All outcomes of fn() under the current path condition, without
        committing to any: [(condition, 'ret'|'exc', value)].  Nothing of what
        is assumed or interned meanwhile survives."""
        saved = (self.prefix, self.pos, self.taken, self.sub)
        tabs = {k: (v.copy() if hasattr(v, 'copy') else v) for k, v in self.tables.items()}
        counter = dict(self.counter)
        base = len(self.pc)
        work, results = [[]], []
        try:
            while work:
                if len(results) > 200:
                    raise Unsupported('too many outcomes of an expression')
                self.prefix, self.pos, self.taken, self.sub = work.pop(), 0, [], work
                self.tables = {k: (v.copy() if hasattr(v, 'copy') else v) for k, v in tabs.items()}
                # fresh names keep growing: outcomes never share them by accident
                self.solver.push()
                try:
                    try:
                        out = ('ret', fn())
                    except PathEnd:
                        out = None
                    except Exception as e:  # noqa: BLE001
                        out = ('exc', e)
                    cond = z3.And(self.pc[base:]) if len(self.pc) > base else z3.BoolVal(True)
                finally:
                    self.solver.pop()
                    del self.pc[base:]
                if out is not None:
                    results.append((cond, *out))
        finally:
            self.prefix, self.pos, self.taken, self.sub = saved
            self.tables = tabs
        return results

    def nofork(self):
        """one description of all the outcomes is wanted: an expression, or a generator that is drained"""
        return self.sub is not None or self.depth_no_fork > 0

    # -- naming (continued) -------------------------------------------
    def fresh(self, name):
        if self.namespace:
            name = f'{name}~{self.namespace[-1]}'
        n = self.counter.get(name, 0)
        self.counter[name] = n + 1
        return name if n == 0 else f'{name}!{n}'

    # -- solver -------------------------------------------------------
    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            cond = z3.BoolVal(False)
        self.pc.append(cond)
        self.solver.add(cond)

    def forall(self, K, hi, cond, tags=(), pattern=None):
        """cond (over K) holds for every 0 <= K < hi.  The solver is not told:
        it is instantiated when an element of a list with one of these tags is
        looked at, and all of it is used as a last resort by prove."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        self.nforall += 1
        f = (K, hi, cond, pattern, self.nforall)
        self.tables.setdefault('foralls', []).append(f)
        facts = self.tables.setdefault('facts', {})
        for t in tags:
            facts[t] = facts.get(t, ()) + (f,)
            for i in self.tables.get('looked', {}).get(t, ()):
                self.instance(f, i)

    def instance(self, f, i):
        K, hi, cond, _, uid = f
        i = z3.IntVal(i) if isinstance(i, int) else i
        done = self.tables.setdefault('instances', set())
        key = (uid, str(i))
        if key not in done:
            done.add(key)
            self.assume(z3.Implies(z3.And(i >= 0, i < hi), z3.substitute(cond, (K, i))))

    def looked(self, tag, i):
        lk = self.tables.setdefault('looked', {})
        lk[tag] = lk.get(tag, ()) + (i,)
        for f in self.tables.get('facts', {}).get(tag, ()):
            self.instance(f, i)

    def last_resort(self, goal):
        """(result, model) of the path condition and goal with every universal fact"""
        fs = self.tables.get('foralls')
        if not fs:
            return None
        from .sym import constants
        try:
            idx = [t for t in constants([*self.pc, goal]) if t.sort() == z3.IntSort()]
        except Unsupported:
            idx = []
        idx = idx[:80] + list(self.generic)
        inst = []
        for K, hi, cond, _, _ in fs:
            for i in idx:
                inst.append(z3.Implies(z3.And(i >= 0, i < hi), z3.substitute(cond, (K, i))))
        r, m = self.check(*inst, goal)
        if r == z3.unsat:
            return r, m
        j = z3.Int('j')
        qs = []
        for K, hi, cond, pat, _ in fs:
            body = z3.Implies(z3.And(j >= 0, j < hi), z3.substitute(cond, (K, j)))
            qs.append(z3.ForAll([j], body, patterns=[z3.substitute(pat, (K, j))]) if pat is not None
                      else z3.ForAll([j], body))
        r2, m2 = self.check(*inst, *qs, goal)
        if r2 == z3.unknown and r == z3.sat:
            return z3.unknown, m
        return r2, m2

    def check(self, *conds):
        st = self.ex.stats
        st.queries += 1
        t = time.time()
        self.solver.push()
        try:
            self.solver.add(*conds)
            r = self.solver.check()
            model = self.solver.model() if r == z3.sat else None
        finally:
            self.solver.pop()
        st.solver_s += time.time() - t
        if self.ex.deadline and time.time() > self.ex.deadline:
            raise Budget
        return r, model

    def record(self, kind, fn):
        """Replay a recorded decision, or compute and record it."""
        if self.pos < len(self.prefix):
            k, d = self.prefix[self.pos]
            if k != kind:
                raise Unsupported(f'non deterministic re-execution: {k} vs {kind}')
        else:
            d = fn()
        self.pos += 1
        self.taken.append((kind, d))
        return d

    def push(self, prefix):
        if self.sub is not None:
            self.sub.append(list(prefix))
        else:
            self.ex.push(prefix)

    def branch(self, cond):
        """Fork on cond (a z3 Bool or a Python bool)."""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.depth_no_fork:
            if self.must(cond):
                return True
            if self.must(z3.Not(cond)):
                return False
            raise NoFork

        def compute():
            t, _ = self.check(cond)
            if t == z3.unsat:
                return False
            f, _ = self.check(z3.Not(cond))
            if f == z3.unsat:
                return True
            self.push(self.taken + [('b', 2)])
            return 3
        d = self.record('b', compute)
        if not isinstance(d, bool):
            self.forks += 1
            d = d == 3
        self.assume(cond if d else z3.Not(cond))
        return d

    def choose(self, n):
        """Nondeterministic choice among n alternatives (all are explored)."""
        def compute():
            for i in range(n - 1, 0, -1):
                self.push(self.taken + [('c', i)])
            return 0
        return self.record('c', compute)

    def must(self, cond):
        """True when the path condition entails cond (never forks)."""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        return self.record('m', lambda: self.check(z3.Not(cond))[0] == z3.unsat)

    def feasible(self):
        return self.record('f', lambda: self.check()[0] != z3.unsat)

    # -- obligations --------------------------------------------------
    def prove(self, name, cond, detail=None):
        """Emit the obligation PC => cond."""
        if self.discovery:
            # the body of a loop is being described: obligations are for later
            self.end_discovery()
            return True
        if self.sub is not None:
            raise Unsupported('obligation inside of an expression')
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)

        def compute():
            t = time.time()
            simp = z3.simplify(cond)
            backend = 'z3'
            if z3.is_true(simp):
                st, model = 'discharged', None
                backend = 'simplifier'
            else:
                r, m = self.check(z3.Not(cond))
                if r != z3.unsat:
                    r, m = self.last_resort(z3.Not(cond)) or (r, m)
                st = {'unsat': 'discharged', 'sat': 'refuted'}.get(str(r), 'unknown')
                model = self.extract(m) if m is not None else None
                if st == 'discharged' and self.ex.second is not None:
                    if self.ex.second(self, name, cond) == 'sat':
                        # the two back ends disagree: nothing is proved
                        st = 'unknown'
            self.ex.obligation(name, st, backend, time.time() - t, model,
                               detail() if callable(detail) else detail, self)
            return st
        st = self.record('p', compute)
        if st != 'discharged':
            # continue as if it held; if it cannot, the path ends here
            self.assume(cond)
            if not self.feasible():
                raise PathEnd
        else:
            self.assume(cond)
        return st == 'discharged'

    def end_discovery(self):
        """the path ends when it has left the function of the loop that is described"""
        if self.disc_frame is None:
            raise PathEnd
        f = sys._getframe(1)
        while f is not None:
            if f is self.disc_frame:
                return
            f = f.f_back
        raise PathEnd

    disc_frame = None

    def fail(self, name, detail=None):
        return self.prove(name, False, detail)

    def cover(self, name):
        """Reachability witness: the path up to here must be satisfiable."""
        if self.discovery:
            self.end_discovery()
            return
        def compute():
            r, _ = self.check()
            if r == z3.sat:
                self.ex.covered.add(name)
            return True
        self.ex.covers.add(name)
        if name not in self.ex.covered:
            self.record('v', compute)
        else:
            self.record('v', lambda: True)

    def extract(self, model):
        out = {}
        for name, term in self.named.items():
            try:
                v = model.eval(term, model_completion=True)
                if z3.is_int_value(v):
                    out[name] = v.as_long()
                else:
                    out[name] = str(v)
            except Exception:  # noqa
                pass
        for d in model.decls():
            if d.arity() == 0 and d.name() not in out:
                v = model[d]
                if z3.is_int_value(v) and len(out) < 200:
                    out[d.name()] = v.as_long()
        return out


class NoFork(BaseException):
    pass


class Explorer:
    """Runs one task over all of its feasible paths."""
    def __init__(self, name, max_paths=4000, query_ms=QUERY_MS, deadline=None, second=None):
        self.name = name
        self.stats = Stats()
        self.work = []
        self.query_ms = query_ms
        self.deadline = deadline
        self.second = second
        self.max_paths = max_paths
        self.cuts = set()      # loop ids to cut
        self.loopinfo = {}     # (loop id, decisions before it) -> what is known of it
        self.reset()

    def reset(self):
        self.work = [[]]
        self.obligations = {}
        self.covers = set()
        self.covered = set()
        self.unsupported = []

    def push(self, prefix):
        self.work.append(list(prefix))

    def obligation(self, name, status, backend, secs, model, detail, ctx):
        o = self.obligations.setdefault(name, dict(
            name=name, status='discharged', instances=0, z3=0, simplifier=0, solver_s=0.0,
            model=None, detail=None))
        o['instances'] += 1
        o[backend] = o.get(backend, 0) + 1
        o['solver_s'] += secs
        rank = ['discharged', 'unknown', 'refuted']
        if rank.index(status) > rank.index(o['status']):
            o['status'] = status
            o['model'] = model
            o['detail'] = detail
            o['trace'] = list(ctx.trace[-40:])

    def one(self, disc=None):
        """Run one path."""
        global C
        from . import loops
        prefix = self.work.pop()
        mark = len(self.work)
        self.stats.paths += 1
        if self.stats.paths > self.max_paths:
            raise Budget(f'more than {self.max_paths} paths')
        C = Ctx(self, prefix)
        again = None
        try:
            for f in START:
                f(C)
            try:
                self.fn()
            except PathEnd:
                pass
            except Exception as e:  # noqa: BLE001
                if engine_error(e):
                    raise Unsupported(f'engine: {type(e).__name__}: {e} {where_(e)}') from e
                if disc is None:
                    raise
        except loops.Discover as d:
            again = d.key
        except NoFork:
            self.note('undecided comparison where nothing can be forked', disc)
        except Unsupported as e:
            self.note(str(e) + where_(e), disc)
        except RecursionError:
            self.note('recursion too deep', disc)
        finally:
            C = None
        if again is not None:
            del self.work[mark:]
            if again in self.loopinfo:
                raise Unsupported(f'loop {again[0]} is not stable')
            loops.run_discovery(self, again)
            self.work.append(prefix)

    def note(self, why, disc):
        if disc is not None:
            disc.failed = why
        else:
            self.unsupported.append(why)

    def run(self, fn):
        self.fn = fn
        restarts = 0
        while True:
            self.reset()
            try:
                while self.work and len(self.unsupported) < 6:
                    self.one()
                break
            except NeedCut as nc:
                restarts += 1
                self.cuts.add(nc.loop_id)
                self.loopinfo.clear()
                if restarts > 60:
                    self.unsupported.append('too many loop refinements')
                    break
            except Budget as e:
                self.unsupported.append(str(e) or 'time budget exhausted')
                break
            except Unsupported as e:
                self.unsupported.append(str(e))
                break
        return self


START = []      # called with each new path context


def where_(e):
    import traceback
    for f in reversed(traceback.extract_tb(e.__traceback__)):
        if '/siotls/' in f.filename or '/contracts/' in f.filename:
            return f' at {f.filename}:{f.lineno}'
    return ''


def engine_error(e):
    """an exception raised by a mistake of the machinery, not by the code"""
    if isinstance(e, z3.Z3Exception):
        return True
    if not isinstance(e, (AttributeError, TypeError, KeyError, IndexError, NameError, AssertionError,
                          ValueError, RecursionError)):
        return False
    if isinstance(e, TypeError) and str(e).startswith('object.__init__() takes exactly one argument'):
        return False  # the code gives arguments to the constructor of object
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    if tb is None:
        return False
    import linecache
    fn = tb.tb_frame.f_code.co_filename
    if '/pyvc/' not in fn and '/contracts/' not in fn:
        return False
    line = linecache.getline(fn, tb.tb_lineno)
    return not line.strip().startswith('raise ')


def ctx():
    if C is None:
        raise Unsupported('symbolic operation outside of a task')
    return C
