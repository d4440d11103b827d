"""Loads the siotls package from /repo's working tree, with every function body
mechanically rewritten so that calls, subscripts, membership tests,
comprehensions and loops go through the hooks of pyvc.rt.

The rewriting is purely syntactic and keeps the order of evaluation; on
concrete values every hook does exactly what Python does (see selftest).
Nothing else is dropped or changed: decorators, defaults, class bodies,
module level statements, operators, exceptions, generators and `with` run as
they are written, by CPython.
"""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

SRC = os.environ.get('SIOTLS_SRC', '/repo/src')
RAW_CALLS = {'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec'}
SHIMS = {}       # (module, global name) -> replacement object, set up by rt/models


class _Names(ast.NodeVisitor):
    """Names assigned in a block (not in nested functions)."""
    def __init__(self):
        self.names = []
    def add(self, n):
        if n not in self.names and not n.startswith('vc__'):
            self.names.append(n)
    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self.add(node.id)
    def visit_FunctionDef(self, node): self.add(node.name)
    def visit_ClassDef(self, node): self.add(node.name)
    def visit_Lambda(self, node): pass
    def visit_ListComp(self, node): self.walrus(node)
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
    def walrus(self, node):
        for n in ast.walk(node):
            if isinstance(n, ast.NamedExpr):
                self.add(n.target.id)
    def visit_Import(self, node):
        for a in node.names:
            self.add((a.asname or a.name).split('.')[0])
    visit_ImportFrom = visit_Import
    def visit_ExceptHandler(self, node):
        self.generic_visit(node)


def assigned(stmts):
    v = _Names()
    for s in stmts:
        v.visit(s)
    return v.names


def name(id_, ctx=None):
    return ast.Name(id_, ctx or ast.Load())


def hook(fn, *args, keywords=()):
    return ast.Call(ast.Attribute(name('vc__'), fn, ast.Load()), list(args), list(keywords))


def const(v):
    return ast.Constant(v)


class Transformer(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.depth = 0
        self.uid = 0
        self.scope = []
        self.loopn = [0]

    # -- functions ------------------------------------------------------
    def _function(self, node):
        # decorators, defaults and annotations stay as they are
        self.depth += 1
        self.scope.append(node.name)
        self.loopn.append(0)
        node.body = self._block(node.body)
        self.loopn.pop()
        self.scope.pop()
        self.depth -= 1
        return node
    visit_FunctionDef = _function

    def visit_AsyncFunctionDef(self, node):
        return node

    def visit_ClassDef(self, node):
        d, self.depth = self.depth, 0
        self.scope.append(node.name)
        node.body = self._block(node.body)
        self.scope.pop()
        self.depth = d
        return node

    def visit_Lambda(self, node):
        if not self.depth:
            return node
        node.body = self.visit(node.body)
        return node

    def _block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    # -- expressions ----------------------------------------------------
    def visit_Call(self, node):
        if not self.depth:
            return node
        f = node.func
        if isinstance(f, ast.Name) and f.id in RAW_CALLS:
            node.args = [self.visit(a) for a in node.args]
            return node
        args = [self.visit(a) for a in node.args]
        args = [ast.Starred(hook('star', a.value), ast.Load()) if isinstance(a, ast.Starred) else a
                for a in args]
        kws = [ast.keyword(k.arg, self.visit(k.value)) for k in node.keywords]
        if isinstance(f, ast.Attribute) and not (f.attr.startswith('__') and not f.attr.endswith('__')):
            return ast.Call(ast.Attribute(name('vc__'), 'callm', ast.Load()),
                            [self.visit(f.value), const(f.attr)] + args, kws)
        return ast.Call(ast.Attribute(name('vc__'), 'call', ast.Load()), [self.visit(f)] + args, kws)

    def visit_Subscript(self, node):
        if not self.depth:
            return node
        if isinstance(node.ctx, ast.Load):
            return hook('getitem', self.visit(node.value), self._index(node.slice))
        return self.generic_visit(node)

    def _index(self, s):
        if isinstance(s, ast.Slice):
            return ast.Call(name('slice'), [self.visit(x) if x is not None else const(None)
                                            for x in (s.lower, s.upper, s.step)], [])
        return self.visit(s)

    def visit_Compare(self, node):
        if not self.depth:
            return node
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            r = hook('contains', self.visit(node.left), self.visit(node.comparators[0]))
            return r if isinstance(node.ops[0], ast.In) else ast.UnaryOp(ast.Not(), r)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            r = hook('is_', self.visit(node.left), self.visit(node.comparators[0]))
            return r if isinstance(node.ops[0], ast.Is) else ast.UnaryOp(ast.Not(), r)
        return self.generic_visit(node)

    def visit_List(self, node):
        if not self.depth or not isinstance(node.ctx, ast.Load):
            return self.generic_visit(node)
        elts = [self.visit(e) for e in node.elts]
        elts = [ast.Starred(hook('star', e.value), ast.Load()) if isinstance(e, ast.Starred) else e
                for e in elts]
        return hook('mklist', ast.List(elts, ast.Load()))

    def visit_Tuple(self, node):
        if not self.depth or not isinstance(node.ctx, ast.Load):
            return self.generic_visit(node)
        node.elts = [self.visit(e) for e in node.elts]
        node.elts = [ast.Starred(hook('star', e.value), ast.Load()) if isinstance(e, ast.Starred)
                     else e for e in node.elts]
        return node

    def visit_Dict(self, node):
        if not self.depth or any(k is None for k in node.keys):
            return self.generic_visit(node)
        return hook('mkdict', ast.List([ast.Tuple([self.visit(k), self.visit(v)], ast.Load())
                                        for k, v in zip(node.keys, node.values)], ast.Load()))

    def visit_Set(self, node):
        if not self.depth or any(isinstance(e, ast.Starred) for e in node.elts):
            return self.generic_visit(node)
        return hook('mkset', ast.List([self.visit(e) for e in node.elts], ast.Load()))

    def _comp(self, node, kind, elt):
        if not self.depth or len(node.generators) != 1 or node.generators[0].is_async:
            return self._native_comp(node)
        g = node.generators[0]
        for n in ast.walk(node):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                return self._native_comp(node)
        it = self.visit(g.iter)
        body = self.visit(elt)
        for cond in reversed(g.ifs):
            body = ast.IfExp(self.visit(cond), body, ast.Attribute(name('vc__'), 'SKIP', ast.Load()))
        lam = self._lambda(g.target, body)
        if lam is None:
            return self._native_comp(node)
        return hook('comp', const(kind), it, lam)

    def _native_comp(self, node):
        # evaluated natively; inner calls still go through the hooks
        return self.generic_visit(node)

    def _lambda(self, target, body):
        def args(ns):
            return ast.arguments([], [ast.arg(n) for n in ns], None, [], [], None, [])
        if isinstance(target, ast.Name):
            return ast.Lambda(args([target.id]), body)
        if isinstance(target, ast.Tuple) and all(isinstance(e, ast.Name) for e in target.elts):
            ns = [e.id for e in target.elts]
            if len(set(ns)) != len(ns):
                return None
            return ast.Lambda(args(['vc__t']), ast.Call(
                ast.Lambda(args(ns), body),
                [ast.Starred(hook('unpack', name('vc__t'), const(len(ns))), ast.Load())], []))
        return None

    def visit_ListComp(self, node): return self._comp(node, 'list', node.elt)
    def visit_SetComp(self, node): return self._comp(node, 'set', node.elt)
    def visit_GeneratorExp(self, node): return self._comp(node, 'gen', node.elt)
    def visit_DictComp(self, node):
        return self._comp(node, 'dict', ast.Tuple([node.key, node.value], ast.Load()))

    def visit_Yield(self, node):
        self.generic_visit(node)
        return ast.Yield(hook('yielded', node.value if node.value is not None else const(None)))

    # -- statements -----------------------------------------------------
    def visit_Assign(self, node):
        if not self.depth:
            return self.generic_visit(node)
        node.value = self.visit(node.value)
        if len(node.targets) == 1:
            t = node.targets[0]
            if isinstance(t, ast.Subscript):
                return ast.Expr(hook('setitem', self.visit(t.value), self._index(t.slice), node.value))
            if isinstance(t, (ast.Tuple, ast.List)):
                star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
                node.value = hook('unpack', node.value, const(len(t.elts)),
                                  const(star[0] if star else None))
                if star:
                    # the runtime builds the list of the rest itself
                    t.elts[star[0]] = t.elts[star[0]].value
        node.targets = [self.visit(t) for t in node.targets]
        return node

    def visit_AugAssign(self, node):
        if self.depth and isinstance(node.target, ast.Subscript):
            self.uid += 1
            o, i = f'vc__o{self.uid}', f'vc__i{self.uid}'
            return [
                ast.Assign([name(o, ast.Store())], self.visit(node.target.value)),
                ast.Assign([name(i, ast.Store())], self._index(node.target.slice)),
                ast.Expr(hook('setitem', name(o), name(i), hook(
                    'aug', const(type(node.op).__name__), hook('getitem', name(o), name(i)),
                    self.visit(node.value)))),
            ]
        return self.generic_visit(node)

    def visit_Delete(self, node):
        if not self.depth:
            return node
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(hook('delitem', self.visit(t.value), self._index(t.slice))))
            else:
                out.append(ast.Delete([t]))
        return out

    def _loopid(self):
        self.loopn[-1] += 1
        return f'{self.mod}:{".".join(self.scope)}#{self.loopn[-1]}'

    def _overrides(self, h, names):
        return [ast.If(ast.Call(ast.Attribute(name(h), 'has', ast.Load()), [const(n)], []),
                       [ast.Assign([name(n, ast.Store())],
                                   ast.Call(ast.Attribute(name(h), 'get', ast.Load()), [const(n)], []))],
                       []) for n in names]

    def visit_For(self, node):
        if not self.depth:
            return self.generic_visit(node)
        self.uid += 1
        h = f'vc__h{self.uid}'
        lid = self._loopid()
        names = [n for n in assigned(node.body) ]
        tnames = assigned([ast.Assign([node.target], const(0))])
        it = self.visit(node.iter)
        body = self._block(node.body)
        orelse = self._block(node.orelse)
        target, pre = node.target, []
        if isinstance(target, (ast.Tuple, ast.List)) or isinstance(target, ast.Subscript):
            t = f'vc__t{self.uid}'
            pre = [self.visit_Assign(ast.Assign([target], name(t)))]
            if isinstance(pre[0], list):
                pre = pre[0]
            target = name(t, ast.Store())
        mk = ast.Assign([name(h, ast.Store())], hook(
            'loop', const(lid), const('for'), ast.Tuple([const(n) for n in names + tnames], ast.Load()), it))
        loop = ast.For(target, name(h), pre + self._overrides(h, names) + body,
                       self._overrides(h, list(dict.fromkeys(names + tnames))) + orelse)
        return [mk, loop]

    def visit_While(self, node):
        if not self.depth or node.orelse:
            return self.generic_visit(node)
        self.uid += 1
        h = f'vc__h{self.uid}'
        lid = self._loopid()
        names = list(dict.fromkeys(assigned(node.body) + assigned([ast.Expr(node.test)])))
        test = self.visit(node.test)
        body = self._block(node.body)
        mk = ast.Assign([name(h, ast.Store())], hook(
            'loop', const(lid), const('while'), ast.Tuple([const(n) for n in names], ast.Load())))
        head = self._overrides(h, names)
        if not (isinstance(node.test, ast.Constant) and node.test.value):
            head = head + [ast.If(ast.UnaryOp(ast.Not(), ast.Call(
                ast.Attribute(name(h), 'guard', ast.Load()), [test], [])), [ast.Break()], [])]
        loop = ast.While(ast.Call(ast.Attribute(name(h), 'step', ast.Load()), [], []), head + body, [])
        return [mk, loop]


def transform(source, filename, modname):
    tree = ast.parse(source, filename)
    tree = Transformer(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return tree


class Loader(importlib.abc.InspectLoader):
    def __init__(self, fullname, path, is_pkg):
        self.fullname, self.path, self.pkg = fullname, path, is_pkg

    def is_package(self, fullname):
        return self.pkg

    def get_source(self, fullname):
        with open(self.path, encoding='utf-8') as f:
            return f.read()

    def get_filename(self, fullname):
        return self.path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from . import rt
        src = self.get_source(self.fullname)
        tree = transform(src, self.path, self.fullname)
        code = compile(tree, self.path, 'exec', dont_inherit=True)
        module.__dict__['vc__'] = rt.HOOKS
        shims = {n: v for (m, n), v in SHIMS.items() if m in (self.fullname, '*')}
        with rt.shimmed(self.fullname):
            exec(code, module.__dict__)
        LOADED[self.fullname] = self.path


LOADED = {}


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname.startswith('spec.'):
            # drivers of /verif that need loops cut by invariants
            base = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), *fullname.split('.'))
        elif fullname != 'siotls' and not fullname.startswith('siotls.'):
            return None
        else:
            base = os.path.join(SRC, *fullname.split('.'))
        if os.path.isfile(os.path.join(base, '__init__.py')):
            p, pkg = os.path.join(base, '__init__.py'), True
        elif os.path.isfile(base + '.py'):
            p, pkg = base + '.py', False
        elif os.path.isdir(base):
            spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        else:
            return None
        loader = Loader(fullname, p, pkg)
        spec = importlib.util.spec_from_file_location(
            fullname, p, loader=loader,
            submodule_search_locations=[os.path.dirname(p)] if pkg else None)
        return spec


def install():
    sys.dont_write_bytecode = True
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())
    if '/opt/venv/lib/python3.12/site-packages' not in sys.path:
        sys.path.append('/opt/venv/lib/python3.12/site-packages')
