"""Runs the contract tasks of one property in parallel processes.

python -m pyvc.worker MODULE OUT.json --deadline SECONDS [--second]"""
import importlib
import json
import os
import select
import sys
import time
import traceback

sys.path[:0] = ['/verif']
sys.dont_write_bytecode = True


class Functions:
    """the functions of /repo executed under contract"""
    def __init__(self):
        self.seen = set()
        m = sys.monitoring
        self.m = m
        m.use_tool_id(4, 'pyvc')
        m.register_callback(4, m.events.PY_START, self.start)
        m.set_events(4, m.events.PY_START)
    def start(self, code, off):
        if '/siotls/' in code.co_filename:
            n = code.co_qualname
            if not n.startswith('<') and '<lambda>' not in n and '<listcomp>' not in n:
                self.seen.add(code.co_filename.split('/siotls/')[-1][:-3].replace('/', '.') + ':' + n)
        return self.m.DISABLE


def run_one(name, modname, deadline, second):
    from . import core
    mod = importlib.import_module('contracts.' + modname)
    t = next(t for t in mod.TASKS if t.name == name)
    t0 = time.time()
    fx = Functions()
    out = dict(task=name, opts={k: v for k, v in t.opts.items() if isinstance(v, (str, int, bool))})
    sec = None
    if second:
        from . import second as s
        sec = s.Second()
    ex = core.Explorer(name, deadline=min(deadline, time.time() + t.opts.get('seconds', 400)),
                       second=sec, **{k: v for k, v in t.opts.items() if k in ('max_paths', 'query_ms')})
    try:
        ex.run(t.fn)
    except BaseException as e:  # noqa: BLE001
        # an exception of the code that the contract does not expect, or of the machinery
        out['crash'] = ''.join(traceback.format_exception(e)[-6:])[-3000:]
    obls = []
    for o in ex.obligations.values():
        obls.append({k: o.get(k) for k in ('name', 'status', 'instances', 'z3', 'simplifier', 'solver_s', 'model', 'detail')})
    out.update(obligations=obls, unsupported=sorted(set(map(str, ex.unsupported)))[:8],
               uncovered=sorted(ex.covers - ex.covered), paths=ex.stats.paths, queries=ex.stats.queries,
               solver_s=round(ex.stats.solver_s, 2), wall_s=round(time.time() - t0, 2), cuts=sorted(ex.cuts),
               functions=sorted(fx.seen), second=sec.report() if sec else None)
    return out


def empty(name, why, wall=0):
    return dict(task=name, obligations=[], unsupported=[why], uncovered=[], paths=0, queries=0, solver_s=0,
                wall_s=wall, cuts=[], functions=[], second=None, opts={})


def start(name, modname, deadline, second):
    """each task in a process of its own: no solver state is shared"""
    r, w = os.pipe()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r
    try:
        os.close(r)
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        try:
            res = run_one(name, modname, deadline, second)
        except BaseException as e:  # noqa: BLE001
            res = empty(name, f'worker: {e!r}')
        with os.fdopen(w, 'wb') as f:
            f.write(json.dumps(res, default=str).encode())
    finally:
        os._exit(0)


def run_all(names, modname, deadline, second):
    todo, running, done = list(names), {}, {}
    n = int(os.environ.get('VERIF_JOBS', '8'))
    while todo or running:
        while todo and len(running) < n:
            name = todo.pop(0)
            pid, fd = start(name, modname, deadline, second)
            running[fd] = [name, pid, b'', time.time()]
        ready, _, _ = select.select(list(running), [], [], 1)
        for fd in ready:
            data = os.read(fd, 1 << 20)
            if data:
                running[fd][2] += data
                continue
            name, pid, buf, t0 = running.pop(fd)
            os.close(fd)
            os.waitpid(pid, 0)
            try:
                done[name] = json.loads(buf)
            except ValueError:
                done[name] = empty(name, 'the worker died', time.time() - t0)
        if time.time() > deadline + 20:
            for fd, (name, pid, _, t0) in running.items():
                os.kill(pid, 9)
                os.waitpid(pid, 0)
                done[name] = empty(name, 'out of time', time.time() - t0)
            for name in todo:
                done[name] = empty(name, 'not run')
            break
    return done


def main():
    modname, out = sys.argv[1:3]
    deadline = time.time() + float(sys.argv[sys.argv.index('--deadline') + 1])
    second = '--second' in sys.argv
    res = dict(error=None, tasks=[])
    try:
        from . import harness
        harness.load()
        mod = importlib.import_module('contracts.' + modname)
    except BaseException:  # noqa: BLE001
        res['error'] = traceback.format_exc()[-4000:]
        json.dump(res, open(out, 'w'))
        return
    tier = 'thorough' if second else 'quick'
    tasks = sorted([t for t in mod.TASKS if t.opts.get('tier', tier) == tier], key=lambda t: -t.opts.get('cost', 1))
    done = run_all([t.name for t in tasks], modname, deadline, second)
    res['tasks'] = [done[t.name] for t in tasks]
    json.dump(res, open(out, 'w'))


if __name__ == '__main__':
    main()
