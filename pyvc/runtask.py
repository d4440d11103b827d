"""python -m pyvc.runtask MODULE [TASK...]: run contract tasks, for development."""
import importlib
import sys
import time
import traceback

sys.path[:0] = ['/verif']


def run_task(t, **kw):
    from . import core
    kw = {**{k: v for k, v in t.opts.items() if k in ('max_paths', 'query_ms')}, **kw}
    ex = core.Explorer(t.name, **kw)
    err = None
    try:
        ex.run(t.fn)
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, KeyboardInterrupt):
            raise
        err = ''.join(traceback.format_exception(e)[-12:])
    return ex, err


def main():
    from . import harness
    harness.load()
    mod = importlib.import_module('contracts.' + sys.argv[1])
    names = sys.argv[2:]
    tasks = mod.TASKS
    if names[:1] == ['--index']:
        tasks, names = [mod.TASKS[int(names[1])]], []
    for t in tasks:
        if names and not any(n in t.name for n in names):
            continue
        t0 = time.time()
        ex, err = run_task(t, deadline=time.time() + float(__import__("os").environ.get("TASK_S", "300")))
        bad = [o for o in ex.obligations.values() if o['status'] != 'discharged']
        print(f'{t.name}: {len(ex.obligations)} obligations, {len(bad)} not discharged, '
              f'{ex.stats.paths} paths, {ex.stats.queries} queries, {time.time() - t0:.1f}s, '
              f'cuts {sorted(ex.cuts)}' if ex.cuts else
              f'{t.name}: {len(ex.obligations)} obligations, {len(bad)} not discharged, '
              f'{ex.stats.paths} paths, {ex.stats.queries} queries, {time.time() - t0:.1f}s', flush=True)
        for o in bad:
            print('   ', o['status'], o['name'], o['detail'] or '', {k: v for k, v in (o['model'] or {}).items() if isinstance(v, int) and abs(v) < 2 ** 70})
        for u in sorted(set(ex.unsupported)):
            print('    UNSUPPORTED', u)
        miss = ex.covers - ex.covered
        if miss:
            print('    NOT COVERED', miss)
        if err:
            print(err)


if __name__ == '__main__':
    main()
