"""Runs the executable contracts of one property on the real code."""
import argparse
import ast
import hashlib
import importlib
import json
import os
import random
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.environ.get('SIOTLS_SRC', '/repo/src'), os.path.dirname(HERE)]
sys.dont_write_bytecode = True


class Fail(Exception):
    """the property does not hold; key identifies the failing input for the known findings"""
    def __init__(self, what, key=None):
        super().__init__(what)
        self.key = key


class Oracle:
    def __init__(self, tier, seed, seconds, models):
        self.tier, self.seed, self.models = tier, seed, models
        self.rng = random.Random(seed)
        self.t0 = time.time()
        self.end = self.t0 + seconds
        self.seconds = seconds
        self.ints = sorted(self.pool())

    def left(self):
        return self.end - time.time()

    def pool(self):
        """interesting integers: boundaries, literals of the source, solver models"""
        out = {0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 127, 128, 255, 256, 257, 511, 512, 1023, 1024,
               4095, 4096, 16383, 16384, 16385, 65534, 65535, 65536, 2 ** 24 - 1, 2 ** 24}
        src = os.environ.get('SIOTLS_SRC', '/repo/src')
        for d, _, fs in os.walk(src):
            for f in fs:
                if f.endswith('.py'):
                    try:
                        for n in ast.walk(ast.parse(open(os.path.join(d, f)).read())):
                            if isinstance(n, ast.Constant) and type(n.value) is int and 0 <= n.value < 2 ** 25:
                                out |= {n.value, n.value + 1, max(0, n.value - 1)}
                    except (SyntaxError, OSError):
                        pass
        for m in self.models:
            for v in m.get('model', {}).values():
                if isinstance(v, int) and 0 <= v < 2 ** 25:
                    out |= {v, v + 1, max(0, v - 1)}
        return out

    def small(self, hi):
        return [i for i in self.ints if i <= hi]

    def bytes(self, n):
        return self.rng.randbytes(n)


CASES = []


def case(gen, key=None):
    def deco(f):
        CASES.append((f.__name__, f, gen))
        return f
    return deco


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('mod')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--seconds', type=float, default=45)
    ap.add_argument('--models')
    ap.add_argument('--out')
    ap.add_argument('--replay')
    ap.add_argument('--only')
    a = ap.parse_args()
    sys.modules['oracle.run'] = sys.modules['__main__']
    models = json.load(open(a.models)) if a.models else []
    res = dict(cases={}, violations=[], errors=[], evaluations=0, distinct=0, samples=[])
    o = Oracle(a.tier, a.seed, a.seconds, models)
    try:
        importlib.import_module('oracle.' + a.mod)
    except BaseException:  # noqa: BLE001
        res['errors'].append('import: ' + traceback.format_exc()[-1500:])
        return finish(a, res)
    CASES[:] = [c for c in CASES if c[1].__module__ == 'oracle.' + a.mod]
    import logging
    logging.disable(logging.CRITICAL)
    seen = set()

    def one(name, f, args):
        res['evaluations'] += 1
        h = hashlib.blake2b((name + json.dumps(args, sort_keys=True, default=str)).encode(), digest_size=12).digest()
        if h not in seen:
            seen.add(h)
            res['distinct'] += 1
        res['cases'][name] = res['cases'].get(name, 0) + 1
        try:
            f(**args)
        except Fail as e:
            if len(res['violations']) < 40:
                res['violations'].append(dict(case=name, args=args, what=str(e), key=e.key))
            return False
        except MemoryError:
            raise
        except Exception:  # noqa: BLE001
            tb = traceback.format_exc()[-1200:]
            if len(res['errors']) < 20 and tb not in res['errors']:
                res['errors'].append(f'{name}({json.dumps(args, default=str)[:200]}): {tb}')
        return True

    if a.replay:
        r = json.load(open(a.replay))
        byname = {n: f for n, f, _ in CASES}
        for v in r.get('inputs', []):
            if v['case'] in byname:
                one(v['case'], byname[v['case']], v['args'])
        return finish(a, res)
    gens = []
    for n, f, g in CASES:
        if a.only and a.only not in n:
            continue
        try:
            gens.append((n, f, iter(g(o))))
        except Exception:  # noqa: BLE001
            res['errors'].append(f'{n}: {traceback.format_exc()[-600:]}')
    fails = {}
    while gens and o.left() > 0:
        for item in list(gens):
            n, f, g = item
            t = time.time()
            # a slice of time for each case in turn
            while time.time() - t < 0.25:
                try:
                    args = next(g)
                except StopIteration:
                    gens.remove(item)
                    break
                except Exception:  # noqa: BLE001
                    res['errors'].append(f'{n}: generator: {traceback.format_exc()[-600:]}')
                    gens.remove(item)
                    break
                if len(res['samples']) < 6 and res['cases'].get(n, 0) in (0, 7):
                    res['samples'].append(dict(case=n, args=json.loads(json.dumps(args, default=str)[:2000])
                                               if len(json.dumps(args, default=str)) < 2000 else '...'))
                if not one(n, f, args):
                    fails[n] = fails.get(n, 0) + 1
                    if fails[n] >= 4:
                        gens.remove(item)
                        break
    res['unfinished'] = [n for n, _, _ in gens]
    finish(a, res)


def finish(a, res):
    t = json.dumps(res, default=str)
    if a.out:
        with open(a.out, 'w') as f:
            f.write(t)
    else:
        print(json.dumps(res, indent=1, default=str)[:6000])


if __name__ == '__main__':
    main()
