#!/usr/bin/env python3
"""Decides one property: check.py ID [--tier quick|thorough] [--replay FILE]

1. generates the obligations of contracts/<id>.py from the current source of
   /repo and discharges them (python3-vt -m pyvc.worker);
2. runs the executable form of the same contracts on the real, uninstrumented
   code (/opt/venv/bin/python oracle/run.py), on boundary values, on the values
   of the solver's counterexamples and on values drawn from VERIF_SEED;
3. exit 0, or 1 with a VIOLATION line."""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VT = 'python3-vt'
PY = '/opt/venv/bin/python'


def env():
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    e.pop('SSLKEYLOGFILE', None)
    return e


def load_known():
    out = {}
    path = os.path.join(HERE, 'known_findings.json')
    for k in json.load(open(path))['findings']:
        out.setdefault(k['property'], []).append(k)
    return out


def is_known(pid, v):
    return any(k.get('key') == v.get('key') for k in load_known().get(pid, []))


def second_of(tasks):
    """what cvc5 said of the obligations that z3 discharged (thorough tier)"""
    l = [t['second'] for t in tasks if t.get('second')]
    if not l:
        return None
    out = {k: round(sum(x[k] for x in l), 1) for k in ('unsat', 'unknown', 'sat', 'error', 'skipped', 'seconds')}
    return dict(out, disagreements=[d for x in l for d in x['disagreements']][:20], errors=[e for x in l for e in x['errors']][:5])


def run_worker(mod, deadline, second, scratch):
    out = os.path.join(scratch, f'{mod}.proof.json')
    cmd = [VT, '-m', 'pyvc.worker', mod, out, '--deadline', str(deadline)]
    if second:
        cmd.append('--second')
    p = subprocess.Popen(cmd, cwd=HERE, env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
                         start_new_session=True)
    return p, out


def run_oracle(mod, tier, seed, seconds, models, scratch, replay=None):
    out = os.path.join(scratch, f'{mod}.oracle.json')
    mp = os.path.join(scratch, f'{mod}.models.json')
    json.dump(models, open(mp, 'w'))
    cmd = [PY, os.path.join(HERE, 'oracle', 'run.py'), mod, '--tier', tier, '--seed', str(seed),
           '--seconds', str(seconds), '--models', mp, '--out', out]
    if replay:
        cmd += ['--replay', replay]
    try:
        r = subprocess.run(cmd, cwd=scratch, env=env(), capture_output=True, text=True, timeout=seconds * 2 + 120,
                           stdin=subprocess.DEVNULL)
        return json.load(open(out))
    except (subprocess.TimeoutExpired, OSError, ValueError) as e:
        err = getattr(e, 'stderr', None) or (r.stderr[-1500:] if 'r' in locals() else '')
        return dict(cases={}, violations=[], errors=[f'oracle did not finish: {type(e).__name__} {err}'],
                    evaluations=0, distinct=0, samples=[])


def main():
    import tempfile
    pid = sys.argv[1]
    mod = pid.lower()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    with tempfile.TemporaryDirectory(prefix='verif-') as scratch:
        if '--replay' in sys.argv:
            f = sys.argv[sys.argv.index('--replay') + 1]
            o = run_oracle(mod, tier, seed, 60, [], scratch, os.path.abspath(f))
            print(json.dumps(o, indent=1))
            sys.exit(1 if o['violations'] else 0)
        code = decide(pid, mod, tier, seed, t0, scratch)
    sys.exit(code)


def decide(pid, mod, tier, seed, t0, scratch):
    import threading
    proof_s = 420 if tier == 'quick' else 3000
    oracle_s = 45 if tier == 'quick' else 600
    has_contracts = os.path.exists(os.path.join(HERE, 'contracts', mod + '.py'))
    has_oracle = os.path.exists(os.path.join(HERE, 'oracle', mod + '.py'))
    res = dict(error=None, tasks=[])
    orc = dict(cases={}, violations=[], errors=[], evaluations=0, distinct=0, samples=[])
    first = {}
    th = None
    unlisted = False
    if has_oracle:
        th = threading.Thread(target=lambda: first.update(run_oracle(mod, tier, seed, oracle_s, [], scratch)))
        th.start()
    if has_contracts:
        p, out = run_worker(mod, proof_s, tier == 'thorough', scratch)
        try:
            end = time.time() + proof_s + 90
            while True:
                try:
                    p.communicate(timeout=5)
                    break
                except subprocess.TimeoutExpired:
                    if th and not th.is_alive() and not unlisted and \
                            any(not is_known(pid, v) for v in first.get('violations', [])):
                        # a failing input is at hand: the verifier gets one minute more
                        unlisted = True
                        end = min(end, time.time() + 60)
                    if time.time() > end:
                        raise
            res = json.load(open(out))
        except (subprocess.TimeoutExpired, OSError, ValueError) as e:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            res = dict(error=f'the verifier did not finish ({type(e).__name__})', tasks=[])
    if th:
        th.join()
        orc.update(first)
    obls, refuted, undecided = [], [], []
    for t in res['tasks']:
        for o in t['obligations']:
            o['task'] = t['task']
            obls.append(o)
            if o['status'] == 'refuted':
                refuted.append(o)
            elif o['status'] == 'unknown':
                undecided.append(f"{t['task']}: {o['name']}: the solver did not decide")
        for u in t['unsupported']:
            undecided.append(f"{t['task']}: {u}")
        for u in t['uncovered']:
            undecided.append(f"{t['task']}: no path reaches {u}")
        if t.get('crash'):
            undecided.append(f"{t['task']}: {t['crash'].strip().splitlines()[-1]}")
        if not t['obligations'] and not t['unsupported'] and not t.get('crash'):
            undecided.append(f"{t['task']}: no obligation was generated")
    if res['error']:
        undecided.append('contracts: ' + res['error'].strip().splitlines()[-1])
    # counterexamples are replayed on the real code
    if refuted and has_oracle and not orc['violations']:
        models = [dict(task=o['task'], name=o['name'], model=o['model'] or {}) for o in refuted]
        o2 = run_oracle(mod, tier, seed + 1, oracle_s, models, scratch)
        orc['violations'] += o2['violations']
        orc['evaluations'] += o2['evaluations']
        orc['errors'] += [e for e in o2['errors'] if e not in orc['errors']]
    known = load_known().get(pid, [])
    new, listed = [], []
    for v in orc['violations']:
        k = next((k for k in known if k.get('key') == v.get('key')), None)
        (listed if k else new).append((v, k))
    for o in list(refuted):
        k = next((k for k in known if k.get('obligation') == o['name']), None)
        if k:
            refuted.remove(o)
            listed.append((o, k))
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for e in orc['errors'][:5]:
        print('note: oracle:', str(e)[:300])
    for u in undecided[:12]:
        print('note: not proved:', u[:300])
    n_dis = sum(o['status'] == 'discharged' for o in obls)
    code = 0
    violations = 0
    if new or refuted:
        code = 1
        violations = len(new) or len(refuted)
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        path = os.path.join(HERE, 'replays', f'{pid}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=pid, seed=seed, tier=tier,
                           inputs=[v for v, _ in new][:10],
                           how=f'python3 {HERE}/check.py {pid} --replay {path}  (reruns the inputs on the real code)',
                           failed_obligations=[dict(o) for o in refuted][:20]), f, indent=1, default=str)
        for v, _ in new[:5]:
            print('failed:', v['case'], '-', str(v['what'])[:500], '- input', json.dumps(v['args'])[:500])
        for o in refuted[:8]:
            print('failed obligation:', o['task'], '/', o['name'], '-', str(o['detail'])[:200] if o['detail'] else '',
                  '- counterexample', json.dumps({k: v for k, v in (o['model'] or {}).items() if isinstance(v, int)})[:400])
        print(f'VIOLATION property={pid} replay={path}' + ('' if new else ' no-failing-input-found'))
    wall = time.time() - t0
    funcs = sorted({f for t in res['tasks'] for f in t['functions']})
    trusted = []
    level = 'proof' if has_contracts and obls else 'other'
    try:
        sys.path.insert(0, HERE)
        from contracts import assumptions as A
        trusted = A.TRUSTED + A.PER.get(pid, [])
        bounded = A.BOUNDED.get(pid, [])
    except ImportError:
        bounded = []
    cov = dict(
        obligations=len(obls), discharged=n_dis,
        checker_cmd=f'python3-vt -m pyvc.worker {mod} OUT.json --deadline {proof_s}',
        trusted_base=trusted,
        obligation_instances=sum(o['instances'] for o in obls),
        by_backend=dict(z3=sum(o.get('z3') or 0 for o in obls), simplifier=sum(o.get('simplifier') or 0 for o in obls)),
        cvc5=second_of(res['tasks']),
        solver_s=round(sum(t['solver_s'] for t in res['tasks']), 2),
        queries=sum(t['queries'] for t in res['tasks']), paths=sum(t['paths'] for t in res['tasks']),
        loops_cut_by_invariants=sorted({c for t in res['tasks'] for c in t['cuts']}),
        functions_under_contract=funcs,
        tasks=[dict(task=t['task'], obligations=len(t['obligations']),
                    discharged=sum(o['status'] == 'discharged' for o in t['obligations']), paths=t['paths'],
                    wall_s=t['wall_s']) for t in res['tasks']],
        refuted=[o['task'] + ': ' + o['name'] for o in refuted],
        not_proved=undecided[:60],
        bounded_stand_ins=bounded,
        evaluations=orc['evaluations'], distinct_nontrivial=orc['distinct'],
        rule='executable form of the contracts on the real code: boundary values, values of the solver models, '
             'integer literals of the current source and values drawn from the seed; two cases are distinct when their '
             'arguments differ',
        samples=orc['samples'][:6], oracle_cases=orc['cases'], oracle_errors=orc['errors'][:10],
        explanation='obligations generated from the current source of /repo and discharged by z3; the bounded '
                    'executable contracts are counted separately and never as proved')
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
                       assumptions=trusted, wall_s=round(wall, 2), violations=violations), f, indent=1)
    print(f'{pid}: {n_dis}/{len(obls)} obligations discharged, {len(undecided)} not proved, '
          f"{orc['evaluations']} concrete evaluations, {len(new)} failing inputs, {wall:.1f} s")
    return code


if __name__ == '__main__':
    main()
