"""seed.py ID PROPERTY FILE 'needs' 'breaks' < spec ; helper to write a seeded bug.
spec: old text, a line ====, new text, a line ====, demo python (run with cwd /repo); several old/new pairs may be
given as FILE2 by lines '@@ path'."""
import json, os, subprocess, sys, tempfile
sid, prop, path, needs, breaks = sys.argv[1:6]
spec = sys.stdin.read()
parts = spec.split('\n====\n')
demo = parts[-1]
if demo.startswith('#common'):
    demo = open('/verif/tools/demo_common.txt').read() + demo.partition('\n')[2]
pairs = parts[:-1]
w = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
try:
    subprocess.run(['git', 'clone', '-q', '/repo', w + '/r'], check=True)
    f = path
    i = 0
    while i < len(pairs):
        old, new = pairs[i], pairs[i + 1]
        i += 2
        if old.lstrip().startswith('@@ '):
            l, _, old = old.lstrip().partition('\n')
            f = l[3:].strip()
        p = os.path.join(w, 'r', 'src/siotls', f)
        s = open(p).read()
        old = old.strip('\n'); new = new.strip('\n')
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    d = f'/verif/seeded/{sid}'
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(['git', '-C', w + '/r', 'diff'], capture_output=True, text=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(demo)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd /repo\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src"\n'
                                    'unset SSLKEYLOGFILE\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    def run(cwd): return subprocess.run(['bash', d + '/demo.sh'], cwd=cwd, capture_output=True, text=True)
    a = run('/repo'); b = run(w + '/r')
    print(sid, 'demo unchanged', a.returncode, 'planted', b.returncode, (b.stderr or b.stdout).strip().splitlines()[-1:])
    if a.returncode: print(a.stderr[-800:])
    e = dict(os.environ, PYTHONPATH=w + '/r/src', PYTHONDONTWRITEBYTECODE='1', SIOTLS_INTEGRATION='1')
    e.pop('SSLKEYLOGFILE', None)
    t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-rf', 'tests'], cwd=w + '/r', env=e, capture_output=True, text=True)
    failed = [x for x in t.stdout.splitlines() if x.startswith(('FAILED', 'ERROR')) and 'test_openssl_server' not in x and 'curl_keylogfile' not in x]
    print('   tests:', t.stdout.strip().splitlines()[-1], 'CAUGHT BY TESTS ' + str(failed) if failed or b.returncode == 0 or a.returncode else 'OK')
finally:
    import shutil; shutil.rmtree(w + '/r')
    os.rmdir(w)
