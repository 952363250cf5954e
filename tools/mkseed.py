"""tools/mkseed.py SEEDS.py [id ...]: turn seed definitions into /verif/seeded/<id>/ and confirm each in a scratch copy.
SEEDS.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)].
Confirmation: builds; demo passes on /repo and fails on the copy; existing tests pass on the copy; the property's check (reported)."""
import os, subprocess, sys, json, shutil, tempfile, concurrent.futures as cf
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
def sh(cmd, cwd, env=None, t=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', TZ='UTC', **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return r.returncode, r.stdout.decode(errors='replace')
def one(s, tests=True):
    out = []
    D = tempfile.mkdtemp(prefix='seed-', dir='/tmp'); R = D + '/repo'
    try:
        sh('cp -a /repo %s' % R, '/'); sh('git checkout -q -- .', R)
        for f, old, new in s['edits']:
            p = os.path.join(R, f); t = open(p).read()
            if t.count(old) != 1: return s['id'], 'BAD EDIT: %d matches in %s of %r' % (t.count(old), f, old[:60])
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.check_output(['git', '-C', R, 'diff']).decode()
        S = os.path.join(H, 'seeded', s['id']); os.makedirs(S, exist_ok=True)
        open(S + '/patch.diff', 'w').write(diff)
        open(S + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
        open(S + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd = the pygeode tree; exit 0 if the property holds on this history\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(S + '/meta.json', 'w'), indent=1)
        if any(e[0].endswith(('.c', '.h')) for e in s['edits']):
            rc, o = sh('%s setup.py -q build_ext --inplace --force' % PY, R)
            if rc: return s['id'], 'BUILD FAILED ' + o[-800:]
        rc, o = sh('bash %s/demo.sh' % S, '/repo'); out.append('demo/clean %d' % rc + ('' if rc == 0 else ' BAD ' + o[-600:]))
        rc, o = sh('bash %s/demo.sh' % S, R); out.append('demo/bug %d' % rc + (' [%s]' % (o.strip().splitlines() or ['?'])[-1][:150] if rc else ' BAD: passes'))
        if tests:
            W = D + '/cwd'; os.makedirs(W)
            rc, o = sh('%s -m pytest -q -x -p no:cacheprovider --rootdir=%s --timeout=300 --disable-warnings --tb=short %s/tests' % (PY, R, R), W, dict(PYTHONPATH=R, PYTHONHASHSEED='0'))
            out.append('tests ' + o.strip().splitlines()[-1] + ('' if rc == 0 else ' BAD ' + o[-700:-200]))
        rc, o = sh('bash check.sh %s quick' % s['prop'], H, dict(VERIF_REPO=R, VERIF_JOBS='4'))
        L = [l for l in o.splitlines() if l.startswith('VIOLATION')]
        out.append('check %s' % ('CAUGHT' if rc == 1 and L else 'MISSED rc=%d %s' % (rc, o[-200:])))
    finally: shutil.rmtree(D, ignore_errors=True)
    return s['id'], ' | '.join(out)
if __name__ == '__main__':
    g = {}; exec(open(sys.argv[1]).read(), g)
    want = [a for a in sys.argv[2:] if not a.startswith('-')]
    S = [s for s in g['SEEDS'] if not want or s['id'] in want]
    with cf.ThreadPoolExecutor(3) as ex:
        for f in cf.as_completed([ex.submit(one, s, '-notest' not in sys.argv) for s in S]): print(*f.result(), flush=True)
