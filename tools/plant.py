"""python tools/plant.py [ids]: writes seeded/<id>/ from tools/seeds/*.py.  Each file there defines
PROPERTY, FILE, EDITS (list of (file, old, new[, occurrence])), NEEDS, BREAKS and DEMO (source that uses helper.py).
Every change is confirmed in a scratch copy of /repo: it applies, the demonstration passes without and fails
with it, and the stable tests pass with it."""
import concurrent.futures as cf, glob, json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
def sh(c, cwd, timeout=900, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MPLCONFIGDIR='/tmp/vf_mpl'); e.update(env or {})
    return subprocess.run(c, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env=e)
def plant(path, tests=True):
    id = os.path.basename(path)[:-3]; s = runpy.run_path(path)
    out = os.path.join(V, 'seeded', id); tmp = tempfile.mkdtemp(prefix='seed_', dir='/tmp'); w = tmp + '/repo'
    try:
        sh(f'git clone -q /repo {w}', '/tmp')
        for f, old, new, *occ in s['EDITS']:
            t = open(f'{w}/{f}').read(); k = occ[0] if occ else None
            n = t.count(old)
            if k is None: assert n == 1, (id, f, n, old); t = t.replace(old, new)
            else:
                p = -1
                for _ in range(k): p = t.index(old, p + 1)
                t = t[:p] + new + t[p + len(old):]
            open(f'{w}/{f}', 'w').write(t)
        diff = sh('git diff', w).stdout; assert diff, id
        # only lines of the original repository may be changed
        fix = set()
        for f in {e[0] for e in s['EDITS']}:
            base = sh('git rev-list --max-parents=0 HEAD', w).stdout.strip()
            orig = sh(f'git show {base}:{f}', w).stdout.splitlines()
            for l in diff.splitlines():
                if l.startswith('-') and not l.startswith('---') and l[1:] not in orig: fix.add(l)
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.py', 'w').write('from helper import *\n' + s['DEMO'].lstrip('\n'))
        shutil.copy(V + '/tools/seeds/helper.py', out)
        open(out + '/demo.sh', 'w').write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'); os.chmod(out + '/demo.sh', 0o755)
        json.dump(dict(property=s['PROPERTY'], needs=s['NEEDS'], what_it_breaks=s['BREAKS']), open(out + '/meta.json', 'w'), indent=1)
        a = sh(f'bash {out}/demo.sh', '/repo'); b = sh(f'bash {out}/demo.sh', w)
        t = ''
        if tests:
            r = sh(f'{PY} -m pytest -q -p no:cacheprovider gpgradpy/unit_test/test_precon_grad.py', w)
            t = f'tests rc={r.returncode} {r.stdout.strip().splitlines()[-1:]}'
        ok = a.returncode == 0 and b.returncode != 0 and (not tests or r.returncode == 0)
        return f'{"ok  " if ok else "BAD "} {id}: clean {a.returncode}, planted {b.returncode} {b.stdout.strip()[:100]!r} {b.stderr.strip()[-100:]!r} {t}' \
            + ('' if a.returncode == 0 else '\n   ' + (a.stdout + a.stderr)[-800:]) + ('' if not fix else f'\n   NOTE: changes lines of fixes: {sorted(fix)}')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
if __name__ == '__main__':
    ids = [a for a in sys.argv[1:] if not a.startswith('-')]
    fs = sorted(f for f in glob.glob(V + '/tools/seeds/*.py') if not f.endswith('helper.py') and (not ids or os.path.basename(f)[:-3] in ids))
    with cf.ThreadPoolExecutor(4) as p:
        for r in p.map(lambda f: plant(f, '--notests' not in sys.argv), fs): print(r, flush=True)
