"""Develop planted bugs (not used by any check).

seed.py new FILE...   : for every entry of SEEDS in FILE, make the change in a scratch worktree, run the stable tests and the
                        demonstration (with and without), and keep what counts under /verif/seeded/<id>/
seed.py run [ID...]   : run the property's quick check against every kept change (in a scratch worktree), print who catches it
"""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
WT = '/tmp/s/wt%d' % os.getpid()
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONPATH=WT + '/src')
DEMO = '#!/bin/bash\n# Exit 0 where the property holds. Run with the repository as working directory.\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
HEAD = 'import os, sys, warnings\nsys.path.insert(0, os.path.join(os.getcwd(), "src"))\nwarnings.simplefilter("ignore")\nimport numpy as np\n'


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def fresh():
    sh('git', '-C', WT, 'checkout', '-q', '--', '.')
    sh('git', '-C', WT, 'clean', '-fdq')


def tests():
    sh('rm', '-f', WT + '/junit.xml')
    sh(PY, '-m', 'pytest', 'tests', '--doctest-modules', '-q', '-n', '8', '-p', 'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors',
       '-o', 'log_cli=false', '-o', 'junit_family=xunit2', '--junitxml=' + WT + '/junit.xml', cwd=WT, env=dict(ENV, PYTHONHASHSEED='0'))
    sh('/usr/bin/python3', '/opt/vp/results.py', WT + '/o.json', 'junit:' + WT + '/junit.xml')
    d = json.load(open(WT + '/o.json'))
    b = json.load(open('/opt/vp/BASELINE.json'))
    return sorted(set(b['stable']) - set(d['passed']))


def demo(d):
    return sh('bash', d + '/demo.sh', cwd=WT, env={k: v for k, v in ENV.items() if k != 'PYTHONPATH'}, timeout=300)


def check(prop, runs=None, seed='1'):
    e = dict(ENV, VERIF_REPO=WT, VERIF_SEED=seed)
    if runs:
        e['VERIF_RUNS'] = str(runs)
    p = sh(PY, V + '/check.py', prop, env=e, cwd=V)
    return p.returncode, [l for l in (p.stdout + p.stderr).splitlines() if l.startswith(('violated', 'VIOLATION', 'seed', 'error', 'held'))]


def new(files):
    for f in files:
        ns = {}
        exec(open(f).read(), ns)
        for s in ns['SEEDS']:
            fresh()
            ok = True
            for path, old, rep in s['edits']:
                p = WT + '/src/pymgrid/' + path
                t = open(p).read()
                if t.count(old) != 1:
                    print(s['id'], 'OLD TEXT FOUND %d TIMES in %s' % (t.count(old), path))
                    ok = False
                    break
                open(p, 'w').write(t.replace(old, rep))
            if not ok:
                continue
            diff = sh('git', '-C', WT, 'diff').stdout
            d = '/tmp/s/out/' + s['id']
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            open(d + '/patch.diff', 'w').write(diff)
            open(d + '/demo.sh', 'w').write(DEMO)
            os.chmod(d + '/demo.sh', 0o755)
            open(d + '/demo.py', 'w').write(HEAD + s['demo'])
            json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
            miss = tests()
            if miss and len(miss) < 3:          # one stable test is flaky
                miss = sorted(set(miss) & set(tests()))
            bad = demo(d)
            fresh()
            good = demo(d)
            if miss or bad.returncode == 0 or good.returncode != 0:
                print(s['id'], 'NOT KEPT: tests', miss[:3], len(miss), 'demo with %d without %d' % (bad.returncode, good.returncode), ' / '.join(x for x in (good.stderr if good.returncode else bad.stderr).splitlines() if 'ym' not in x)[-400:])
                continue
            dst = V + '/seeded/' + s['id']
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(d, dst)
            print(s['id'], 'kept;', [x for x in bad.stderr.strip().splitlines() if 'ymn' not in x][-1:])
            run([s['id']])


def run(ids):
    for i in ids or sorted(os.listdir(V + '/seeded')):
        d = V + '/seeded/' + i
        fresh()
        a = sh('git', '-C', WT, 'apply', d + '/patch.diff')
        if a.returncode:
            print(i, 'DOES NOT APPLY', a.stderr)
            continue
        m = json.load(open(d + '/meta.json'))
        rc, out = check(m['property'])
        print('%-28s %s %s' % (i, m['property'], {0: 'MISSED', 1: 'caught'}.get(rc, 'ERROR %d' % rc)), ' | '.join(out)[:400])
        sys.stdout.flush()
    fresh()


if __name__ == '__main__':
    os.makedirs('/tmp/s', exist_ok=True)
    sh('git', 'clone', '-q', '/repo', WT)
    try:
        dict(new=new, run=run)[sys.argv[1]](sys.argv[2:])
    finally:
        shutil.rmtree(WT, ignore_errors=True)
