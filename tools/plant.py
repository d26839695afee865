"""
Confirms planted bugs in scratch copies and stores them in /verif/seeded; reports which checks catch them.

  python3 plant.py new SPEC.py...     SPEC defines ID, PROPERTY, EDITS [(file, old, new)], DEMO (python), NEEDS, BREAKS
  python3 plant.py catch [ID...] [--tier quick]   runs the check of the property of each planted bug against a patched copy
"""
import json, os, shutil, subprocess, sys, tempfile
REPO, SEEDED, PY = '/repo', '/verif/seeded', '/opt/venv/bin/python'


def sh(cmd, cwd=None, env=None, timeout=1000):
    p = subprocess.run('timeout 6900 ' + cmd if not cmd.startswith(('bash', 'cd')) else 'timeout 120 ' + cmd, shell=True, cwd=cwd, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def copy():
    d = tempfile.mkdtemp(prefix='plant-')
    sh('cp -a {} {}/repo'.format(REPO, d))
    return d, d + '/repo'


def new(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns['SEEDS']:
        if not ONLY or s[0] in ONLY:
            one(*s)


def one(id_, prop, edits, demo, needs, breaks):
    d, wt = copy()
    try:
        for f, old, rep in edits:
            p = os.path.join(wt, f)
            t = open(p).read()
            assert t.count(old) == 1, (id_, f, t.count(old))
            open(p, 'w').write(t.replace(old, rep))
        out = os.path.join(SEEDED, id_)
        os.makedirs(out, exist_ok=True)
        diff = sh('git diff', wt)[1]
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.py', 'w').write(demo.lstrip())
        open(out + '/demo.sh', 'w').write('#!/bin/bash\n# run in the repository, after building it\nPYTHONPATH="$PWD" exec {} "$(dirname "$0")/demo.py"\n'.format(PY))
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(out + '/meta.json', 'w'), indent=1)
        ok = True
        r0, o0 = sh('bash {}/demo.sh'.format(out), REPO)
        r1, o1 = sh('bash {}/demo.sh'.format(out), wt)
        rt, ot = sh(PY + ' -m pytest -q -p no:cacheprovider tests/test_one_dim_convex.py', wt, {'PYTHONPATH': wt})
        base = '14 passed' in ot and 'failed' not in ot and 'error' not in ot
        sh('find . -name __pycache__ -prune -exec rm -rf {} +', wt)
        if r0 != 0 or r1 == 0 or not base:
            print('BAD', id_, 'unchanged', r0, 'patched', r1, 'tests', ot.strip().splitlines()[-1])
            print(o0[-800:] if r0 else '', o1[-300:])
        else:
            print('ok ', id_, o1.strip().splitlines()[-1][:150] if o1.strip() else '')
    finally:
        shutil.rmtree(d)


def catch(ids, tier):
    d, wt = copy()
    try:
        for i in ids:
            sh('git checkout -q -- .', wt)
            rc, o = sh('git apply {}/{}/patch.diff'.format(SEEDED, i), wt)
            prop = json.load(open('{}/{}/meta.json'.format(SEEDED, i)))['property']
            rc2, o2 = sh('{} run_check.py {} {}'.format(PY, prop, tier), '/verif', {'VERIF_REPO': wt}, 7000)
            hit = rc2 == 1 and 'VIOLATION property={}'.format(prop) in o2
            keys = sorted({l.strip().split(']')[0][1:] for l in o2.splitlines() if l.startswith('  [')})
            print('{:6s} {} {} rc={} {}'.format('CAUGHT' if hit else 'MISSED', i, prop, rc2 if not rc else 'apply failed', keys[:4]), flush=True)
    finally:
        shutil.rmtree(d)


if sys.argv[1] == 'new':
    ONLY = sys.argv[3:]
    new(sys.argv[2])
else:
    args = [a for a in sys.argv[2:] if not a.startswith('--')]
    tier = 'thorough' if '--tier=thorough' in sys.argv else 'quick'
    catch(args or sorted(os.listdir(SEEDED)), tier)
