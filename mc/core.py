"""
Shared machinery of all checks: scratch build of the code under test, sharded exhaustive runs, evidence and verdicts.

A check module (checks/pNN.py) defines
    PROPERTY, RULE (text), ASSUMPTIONS (list)
    configs(tier)            -> list of JSON-able configurations (shards); their union is the explored space
    run(cfg, stats)          -> explores the shard completely, calling stats.violation(key, detail, replay) on failures
"""
import collections
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EXT = 'aideme/active_learning/factorization'
PY = '/opt/venv/bin/python'
BUILD_INPUTS = ('setup.py', 'README.md', EXT + '/utils.pyx')

# wall clock given to one shard: a shard normally takes seconds, so running out means that the code does not terminate
SHARD_TIMEOUT = {'quick': 240, 'thorough': 3000}
if os.environ.get('VERIF_SHARD_TIMEOUT'):  # mutation campaigns
    SHARD_TIMEOUT = dict.fromkeys(SHARD_TIMEOUT, int(os.environ['VERIF_SHARD_TIMEOUT']))
TOTAL_TIMEOUT = {'quick': 700, 'thorough': 6 * 3600}
MAX_VIOLATIONS = 40


class ShardTimeout(BaseException):
    pass


class Enough(BaseException):
    """ Raised to leave a shard in which enough violations were found. """


# ---------------------------------------------------------------------------------------------------------------------
# building the tree under test
# ---------------------------------------------------------------------------------------------------------------------
def build_tree(scratch):
    """ Copies the package of the current working tree to scratch, and compiles its Cython module there. """
    src = os.path.join(scratch, 'src')
    shutil.copytree(os.path.join(REPO, 'aideme'), os.path.join(src, 'aideme'),
                    ignore=shutil.ignore_patterns('__pycache__', '*.so', '*.pyc', 'utils.c', '*.html'))

    # the compiled module depends only on these files, so it can be reused as long as they do not change
    h = hashlib.sha256()
    for f in BUILD_INPUTS:
        h.update(open(os.path.join(REPO, f), 'rb').read() + b'\0')
    cached = os.path.join(VERIF, '.cache', h.hexdigest())
    if not os.path.isdir(cached):
        stage = os.path.join(scratch, 'stage')
        os.makedirs(os.path.join(stage, EXT))
        for f in BUILD_INPUTS:
            shutil.copy(os.path.join(REPO, f), os.path.join(stage, f))

        env = dict(os.environ, CFLAGS='-O1 -w', PYTHONDONTWRITEBYTECODE='1')
        p = subprocess.run([PY, 'setup.py', '-q', 'build_ext', '--inplace', '--use-cython'], cwd=stage, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        libs = [f for f in os.listdir(os.path.join(stage, EXT)) if f.startswith('utils.') and f.endswith('.so')]
        if p.returncode != 0 or not libs:
            print(p.stdout)
            raise RuntimeError('building the Cython module failed')
        tmp = tempfile.mkdtemp(dir=scratch)
        for lib in libs:
            shutil.copy(os.path.join(stage, EXT, lib), tmp)
        shutil.rmtree(stage)
        os.makedirs(os.path.dirname(cached), exist_ok=True)
        try:
            shutil.move(tmp, cached)
        except OSError:  # another check was faster, or /verif is read-only
            cached = cached if os.path.isdir(cached) else tmp

    for lib in os.listdir(cached):
        shutil.copy(os.path.join(cached, lib), os.path.join(src, EXT, lib))
    return src


# ---------------------------------------------------------------------------------------------------------------------
# statistics of a shard
# ---------------------------------------------------------------------------------------------------------------------
class Stats:
    def __init__(self, prop, cfg):
        self.prop, self.cfg = prop, cfg
        self.executions = 0
        self.transitions = 0
        self.validated = 0
        self.capped = 0
        self.seen = set()
        self.outcomes = collections.Counter()
        self.samples = []
        self.violations = []
        self.keys = set()
        self.known = frozenset()

    def state(self, *key):
        """ Records a (canonical form of a) state; returns True the first time it is seen. """
        h = hashlib.blake2b(repr(key).encode(), digest_size=12).digest()
        if h in self.seen:
            return False
        self.seen.add(h)
        return True

    def step(self, n=1):
        self.transitions += n

    def outcome(self, name):
        self.outcomes[str(name)] += 1

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def violation(self, key, detail, replay=None):
        """
        :param key: identifies the failing input / call site / history class, stable across runs
        """
        if key in self.keys:
            return
        self.keys.add(key)
        self.violations.append({'key': key, 'detail': str(detail)[:4000], 'config': self.cfg, 'replay': replay})
        if sum(1 for v in self.violations if v['key'] not in self.known) >= 5:
            raise Enough()

    def check(self, condition, key, detail='', replay=None):
        if not condition:
            self.violation(key, detail() if callable(detail) else detail, replay)
        return bool(condition)

    def dump(self):
        return {'executions': self.executions, 'transitions': self.transitions, 'validated': self.validated,
                'capped': self.capped, 'states': len(self.seen), 'outcomes': dict(self.outcomes),
                'samples': self.samples, 'violations': self.violations}


def _alarm(signum, frame):
    raise ShardTimeout()


_MODULE = None
_KNOWN = frozenset()


def _run_shard(args):
    i, cfg, tier = args
    stats = Stats(_MODULE.PROPERTY, cfg)
    stats.known = _KNOWN
    out = io.StringIO()
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(SHARD_TIMEOUT[tier])
    try:
        with contextlib.redirect_stdout(out):
            _MODULE.run(cfg, stats)
    except Enough:
        pass
    except ShardTimeout:
        tb = traceback.format_exc(limit=-6)
        stats.violations.append({'key': 'no-termination', 'detail': 'shard did not finish within {} s\n{}'.format(SHARD_TIMEOUT[tier], tb),
                                 'config': cfg, 'replay': getattr(stats, 'current', None)})
    except BaseException as e:  # an exception which no oracle expected
        tb = traceback.format_exc()
        lines = [l.strip() for l in tb.splitlines() if 'File "' in l and '/aideme/' in l]
        where = lines[-1].split('/aideme/')[-1].split('"')[0] if lines else 'harness'
        stats.violations.append({'key': 'exception:{}:{}'.format(type(e).__name__, where), 'detail': tb[-3500:],
                                 'config': cfg, 'replay': getattr(stats, 'current', None)})
    finally:
        signal.alarm(0)
    res = stats.dump()
    res['shard'], res['cfg'], res['wall'] = i, cfg, time.time() - t0
    return res


# ---------------------------------------------------------------------------------------------------------------------
# known findings
# ---------------------------------------------------------------------------------------------------------------------
def known_findings(prop):
    """ Lines 'finding: property=<id> key=<key> :: <what fails>' """
    res = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            line = line.strip()
            if line.startswith('finding: property={} key='.format(prop)):
                head, what = line.split(' :: ', 1)
                res[head.split(' key=', 1)[1]] = what
    return res


# ---------------------------------------------------------------------------------------------------------------------
# main
# ---------------------------------------------------------------------------------------------------------------------
def setup():
    """ Compiles the Cython module into the cache of this folder; checks do it themselves if it is missing or outdated. """
    scratch = tempfile.mkdtemp(prefix='verif-setup-')
    try:
        build_tree(scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print('ready')
    return 0


def main(argv):
    global _MODULE, _KNOWN
    prop, tier = argv[0], (argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick'))
    replay = argv[3] if len(argv) > 3 and argv[2] == '--replay' else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()

    scratch = tempfile.mkdtemp(prefix='verif-{}-'.format(prop))
    try:
        src = build_tree(scratch)
        sys.path.insert(0, src)
        os.chdir(scratch)
        import warnings
        warnings.simplefilter('ignore')
        import numpy as np
        np.seterr(all='ignore')

        known = known_findings(prop)
        _KNOWN = frozenset(known)

        try:
            import aideme
            assert os.path.abspath(aideme.__file__).startswith(src), aideme.__file__
            _MODULE = importlib.import_module('checks.' + prop.lower())
        except Exception:
            tb = traceback.format_exc()
            return report(prop, tier, seed, t0, [], [{'key': 'import', 'detail': tb[-3500:], 'config': None, 'replay': None}], known, None)

        cfgs = _MODULE.configs(tier)
        if replay:
            cfgs = [json.load(open(replay))['config']]

        results, violations = run_all(cfgs, tier)
        return report(prop, tier, seed, t0, results, violations, known, _MODULE, write=not replay)
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)


def run_all(cfgs, tier):
    results, violations = [], []
    ctx = multiprocessing.get_context('fork')
    jobs = [(i, c, tier) for i, c in enumerate(cfgs)]
    n = int(os.environ.get('VERIF_JOBS', os.cpu_count() or 1))
    deadline = time.time() + TOTAL_TIMEOUT[tier]
    pool = ctx.Pool(min(n, max(1, len(jobs))), maxtasksperchild=None)
    try:
        it = pool.imap_unordered(_run_shard, jobs)
        for _ in jobs:
            try:
                res = it.next(timeout=max(1., deadline - time.time()))
            except multiprocessing.TimeoutError:
                violations.append({'key': 'no-termination', 'detail': 'check did not finish in time', 'config': None, 'replay': None})
                break
            results.append(res)
            violations.extend(res['violations'])
            if sum(v['key'] not in _KNOWN for v in violations) >= (1 if os.environ.get('VERIF_FAILFAST') else MAX_VIOLATIONS):
                break
            if any(v['key'] == 'no-termination' for v in violations):
                break
    finally:
        pool.terminate()
        pool.join()
    return results, violations


def report(prop, tier, seed, t0, results, violations, known, module, write=True):
    results.sort(key=lambda r: r['shard'])
    fresh, found = [], {}
    for v in violations:
        if v['key'] in known:
            found.setdefault(v['key'], v)
        elif v['key'] not in [f['key'] for f in fresh]:
            fresh.append(v)

    outcomes = collections.Counter()
    for r in results:
        outcomes.update(r['outcomes'])
    samples = []
    for r in results[::max(1, len(results) // 4)]:
        samples.extend({'config': r['cfg'], 'case': s} for s in r['samples'][:1])

    tot = lambda k: sum(r[k] for r in results)
    coverage = {
        # every explored execution runs the implementation itself and is compared with the reference model
        'states': tot('states'), 'transitions': tot('transitions'), 'traces_validated_against_impl': tot('executions'),
        'shards': len(results), 'distinct_outcomes': dict(sorted(outcomes.items())[:60]),
        'exhaustive': tot('capped') == 0 and not fresh, 'capped_executions': tot('capped'),
        'rule': getattr(module, 'RULE', ''), 'samples': samples[:4],
    }
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': coverage,
        'assumptions': getattr(module, 'ASSUMPTIONS', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(fresh),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if write:
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1, default=str)

    print('{}: {} states, {} transitions, {} executions in {} shards, {:.1f} s'.format(
        prop, coverage['states'], coverage['transitions'], coverage['traces_validated_against_impl'], len(results), evidence['wall_s']))
    if os.environ.get('VERIF_PROFILE'):
        for r in sorted(results, key=lambda r: -r['wall'])[:6]:
            print('   shard {:.1f}s {} exec={} {}'.format(r['wall'], r['shard'], r['executions'], r['cfg']))
        print('   outcomes', dict(outcomes))

    for key, v in sorted(found.items()):
        print('KNOWN-FINDING: property={} {} [{}]'.format(prop, known[key], key))

    if not fresh:
        return 0

    rdir = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    for n, v in enumerate(fresh[:10]):
        path = os.path.join(rdir, '{}-{}.json'.format(prop, n))
        with open(path, 'w') as f:
            json.dump(dict(v, property=prop, how='python run_check.py {} {} --replay {}'.format(prop, tier, path)), f, indent=1, default=str)
        print('  [{}] {}'.format(v['key'], v['detail'][:1500]))
        print('VIOLATION property={} replay={}'.format(prop, path))
    return 1
