"""
Mutation campaign: small systematic changes of the code, each judged by the quick checks of the properties anchored in that file.
Survivors are read by hand: equivalent, outside of what is claimed, or a gap in a check.

  python3 mutate.py list FILE...                       number of mutants
  python3 mutate.py run OUT.jsonl [--workers 4] [--jobs 2] [--frac 1.0] FILE...
  python3 mutate.py show OUT.jsonl                     survivors
Works in copies under /tmp/mut of both the repository and this folder.
"""
import ast, copy, json, os, random, shutil, subprocess, sys, threading, queue, time
PY = '/opt/venv/bin/python'
REPO, VERIF, TMP = '/repo', '/verif', '/tmp/mut'
A = 'aideme/active_learning/'
SWAP_ARGS = False  # mostly equivalent or obvious
SKIP_CALLS = ('warn', 'warning', 'info', 'debug', 'print', 'super')

CHECKS = {
    'aideme/explore/partitioned.py': ['P01', 'P02', 'P07', 'P03'], 'aideme/explore/index.py': ['P01', 'P02'],
    'aideme/explore/labeledset.py': ['P02', 'P03', 'P04', 'P09', 'P05'],
    'aideme/explore/manager.py': ['P04', 'P05', 'P06'], 'aideme/explore/explore.py': ['P05', 'P06', 'P03'],
    'aideme/explore/command_line_explore.py': ['P11'], 'aideme/initial_sampling.py': ['P10', 'P05'],
    'aideme/utils/noise.py': ['P09', 'P05'], 'aideme/utils/metrics.py': ['P12'], 'aideme/utils/metric_logger.py': ['P12', 'P04'],
    'aideme/utils/convergence.py': ['P12', 'P05'], 'aideme/utils/random.py': ['P06', 'P09', 'P10', 'P08'],
    'aideme/utils/validation.py': ['P43', 'P12', 'P10', 'P30', 'P23'],
    A + 'active_learner.py': ['P08', 'P27', 'P39', 'P40'], A + 'random.py': ['P08', 'P39', 'P40'],
    A + 'margin.py': ['P39', 'P27', 'P40'], A + 'uncertainty.py': ['P39', 'P40'], A + 'query_by_disagreement.py': ['P36', 'P40'],
    A + 'aluma.py': ['P42', 'P40'], A + 'nlp.py': ['P40'], A + 'entropy.py': ['P38', 'P46', 'P40'],
    A + 'kernel.py': ['P37', 'P26', 'P40'], A + 'inference/inference.py': ['P20'],
    A + 'dsm/base.py': ['P21', 'P40'], A + 'dsm/dsm.py': ['P21', 'P40'], A + 'dsm/model.py': ['P21', 'P40'],
    A + 'dsm/polytope.py': ['P16', 'P17', 'P18', 'P19'],
    A + 'dsm/convex/convex.py': ['P14', 'P13', 'P15', 'P22', 'P21'], A + 'dsm/convex/one_dim_convex.py': ['P13', 'P14', 'P22', 'P15'],
    A + 'dsm/convex/geometry.py': ['P13', 'P14', 'P22', 'P15'],
    A + 'version_space/base.py': ['P46', 'P23', 'P26', 'P35', 'P40'], A + 'version_space/linear.py': ['P46', 'P23', 'P26', 'P40'],
    A + 'version_space/kernel.py': ['P26', 'P38', 'P40'], A + 'version_space/categorical.py': ['P18', 'P19', 'P27'],
    A + 'version_space/subspace.py': ['P27', 'P46', 'P40'],
    A + 'version_space/hit_and_run/hit_and_run.py': ['P23', 'P45', 'P26', 'P40'], A + 'version_space/hit_and_run/rounding.py': ['P24', 'P44', 'P23'],
    A + 'version_space/hit_and_run/ellipsoid.py': ['P24', 'P23'], A + 'version_space/hit_and_run/polyhedral_cone.py': ['P25', 'P24', 'P23'],
    A + 'version_space/bayesian/laplace.py': ['P35'], A + 'version_space/bayesian/base.py': ['P35'], A + 'version_space/bayesian/linear.py': ['P41', 'P35'], A + 'version_space/bayesian/stan.py': ['P41'],
    A + 'factorization/active_learning.py': ['P33', 'P46', 'P32', 'P34', 'P40'], A + 'factorization/penalty.py': ['P29', 'P28', 'P30'],
    A + 'factorization/optimization.py': ['P30', 'P33'], A + 'factorization/step_size_scheduler.py': ['P30'],
    A + 'factorization/linear.py': ['P28', 'P34', 'P30', 'P33', 'P37'], A + 'factorization/learn.py': ['P32', 'P34', 'P33'],
    A + 'factorization/kernel.py': ['P37'], A + 'factorization/interaction.py': ['P37'],
    A + 'factorization/partitioning/linear.py': ['P31'], A + 'factorization/partitioning/learn.py': ['P31'],
}


# ---------------------------------------------------------------------------------------------------------------------
def variants(node):
    """ Yields (name, function altering a deep copy of the node -> replacement) """
    t = type(node)
    if t is ast.Compare and len(node.ops) == 1:
        o = type(node.ops[0])
        m = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq],
             ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
        for n in m.get(o, []):
            yield 'cmp', lambda x, n=n: setattr(x, 'ops', [n()]) or x
    elif t is ast.BoolOp:
        n = ast.Or if isinstance(node.op, ast.And) else ast.And
        yield 'bool', lambda x: setattr(x, 'op', n()) or x
        for i in range(len(node.values)):
            yield 'booldrop', lambda x, i=i: (x.values.pop(i), x if len(x.values) > 1 else x.values[0])[1]
    elif t is ast.UnaryOp and isinstance(node.op, (ast.Not, ast.USub, ast.Invert)) and not isinstance(node.operand, ast.Constant):
        yield 'unary', lambda x: x.operand
    elif t is ast.BinOp:
        m = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.Pow: ast.Mult}
        n = m.get(type(node.op))
        if n and not isinstance(node.left, (ast.List, ast.JoinedStr)) and not (isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
            yield 'arith', lambda x: setattr(x, 'op', n()) or x
            yield 'left', lambda x: x.left
            yield 'right', lambda x: x.right
    elif t is ast.Constant:
        v = node.value
        if v is True or v is False:
            yield 'flag', lambda x: ast.Constant(not v)
        elif isinstance(v, int):
            yield 'const', lambda x: ast.Constant(v + 1)
            if v:
                yield 'const', lambda x: ast.Constant(v - 1)
        elif isinstance(v, float):
            yield 'const', lambda x: ast.Constant(v * 2 if v else 1.)
    elif t is ast.IfExp:
        yield 'ifexp', lambda x: x.body
        yield 'ifexp', lambda x: x.orelse
    elif t is ast.Call:
        f = node.func
        name = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
        if name in SKIP_CALLS:
            return
        swap = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any', 'argmin': 'argmax', 'argmax': 'argmin', 'minimum': 'maximum', 'maximum': 'minimum',
                'sum': 'mean', 'mean': 'sum', 'append': 'extend', 'zeros': 'ones', 'ones': 'zeros', 'floor': 'ceil', 'union': 'intersection', 'logical_and': 'logical_or',
                'isfinite': 'isnan', 'argsort': 'sort', 'predict': 'predict_proba'}
        if name in swap:
            def s(x):
                if isinstance(x.func, ast.Attribute):
                    x.func.attr = swap[name]
                else:
                    x.func.id = swap[name]
                return x
            yield 'call', s
        if name in ('copy', 'ravel', 'flatten', 'deepcopy', 'clone', 'reshape', 'tolist', 'items') and isinstance(f, ast.Attribute) and not isinstance(f.value, ast.Name):
            yield 'uncall', lambda x: x.func.value
        elif name in ('copy', 'clone') and isinstance(f, ast.Attribute) and not node.args:
            yield 'uncall', lambda x: x.func.value
        if name in ('array', 'asarray', 'list', 'sorted', 'set', 'tuple', 'deepcopy', 'float', 'int', 'abs', 'sqrt', 'exp', 'log', 'unique', 'reversed', 'bool', 'square', 'atleast_2d') and len(node.args) >= 1:
            yield 'uncall', lambda x: x.args[0]
        for i, k in enumerate(node.keywords):
            yield 'dropkw', lambda x, i=i: (x.keywords.pop(i), x)[1]
        if SWAP_ARGS and len(node.args) == 2 and not any(isinstance(a, ast.Starred) for a in node.args) and name not in ('isinstance', 'hasattr'):
            yield 'swapargs', lambda x: setattr(x, 'args', x.args[::-1]) or x
    elif t is ast.Slice:
        if node.lower is not None:
            yield 'slice', lambda x: setattr(x, 'lower', None) or x
        if node.upper is not None:
            yield 'slice', lambda x: setattr(x, 'upper', None) or x
    elif t is ast.If:
        if not getattr(node.test, 'id', '') == 'TYPE_CHECKING' and not all(isinstance(s, ast.Raise) for s in node.body):
            yield 'true', lambda x: setattr(x, 'test', ast.Constant(True)) or x
            yield 'false', lambda x: setattr(x, 'test', ast.Constant(False)) or x
    elif t is ast.While:
        yield 'once', lambda x: x.body.append(ast.Break()) or x
    elif t is ast.For:
        yield 'once', lambda x: x.body.append(ast.Break()) or x
        yield 'reverse', lambda x: setattr(x, 'iter', ast.Call(ast.Name('reversed', ast.Load()), [ast.Call(ast.Name('list', ast.Load()), [x.iter], [])], [])) or x
    elif t is ast.Break:
        yield 'break', lambda x: ast.Pass()
    elif t is ast.Continue:
        yield 'continue', lambda x: ast.Pass()
    elif t is ast.Expr and isinstance(node.value, ast.Call):
        yield 'delete', lambda x: ast.Pass()
    elif t is ast.AugAssign:
        yield 'delete', lambda x: ast.Pass()
        n = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.BitAnd: ast.BitOr}.get(type(node.op))
        if n:
            yield 'arith', lambda x: setattr(x, 'op', n()) or x
        yield 'assign', lambda x: ast.Assign([x.target], x.value, lineno=x.lineno)
    elif t is ast.Assign and isinstance(node.targets[0], (ast.Attribute, ast.Subscript)):
        yield 'delete', lambda x: ast.Pass()
    elif t is ast.Attribute and node.attr == 'T':
        yield 'uncall', lambda x: x.value


class At(ast.NodeTransformer):
    def __init__(self, n, fn):
        self.n, self.fn, self.i = n, fn, -1

    def visit(self, node):
        self.i += 1
        if self.i == self.n:
            return self.fn(node)
        return super().generic_visit(node)


def order(tree):
    """ nodes in the order At meets them """
    res = []

    class V(ast.NodeTransformer):
        def visit(self, node):
            res.append(node)
            return super().generic_visit(node)
    V().visit(tree)
    return res


def mutants(path):
    src = open(os.path.join(REPO, path)).read()
    tree = ast.parse(src)
    base = ast.unparse(tree)
    nodes = order(copy.deepcopy(tree))
    parent = {}
    for n in nodes:
        for c in ast.iter_child_nodes(n):
            parent[id(c)] = n
    seen = set()
    for i, n in enumerate(nodes):
        p, skip, stmt = n, False, None
        while p is not None:
            if isinstance(p, (ast.Raise, ast.Assert, ast.AnnAssign, ast.ImportFrom, ast.Import)) or isinstance(p, (ast.arg, ast.arguments)):
                skip = True
            if isinstance(p, ast.If) and p is not n and False:
                skip = True
            if isinstance(p, ast.FunctionDef):
                if id(n) and any(n is r or n in ast.walk(r) for r in ([p.returns] if p.returns else []) + p.decorator_list):
                    skip = True
                if p.name in ('__repr__', '__str__'):
                    skip = True
            if stmt is None and isinstance(p, ast.stmt):
                stmt = p
            p = parent.get(id(p))
        if skip:
            continue
        for name, fn in variants(n):
            t = copy.deepcopy(tree)
            try:
                t = ast.fix_missing_locations(At(i, fn).visit(t))
                out = ast.unparse(t)
                compile(out, path, 'exec')
            except Exception:
                continue
            if out == base or out in seen:
                continue
            seen.add(out)
            a, b = base.splitlines(), out.splitlines()
            k = 0
            while k < min(len(a), len(b)) and a[k] == b[k]:
                k += 1
            yield {'file': path, 'line': getattr(n, 'lineno', 0), 'op': name, 'old': a[k].strip() if k < len(a) else '', 'new': b[k].strip() if k < len(b) else ''}, out


def worker(w, q, out, lock, jobs):
    d = '{}/w{}'.format(TMP, w)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(['cp', '-a', REPO, d + '/repo'])
    subprocess.run('cp -a {} {}/verif; rm -rf {}/verif/.git {}/verif/seeded {}/verif/evidence'.format(VERIF, d, d, d, d), shell=True)
    env = dict(os.environ, VERIF_REPO=d + '/repo', VERIF_JOBS=str(jobs), VERIF_FAILFAST='1', VERIF_SHARD_TIMEOUT='150', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    while True:
        try:
            m, src = q.get_nowait()
        except queue.Empty:
            return
        path = d + '/repo/' + m['file']
        orig = open(path).read()
        t0 = time.time()
        try:
            open(path, 'w').write(src)
            killed, lines = None, []
            for c in CHECKS[m["file"]][:int(os.environ.get("MUT_CHECKS", "4"))]:
                try:
                    p = subprocess.run([PY, 'run_check.py', c, 'quick'], cwd=d + '/verif', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                except subprocess.TimeoutExpired:
                    killed = c + ' timeout'
                    break
                if p.returncode == 1 and 'VIOLATION' in p.stdout:
                    killed = c
                    break
                if p.returncode != 0:
                    lines.append('{} exit {}: {}'.format(c, p.returncode, p.stdout[-500:]))
        finally:
            open(path, 'w').write(orig)
        m = dict(m, killed=killed, odd=lines, wall=round(time.time() - t0, 1))
        with lock:
            with open(out, 'a') as f:
                f.write(json.dumps(m) + '\n')


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    opt = {'--workers': '4', '--jobs': '2', '--frac': '1.0', '--only': ''}
    pos = []
    while args:
        a = args.pop(0)
        if a in opt:
            opt[a] = args.pop(0)
        else:
            pos.append(a)
    if cmd == 'list':
        tot = 0
        for f in pos or CHECKS:
            n = sum(1 for _ in mutants(f))
            tot += n
            print(n, f)
        print(tot)
    elif cmd == 'show':
        ms = [json.loads(l) for l in open(pos[0])]
        print(len(ms), 'mutants', sum(1 for m in ms if m['killed']), 'killed')
        for m in ms:
            if not m['killed'] and (len(pos) < 2 or pos[1] in m['file']):
                print('{}:{} [{}] {}\n      -> {}'.format(m['file'].replace('aideme/', ''), m['line'], m['op'], m['old'], m['new']), *m['odd'])
    else:
        out, files = pos[0], pos[1:] or list(CHECKS)
        done = set()
        if os.path.exists(out):
            done = {(m['file'], m['line'], m['op'], m['old'], m['new']) for m in map(json.loads, open(out))}
        rnd = random.Random(1)
        q = queue.Queue()
        for f in files:
            for m, src in mutants(f):
                if rnd.random() < float(opt['--frac']) and (m['file'], m['line'], m['op'], m['old'], m['new']) not in done:
                    q.put((m, src))
        print(q.qsize(), 'mutants', flush=True)
        lock = threading.Lock()
        ts = [threading.Thread(target=worker, args=(w, q, out, lock, int(opt['--jobs']))) for w in range(int(opt['--workers']))]
        [t.start() for t in ts]
        [t.join() for t in ts]
        shutil.rmtree(TMP, ignore_errors=True)


main()
