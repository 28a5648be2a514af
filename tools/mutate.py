"""Systematic mutants of the library (not used by any check): which survive the tests, and which of those the checks miss.

mutate.py gen OUT SEED COUNT      choose mutants
mutate.py test IN OUT             run the stable tests on each; keep the survivors
mutate.py check IN OUT            run the checks on the survivors, until one catches
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SRC = '/repo/src/pymgrid/'
FILES = ['microgrid/microgrid.py', 'microgrid/utils/step.py', 'microgrid/trajectory/stochastic.py', 'microgrid/trajectory/deterministic.py',
         'microgrid/trajectory/base.py', 'microgrid/reward_shaping/base.py', 'microgrid/reward_shaping/pv_curtailment_shaper.py',
         'microgrid/reward_shaping/battery_discharge_shaper.py', 'modules/base/base_module.py', 'modules/base/timeseries/base_timeseries_module.py',
         'modules/battery_module.py', 'modules/genset_module.py', 'modules/grid_module.py', 'modules/load_module.py', 'modules/renewable_module.py',
         'modules/unbalanced_energy_module.py', 'modules/module_container.py', 'forecast/forecaster.py', 'utils/space.py', 'utils/serialize.py',
         'utils/logger.py', 'utils/eq.py', 'envs/base/base.py', 'envs/discrete/discrete.py', 'envs/continuous/continuous.py', 'algos/rbc/rbc.py',
         'algos/priority_list/priority_list.py', 'algos/priority_list/priority_list_element.py', 'convert/get_module.py', 'convert/to_nonmodular_ops.py', 'convert/convert.py', 'convert/get_empty_params.py']
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div]}
ORDER = ['C01', 'C02', 'C05', 'C06', 'C07', 'C03', 'C04', 'C12', 'C13', 'C14', 'C08', 'C15', 'C11', 'C09', 'C10', 'C16']


def sites(tree):
    """(line, description, function that changes the tree in place)"""
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0].value))
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                yield n.lineno, '%s->%s' % (type(n.ops[0]).__name__, o.__name__), lambda n=n, o=o: n.ops.__setitem__(0, o())
        elif isinstance(n, (ast.BinOp, ast.AugAssign)):
            for o in BIN.get(type(n.op), []):
                yield n.lineno, '%s->%s' % (type(n.op).__name__, o.__name__), lambda n=n, o=o: setattr(n, 'op', o())
        elif isinstance(n, ast.BoolOp):
            o = ast.Or if isinstance(n.op, ast.And) else ast.And
            yield n.lineno, 'and<->or', lambda n=n, o=o: setattr(n, 'op', o())
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            yield n.lineno, 'drop minus', lambda n=n: setattr(n, 'op', ast.UAdd())
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield n.lineno, 'drop not', lambda n=n: (setattr(n, 'op', ast.UAdd()), setattr(n, 'operand', ast.Call(ast.Name('bool', ast.Load()), [n.operand], [])))
        elif isinstance(n, ast.Constant) and id(n) not in doc:
            if isinstance(n.value, bool):
                yield n.lineno, '%s->%s' % (n.value, not n.value), lambda n=n: setattr(n, 'value', not n.value)
            elif isinstance(n.value, (int, float)):
                yield n.lineno, '%r+1' % n.value, lambda n=n: setattr(n, 'value', n.value + 1)
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            yield n.lineno, 'negate test', lambda n=n: setattr(n, 'test', ast.UnaryOp(ast.Not(), n.test))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('min', 'max'):
            yield n.lineno, 'min<->max', lambda n=n: setattr(n.func, 'id', 'max' if n.func.id == 'min' else 'min')
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('deepcopy', 'copy') and n.args:
            yield n.lineno, 'drop copy', lambda n=n: (setattr(n, 'func', ast.Lambda(ast.arguments([], [ast.arg('x')], None, [], [], None, [ast.Constant(None)]), ast.Name('x', ast.Load()))))
        elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords:
            yield n.lineno, 'swap arguments', lambda n=n: n.args.reverse()
        if hasattr(n, 'body') and isinstance(n.body, list):
            for i, s in enumerate(n.body):
                if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and isinstance(n, (ast.FunctionDef, ast.If, ast.For, ast.Try, ast.With)):
                    yield s.lineno, 'delete statement', lambda n=n, i=i: n.body.__setitem__(i, ast.copy_location(ast.Pass(), n.body[i]))


def mutate(path, k):
    tree = ast.parse(open(path).read())
    ss = list(sites(tree))
    line, what, f = ss[k]
    f()
    ast.fix_missing_locations(tree)
    return ast.unparse(tree)


def gen(out, seed, count):
    r = random.Random(int(seed))
    allm = []
    for f in FILES:
        if not os.path.exists(SRC + f):
            continue
        lines = open(SRC + f).read().split('\n')
        for k, (line, what, _) in enumerate(sites(ast.parse('\n'.join(lines)))):
            allm.append(dict(file=f, k=k, line=line, what=what, text=lines[line - 1].strip()))
    r.shuffle(allm)
    allm = allm[:int(count)] if int(count) > 0 else allm
    json.dump(allm, open(out, 'w'), indent=0)
    print(len(allm))


def tree(n):
    wt = '/tmp/m/wt%d' % n
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', wt], check=True)
    return wt


def env(wt):
    return dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONPATH=wt + '/src', PYTHONHASHSEED='0')


def put(wt, m):
    p = wt + '/src/pymgrid/' + m['file']
    orig = open(SRC + m['file']).read()
    open(p, 'w').write(mutate(SRC + m['file'], m['k']))
    return lambda: open(p, 'w').write(orig)


def test(inp, out):
    ms = json.load(open(inp))
    import queue
    q = queue.Queue()
    for n in range(8):
        q.put(tree(n))
    keep = []

    def one(m):
        wt = q.get()
        try:
            undo = put(wt, m)
            try:
                p = subprocess.run([PY, '-m', 'pytest', 'tests', '-x', '-q', '-p', 'no:cacheprovider', '--timeout=120', '-o', 'log_cli=false',
                                    '--deselect', 'tests/microgrid/modules/forecaster_tests/test_forecaster.py::TestGaussianNoiseForecaster::test_bad_shape'],
                                   cwd=wt, env=env(wt), capture_output=True, text=True, timeout=900)
                ok = p.returncode == 0
            except subprocess.TimeoutExpired:
                ok = False
            undo()
            if ok:
                keep.append(m)
                json.dump(keep, open(out, 'w'), indent=0)
        finally:
            q.put(wt)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, ms))
    print(len(ms), 'mutants,', len(keep), 'survive the tests')
    for n in range(8):
        shutil.rmtree('/tmp/m/wt%d' % n, ignore_errors=True)


def one(budget):
    """in a process of its own, with VERIF_REPO set: plans of all properties in turn until one fails"""
    import time
    sys.path.insert(0, V)
    from sim import env as E, runner, registry
    E.load()
    t0, i = time.time(), 0
    while time.time() - t0 < float(budget):
        for c in sorted(registry.PROPS):
            k = 4 * i
            for j in range(k, k + 4):
                o = runner.execute(c, runner.make_plan(c, 1, j))
                if o.cls:
                    print('CAUGHT %s %d %s: %s' % (c, j, o.cls, (o.msg or '')[:160]))
                    sys.stdout.flush()
                    os._exit(0)
        i += 1
    print('MISSED after %d plans of each' % (4 * i))
    sys.stdout.flush()
    os._exit(0)


def check(inp, out, budget='240', trees='8'):
    ms = json.load(open(inp))
    import queue
    q = queue.Queue()
    for n in range(int(trees)):
        q.put(tree(100 + n))
    done = []

    def f(m):
        wt = q.get()
        try:
            undo = put(wt, m)
            try:
                p = subprocess.run([PY, V + '/tools/mutate.py', 'one', budget], env=dict(env(wt), VERIF_REPO=wt), cwd='/tmp/m', capture_output=True, text=True, timeout=float(budget) + 400)
                text = ([l for l in p.stdout.splitlines() if l.startswith(('CAUGHT', 'MISSED'))] or ['ERROR ' + p.stderr[-200:].replace('\n', ' ')])[0]
            except subprocess.TimeoutExpired:
                text = 'TIMEOUT'
            undo()
            done.append(dict(m, result=text))
            json.dump(done, open(out, 'w'), indent=0)
            print(text[:90].ljust(90), '|', m['file'], m['line'], m['what'], '|', m['text'][:90])
            sys.stdout.flush()
        finally:
            q.put(wt)
    with ThreadPoolExecutor(int(trees)) as ex:
        list(ex.map(f, ms))
    for n in range(int(trees)):
        shutil.rmtree('/tmp/m/wt%d' % (100 + n), ignore_errors=True)


if __name__ == '__main__':
    dict(gen=gen, test=test, check=check, one=one)[sys.argv[1]](*sys.argv[2:])
