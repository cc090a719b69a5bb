"""Mutation campaign: python3-vt tools/mutate.py OUTDIR [file...]
Every small syntactic change of a module is tried in a scratch copy; those that survive the test suite are given to the checks of the
properties anchored in that module.  Results go to OUTDIR/results.jsonl (state: killed by tests / caught / missed)."""
import ast
import concurrent.futures
import copy
import hashlib
import json
import os
import shutil
import subprocess
import sys
import threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
FILES = ['_base.py', '_diffgeom.py', '_numeric.py', '_utils.py', '_intersect.py', '_geomalg.py', '_interpolate.py', '_smooth.py', '_distance.py', 'curves.py', 'plot.py']
SWAP = {'minimum': 'maximum', 'maximum': 'minimum', 'any': 'all', 'all': 'any', 'min': 'max', 'max': 'min', 'argmin': 'argmax', 'argmax': 'argmin',
        'nanargmin': 'nanargmax', 'zeros_like': 'ones_like', 'sin': 'cos', 'cos': 'sin', 'deepcopy': 'copy', 'p1': 'p2', 'p2': 'p1',
        'segment1': 'segment2', 'segment2': 'segment1', 'isclose': 'equal', 'vstack': 'hstack', 'hstack': 'vstack', 'floor': 'ceil', 'ceil': 'floor',
        'tangent': 'firstderiv', 'firstderiv': 'secondderiv', 'secondderiv': 'firstderiv', 'chordlen': 'cumarclen', 'EXACT': 'ALMOST', 'ALMOST': 'EXACT',
        'before': 'after', 'after': 'before', 'frenet1': 'frenet2', 'frenet2': 'frenet1', 'add_collection': 'add_collection3d', 'size': 'ndim', 'ndim': 'size'}
UNWRAP = {'abs', 'copy', 'array', 'bool', 'int', 'float', 'asarray', 'list', 'tuple', 'sqrt', 'round', 'squeeze', 'flatten', 'astype', 'sort', 'unique'}
NAMES = {'segment1': 'segment2', 'segment2': 'segment1', 'curve1': 'curve2', 'curve2': 'curve1', 't1': 't2', 't2': 't1', 's1': 's2', 's2': 's1',
         'obj1': 'obj2', 'obj2': 'obj1', 'before': 'after', 'after': 'before', 'u': 'v', 'axis1': 'axis2', 'axis2': 'axis1'}


def skip_ids(tree):
    """annotations, docstrings, type aliases, imports"""
    out = set()

    def mark(n):
        for x in ast.walk(n):
            out.add(id(x))
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                mark(n.body[0])
        if isinstance(n, ast.FunctionDef):
            for a in n.args.args + n.args.kwonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]:
                if a.annotation:
                    mark(a.annotation)
            if n.returns:
                mark(n.returns)
            if n.name == '__repr__':
                mark(n)
        if isinstance(n, ast.AnnAssign):
            mark(n.annotation)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            mark(n)
        if isinstance(n, ast.If) and 'TYPE_CHECKING' in ast.unparse(n.test):
            mark(n)
        if isinstance(n, (ast.Raise, ast.JoinedStr)):
            mark(n)
        if isinstance(n, ast.Call) and ast.unparse(n.func) == 'warnings.warn':
            for a in n.args + n.keywords:
                mark(a)
        if isinstance(n, ast.Assign) and 'ty.' in ast.unparse(n.value)[:4]:
            mark(n)
    return out


def variants(node):
    """(description, replacement) for one node"""
    out = []

    def put(what, f):
        n = copy.deepcopy(node)
        r = f(n)
        out.append((what, n if r is None else r))
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        t = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
             ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}.get(type(node.ops[0]), [])
        for o in t:
            put('compare', lambda n, o=o: setattr(n, 'ops', [o()]))
    if isinstance(node, ast.BinOp):
        t = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd], ast.Mod: [ast.Mult]}.get(type(node.op), [])
        for o in t:
            put('operator', lambda n, o=o: setattr(n, 'op', o()))
        put('left operand only', lambda n: n.left)
        put('right operand only', lambda n: n.right)
    if isinstance(node, ast.BoolOp):
        put('and/or', lambda n: setattr(n, 'op', ast.Or() if isinstance(n.op, ast.And) else ast.And()))
        for i in range(len(node.values)):
            put('drop operand', lambda n, i=i: (setattr(n, 'values', n.values[:i] + n.values[i + 1:]), n if len(n.values) > 1 else n.values[0])[1])
    if isinstance(node, ast.UnaryOp) and not isinstance(node.operand, ast.Constant):
        put('drop unary', lambda n: n.operand)
    if isinstance(node, ast.Constant):
        v = node.value
        if isinstance(v, bool):
            put('constant', lambda n: setattr(n, 'value', not v))
        elif isinstance(v, int):
            put('constant', lambda n: setattr(n, 'value', v + 1))
            if v:
                put('constant', lambda n: setattr(n, 'value', v - 1))
        elif isinstance(v, float):
            put('constant', lambda n: setattr(n, 'value', v * 10 if v else 1.0))
            put('constant', lambda n: setattr(n, 'value', v / 10 if v else -1.0))
    if isinstance(node, ast.Call):
        for i, k in enumerate(node.keywords):
            if k.arg:
                put('drop keyword ' + k.arg, lambda n, i=i: n.keywords.pop(i) and None)
        if len(node.args) >= 2 and not any(isinstance(a, ast.Starred) for a in node.args[:2]):
            put('swap arguments', lambda n: setattr(n, 'args', [n.args[1], n.args[0]] + n.args[2:]))
        name = node.func.attr if isinstance(node.func, ast.Attribute) else getattr(node.func, 'id', '')
        if name in UNWRAP:
            if len(node.args) >= 1 and not isinstance(node.args[0], ast.Starred) and name not in ('astype',):
                put('unwrap ' + name, lambda n: n.args[0])
            elif isinstance(node.func, ast.Attribute):
                put('unwrap ' + name, lambda n: n.func.value)
    if isinstance(node, ast.Attribute) and node.attr in SWAP:
        put('attribute', lambda n: setattr(n, 'attr', SWAP[n.attr]))
    if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load) and (node.id in NAMES or node.id in SWAP):
        put('name', lambda n: setattr(n, 'id', NAMES.get(n.id) or SWAP[n.id]))
    if isinstance(node, ast.If) or isinstance(node, ast.IfExp):
        put('negate', lambda n: setattr(n, 'test', ast.UnaryOp(ast.Not(), n.test)))
    if isinstance(node, ast.IfExp):
        put('always first', lambda n: n.body)
        put('always second', lambda n: n.orelse)
    if isinstance(node, ast.If):
        put('never', lambda n: setattr(n, 'test', ast.Constant(False)))
        put('always', lambda n: setattr(n, 'test', ast.Constant(True)))
    if isinstance(node, ast.Slice):
        for f in ('lower', 'upper'):
            if getattr(node, f) is not None and not isinstance(getattr(node, f), ast.Constant):
                put('slice bound', lambda n, f=f: setattr(n, f, ast.BinOp(getattr(n, f), ast.Add(), ast.Constant(1))))
                put('slice bound', lambda n, f=f: setattr(n, f, None))
    if isinstance(node, (ast.Expr, ast.AugAssign)) or isinstance(node, ast.Assign) and not isinstance(node.targets[0], ast.Name):
        put('drop statement', lambda n: ast.Pass())
    if isinstance(node, ast.Raise):
        put('drop raise', lambda n: ast.Pass())
    if isinstance(node, ast.Return) and node.value is not None and isinstance(node.value, ast.Tuple) and len(node.value.elts) == 2:
        put('swap results', lambda n: n.value.elts.reverse())
    return out


class Repl(ast.NodeTransformer):
    def __init__(self, k, new):
        self.k, self.new, self.n = k, new, -1

    def visit(self, node):
        self.n += 1
        if self.n == self.k:
            return self.new
        return self.generic_visit(node)


def order(tree):
    out = []

    class V(ast.NodeTransformer):
        def visit(self, node):
            out.append(node)
            return self.generic_visit(node)
    V().visit(tree)
    return out


def mutants(src):
    tree = ast.parse(src)
    skip = skip_ids(tree)
    base = ast.unparse(tree)
    seen = {base}
    for k, node in enumerate(order(ast.parse(src))):
        pass
    nodes = order(tree)
    for k, node in enumerate(nodes):
        if id(node) in skip and not isinstance(node, ast.Raise):
            continue
        if isinstance(node, ast.Raise) and node.exc is None:
            continue
        for what, new in variants(node):
            t = Repl(k, ast.fix_missing_locations(new)).visit(ast.parse(src))
            try:
                s = ast.unparse(ast.fix_missing_locations(t))
                compile(s, 'x', 'exec')
            except Exception:
                continue
            if s in seen:
                continue
            seen.add(s)
            yield what, getattr(node, 'lineno', 0), ast.unparse(node).splitlines()[0][:100], ast.unparse(new).splitlines()[0][:100], s


local = threading.local()
count = [0]
lock = threading.Lock()


def scratch(out):
    if not hasattr(local, 'd'):
        with lock:
            count[0] += 1
            local.d = os.path.join(out, f'{"r" if os.environ.get("RETRY") else "w"}{count[0]}')
        shutil.rmtree(local.d, ignore_errors=True)
        shutil.copytree('/repo', local.d, symlinks=True, ignore=shutil.ignore_patterns('.git'))
    return local.d


def one(job):
    out, f, props, (what, line, old, new, src) = job
    d = scratch(out)
    p = os.path.join(d, 'skcurve', f)
    orig = open(os.path.join('/repo/skcurve', f)).read()
    open(p, 'w').write(src)
    r = {'file': f, 'line': line, 'what': what, 'old': old, 'new': new, 'id': hashlib.sha1(src.encode()).hexdigest()[:10]}
    try:
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', PYTHONPATH='.', MPLBACKEND='Agg')
        try:
            t = None if os.environ.get('RETRY') else subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=d, env=env, capture_output=True, text=True, timeout=120)
        except subprocess.TimeoutExpired:
            r['state'] = 'killed'
            return r
        if t and t.returncode:
            r['state'] = 'killed'
            return r
        env = dict(os.environ, VERIF_REPO=d, VERIF_SEED='1', VERIF_TIER='quick', VERIF_EVIDENCE=d + '/ev')
        for q in props:
            try:
                c = subprocess.run(['python3-vt', '-m', 'sa.run', q], cwd=ROOT, env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                r.setdefault('odd', []).append(q + ' timeout')
                continue
            if c.returncode == 1:
                ob = [x for x in c.stdout.splitlines() if 'obligation:' in x]
                r['state'], r['by'], r['how'] = 'caught', q, ob[0].strip() if ob else ''
                return r
            if c.returncode:
                r.setdefault('odd', []).append(q + ' exit ' + str(c.returncode))
        r['state'] = 'missed'
        return r
    finally:
        open(p, 'w').write(orig)


ORDER = {'_base.py': 'C03 C09 C06 C07 C38 C05 C04 C26 C24 C37 C25 C08 C30 C02 C12 C10 C13 C20 C01',
         '_diffgeom.py': 'C10 C11 C12 C09 C08 C28 C05', '_numeric.py': 'C25 C26 C10 C11 C12 C14 C13 C20', '_utils.py': 'C03 C05 C07 C30 C04',
         '_intersect.py': 'C06 C17 C18 C20 C21 C19 C22 C27', '_geomalg.py': 'C37 C24 C20 C23 C22', '_interpolate.py': 'C13 C14 C15 C17 C18 C27',
         '_smooth.py': 'C16 C17 C18 C27', '_distance.py': 'C25 C17 C24', 'curves.py': 'C28', 'plot.py': 'C29'}


def main():
    out = sys.argv[1]
    files = sys.argv[2:] or FILES
    os.makedirs(out, exist_ok=True)
    res = os.path.join(out, 'results.jsonl')
    past = {r['id']: r['state'] for r in map(json.loads, open(res))} if os.path.exists(res) else {}
    if os.environ.get('RETRY'):     # the ones missed so far, with today's checks
        done = {i for i, s in past.items() if s != 'missed'}
        known = set(past)
        res = os.path.join(out, 'retry.jsonl')
    else:
        done, known = set(past), None
    jobs = []
    for f in files:
        for m in mutants(open('/repo/skcurve/' + f).read()):
            i = hashlib.sha1(m[4].encode()).hexdigest()[:10]
            if i not in done and (known is None or i in known) and int(i[:4], 16) < 65536 * float(os.environ.get('SHARE', '1')):
                jobs.append((out, f, ORDER[f].split(), m))
    print(len(jobs), 'mutants')
    if os.environ.get('LIST'):
        return
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get('WORKERS', '7'))) as ex, open(res, 'a') as fh:
        for r in ex.map(one, jobs):
            fh.write(json.dumps(r) + '\n')
            fh.flush()


if __name__ == '__main__':
    main()
