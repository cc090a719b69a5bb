"""Behaviour-preserving rewrites of the whole package, to look for false alarms.
python3-vt tools/refactor.py NAME SRC DST [seed [share]]: rewrite every module of SRC/skcurve with the rewrite NAME into DST/skcurve.
Not part of any check."""
import ast
import copy
import os
import random
import sys

RNG = random.Random(0)
SHARE = 1.0
COUNT = [0]


def pick():
    if RNG.random() < SHARE:
        COUNT[0] += 1
        return True
    return False


def name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


def assign(n, v):
    return ast.Assign([name(n, ast.Store())], v)


class Fresh:
    n = 0

    @classmethod
    def get(cls, base='tmp'):
        cls.n += 1
        return f'{base}_{cls.n}'


def bodies(tree):
    for n in ast.walk(tree):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, f, b


def infunc(tree):
    """statement lists inside functions"""
    for fn in ast.walk(tree):
        if isinstance(fn, ast.FunctionDef):
            yield from bodies(fn)


def is_overload(fn):
    return any('overload' in ast.dump(d) for d in fn.decorator_list)


def r_return_temp(tree):
    seen = set()
    for n, f, b in infunc(tree):
        if id(b) in seen:
            continue
        seen.add(id(b))
        out = []
        for s in b:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)) and pick():
                t = Fresh.get('result')
                out += [assign(t, s.value), ast.Return(name(t))]
            else:
                out.append(s)
        b[:] = out


def r_flip_if(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)) and pick():
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body


def terminates(b):
    return isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def r_else_after_return(tree):
    """if c: return a; rest  ->  if c: return a else: rest"""
    seen = set()
    for n, f, b in list(infunc(tree)):
        if id(b) in seen:
            continue
        seen.add(id(b))
        for k in range(len(b) - 1):
            s = b[k]
            if isinstance(s, ast.If) and not s.orelse and terminates(s.body) and pick():
                s.orelse = b[k + 1:]
                del b[k + 1:]
                break


def r_no_else_after_return(tree):
    seen = set()
    for n, f, b in list(infunc(tree)):
        if id(b) in seen:
            continue
        seen.add(id(b))
        k = 0
        while k < len(b):
            s = b[k]
            if isinstance(s, ast.If) and s.orelse and terminates(s.body) and pick():
                b[k + 1:k + 1] = s.orelse
                s.orelse = []
            k += 1


def r_swap_compare(tree):
    flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in (ast.Lt, ast.Gt, ast.LtE, ast.GtE) and pick():
            n.left, n.comparators[0] = n.comparators[0], n.left
            n.ops[0] = flip[type(n.ops[0])]()


def r_comp_to_loop(tree):
    seen = set()
    for n, f, b in list(infunc(tree)):
        if id(b) in seen:
            continue
        seen.add(id(b))
        out = []
        for s in b:
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1 and pick():
                g = s.value.generators[0]
                t = Fresh.get('items')
                body = [ast.Expr(ast.Call(ast.Attribute(name(t), 'append', ast.Load()), [s.value.elt], []))]
                for c in reversed(g.ifs):
                    body = [ast.If(c, body, [])]
                out += [assign(t, ast.List([], ast.Load())), ast.For(g.target, g.iter, body, [])]
                s.value = name(t)
            out.append(s)
        b[:] = out


def r_ternary(tree):
    seen = set()
    for n, f, b in list(infunc(tree)):
        if id(b) in seen:
            continue
        seen.add(id(b))
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and pick():
                e = s.value
                a, c = copy.deepcopy(s), copy.deepcopy(s)
                a.value, c.value = e.body, e.orelse
                out.append(ast.If(e.test, [a], [c]))
            elif isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp) and pick():
                e = s.value
                out.append(ast.If(e.test, [ast.Return(e.body)], [ast.Return(e.orelse)]))
            else:
                out.append(s)
        b[:] = out


def r_split_and(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and pick():
            vals = n.test.values
            inner = ast.If(vals[-1] if len(vals) == 2 else ast.BoolOp(ast.And(), vals[1:]), n.body, [])
            n.test, n.body = vals[0], [inner]


def r_split_or(tree):
    """if a or b: return/raise  ->  two ifs"""
    seen = set()
    for n, f, b in list(infunc(tree)):
        if id(b) in seen:
            continue
        seen.add(id(b))
        out = []
        for s in b:
            if isinstance(s, ast.If) and not s.orelse and terminates(s.body) and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.Or) and pick():
                for v in s.test.values:
                    out.append(ast.If(v, copy.deepcopy(s.body), []))
            else:
                out.append(s)
        b[:] = out


def r_demorgan(tree):
    class T(ast.NodeTransformer):
        def visit_BoolOp(self, n):
            self.generic_visit(n)
            return n

    for n in ast.walk(tree):
        if isinstance(n, (ast.If, ast.While)) and isinstance(n.test, ast.BoolOp) and pick():
            o = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(o, [ast.UnaryOp(ast.Not(), v) for v in n.test.values]))


def has(b, kinds):
    return any(isinstance(x, kinds) for s in b for x in ast.walk(s))


def r_for_to_while(tree):
    seen = set()
    for n, f, b in list(infunc(tree)):
        if id(b) in seen:
            continue
        seen.add(id(b))
        out = []
        for s in b:
            if isinstance(s, ast.For) and not s.orelse and pick():
                it = Fresh.get('it')
                step = ast.Try([ast.Assign([s.target], ast.Call(name('next'), [name(it)], []))],
                               [ast.ExceptHandler(name('StopIteration'), None, [ast.Break()])], [], [])
                out += [assign(it, ast.Call(name('iter'), [s.iter], [])), ast.While(ast.Constant(True), [step] + s.body, [])]
            else:
                out.append(s)
        b[:] = out


def r_for_index(tree):
    """for x in seq -> for k, x in enumerate(seq)"""
    for n in ast.walk(tree):
        if isinstance(n, ast.For) and pick():
            n.iter = ast.Call(name('enumerate'), [n.iter], [])
            n.target = ast.Tuple([name(Fresh.get('pos'), ast.Store()), n.target], ast.Store())


def localnames(fn):
    args = {a.arg for a in fn.args.args + fn.args.kwonlyargs + [x for x in (fn.args.vararg, fn.args.kwarg) if x]}
    loc, ban = set(), set(args)
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            loc.add(x.id)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            ban.add(x.name)
        elif isinstance(x, (ast.Global, ast.Nonlocal)):
            ban.update(x.names)
        elif isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda)) and x is not fn:
            if not isinstance(x, ast.Lambda):
                ban.add(x.name)
                for y in ast.walk(x):
                    if isinstance(y, ast.Name):
                        ban.add(y.id)
            for y in ast.walk(x):
                if isinstance(y, ast.arg):
                    ban.add(y.arg)
    return loc - ban


def r_rename_locals(tree):
    for fn in ast.walk(tree):
        if isinstance(fn, ast.FunctionDef) and not any(isinstance(p, ast.ClassDef) for p in ast.walk(fn)):
            ln = {x: f'{x}_value' for x in sorted(localnames(fn))}
            if ln and pick():
                for x in ast.walk(fn):
                    if isinstance(x, ast.Name) and x.id in ln:
                        x.id = ln[x.id]


def r_arg_temp(tree):
    """first positional argument of a call that is the whole statement value goes to a variable"""
    seen = set()
    for n, f, b in list(infunc(tree)):
        if id(b) in seen:
            continue
        seen.add(id(b))
        out = []
        for s in b:
            v = getattr(s, 'value', None)
            if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and isinstance(v, ast.Call) and v.args and isinstance(v.func, (ast.Name, ast.Attribute)) \
                    and not (isinstance(v.func, ast.Attribute) and not isinstance(v.func.value, ast.Name)) \
                    and not isinstance(v.args[0], (ast.Name, ast.Constant, ast.Starred, ast.GeneratorExp)) and pick():
                t = Fresh.get('arg')
                out.append(assign(t, v.args[0]))
                v.args[0] = name(t)
            out.append(s)
        b[:] = out


def r_binop_temp(tree):
    """both operands of an arithmetic result are named"""
    seen = set()
    for n, f, b in list(infunc(tree)):
        if id(b) in seen:
            continue
        seen.add(id(b))
        out = []
        for s in b:
            v = getattr(s, 'value', None)
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, ast.BinOp) and pick():
                t, u = Fresh.get('left'), Fresh.get('right')
                out += [assign(t, v.left), assign(u, v.right)]
                v.left, v.right = name(t), name(u)
            out.append(s)
        b[:] = out


def r_helper(tree):
    """the body of a function moves to a function of the module (methods keep their decorators)"""
    new = []
    for cls in [None] + [x for x in tree.body if isinstance(x, ast.ClassDef)]:
        for fn in (tree.body if cls is None else cls.body):
            if not isinstance(fn, ast.FunctionDef) or is_overload(fn) or fn.name.startswith('__'):
                continue
            if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Nonlocal)) for x in ast.walk(fn)):
                continue
            if any(isinstance(x, ast.Name) and x.id in ('super', '__class__') for x in ast.walk(fn)) or 'stacklevel' in ast.dump(fn):
                continue
            if any('abstract' in ast.dump(d) for d in fn.decorator_list):
                continue
            if len(fn.body) < 2 or fn.args.posonlyargs:
                continue
            if not pick():
                continue
            doc = fn.body[:1] if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else []
            body = fn.body[len(doc):]
            if not body:
                continue
            hn = '_' + (cls.name.lower() + '_' if cls else '') + fn.name.strip('_') + '_impl'
            a = copy.deepcopy(fn.args)
            a.defaults, a.kw_defaults = [], [None] * len(a.kwonlyargs)
            for x in a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                x.annotation = None
            new.append(ast.FunctionDef(hn, a, body, [], None))
            call = ast.Call(name(hn), [name(x.arg) for x in fn.args.args] + ([ast.Starred(name(fn.args.vararg.arg), ast.Load())] if fn.args.vararg else []),
                            [ast.keyword(x.arg, name(x.arg)) for x in fn.args.kwonlyargs] + ([ast.keyword(None, name(fn.args.kwarg.arg))] if fn.args.kwarg else []))
            fn.body = doc + [ast.Return(call)]
    k = 0
    while k < len(tree.body) and (isinstance(tree.body[k], (ast.Import, ast.ImportFrom)) or (isinstance(tree.body[k], ast.Expr) and k == 0)):
        k += 1
    tree.body[k:k] = new


def r_reorder_defs(tree):
    """methods of a class in another order (those that others use at class level stay)"""
    for cls in ast.walk(tree):
        if isinstance(cls, ast.ClassDef):
            idx = [k for k, x in enumerate(cls.body) if isinstance(x, ast.FunctionDef)]
            used = {y.id for x in cls.body for d in (getattr(x, 'decorator_list', []) + ([] if isinstance(x, ast.FunctionDef) else [x])) for y in ast.walk(d) if isinstance(y, ast.Name)}
            names = [cls.body[k].name for k in idx]
            idx = [k for k in idx if cls.body[k].name not in used and names.count(cls.body[k].name) == 1]
            if idx and pick():
                fs = [cls.body[k] for k in idx]
                for k, f in zip(idx, reversed(fs)):
                    cls.body[k] = f


def r_listcomp_list(tree):
    class T(ast.NodeTransformer):
        def visit_ListComp(self, n):
            self.generic_visit(n)
            return ast.Call(name('list'), [ast.GeneratorExp(n.elt, n.generators)], []) if pick() else n
    T().visit(tree)


def r_fstring(tree):
    class T(ast.NodeTransformer):
        def visit_JoinedStr(self, n):
            if any(isinstance(v, ast.FormattedValue) and (v.conversion != -1 or v.format_spec) for v in n.values) or not pick():
                return n
            fmt = ''.join(v.value.replace('{', '{{').replace('}', '}}') if isinstance(v, ast.Constant) else '{}' for v in n.values)
            return ast.Call(ast.Attribute(ast.Constant(fmt), 'format', ast.Load()), [v.value for v in n.values if isinstance(v, ast.FormattedValue)], [])
    T().visit(tree)


def r_unpack(tree):
    """a, b = x, y with the right side in a tuple variable first"""
    seen = set()
    for n, f, b in list(infunc(tree)):
        if id(b) in seen:
            continue
        seen.add(id(b))
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Tuple) and not any(isinstance(e, ast.Starred) for e in s.targets[0].elts) \
                    and all(isinstance(e, ast.Name) for e in s.targets[0].elts) and pick():
                t = Fresh.get('parts')
                out.append(assign(t, s.value))
                for k, e in enumerate(s.targets[0].elts):
                    out.append(ast.Assign([e], ast.Subscript(name(t), ast.Constant(k), ast.Load())))
            else:
                out.append(s)
        b[:] = out


def r_kwargs(tree):
    """np calls: axis given by position where the function takes it second"""
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'np' \
                and n.func.attr in ('sum', 'any', 'all', 'min', 'max', 'argmin', 'argmax', 'cumsum', 'mean', 'sort', 'flip') and len(n.args) == 1 \
                and n.keywords and n.keywords[0].arg == 'axis' and pick():
            n.args.append(n.keywords.pop(0).value)


def r_method_form(tree):
    """np.sum(x, ...) of an expression that is an array for sure"""
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'np' \
                and n.func.attr in ('sum', 'any', 'all', 'cumsum') and n.args and isinstance(n.args[0], ast.BinOp) and pick():
            a = n.args.pop(0)
            n.func = ast.Attribute(ast.Call(ast.Attribute(name('np'), 'asarray', ast.Load()), [a], []), n.func.attr, ast.Load())


def r_noise(tree):
    """statements without effect"""
    for fn in ast.walk(tree):
        if isinstance(fn, ast.FunctionDef) and not is_overload(fn) and pick():
            k = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
            fn.body[k:k] = [assign(Fresh.get('unused'), ast.Tuple([ast.Constant(1), ast.Constant('x')], ast.Load())), ast.If(ast.Constant(False), [ast.Pass()], [])]


def r_try_finally(tree):
    for fn in ast.walk(tree):
        if isinstance(fn, ast.FunctionDef) and not is_overload(fn) and pick():
            k = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
            if fn.body[k:]:
                fn.body[k:] = [ast.Try(fn.body[k:], [], [], [ast.Pass()])]


def r_walrus_chain(tree):
    """chained comparisons and double negation in conditions"""
    for n in ast.walk(tree):
        if isinstance(n, (ast.If, ast.IfExp)) and pick():
            n.test = ast.UnaryOp(ast.Not(), ast.UnaryOp(ast.Not(), n.test))


def r_lambda_def(tree):
    """comprehension element through a nested function"""
    seen = set()
    for n, f, b in list(infunc(tree)):
        if id(b) in seen:
            continue
        seen.add(id(b))
        out = []
        for s in b:
            v = getattr(s, 'value', None)
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, ast.ListComp) and len(v.generators) == 1 and not v.generators[0].ifs \
                    and isinstance(v.generators[0].target, ast.Name) and pick():
                t = Fresh.get('make')
                g = v.generators[0]
                out.append(ast.FunctionDef(t, ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), [ast.Return(v.elt)], [], None))
                s.value = ast.Call(name('list'), [ast.Call(name('map'), [name(t), g.iter], [])], [])
            out.append(s)
        b[:] = out


def r_augassign(tree):
    """x -= y on a name bound to a value of the function itself is left alone; n += 1 on loop counters becomes n = n + 1"""
    class T(ast.NodeTransformer):
        def visit_AugAssign(self, n):
            if isinstance(n.target, ast.Name) and isinstance(n.value, ast.Constant) and pick():
                return assign(n.target.id, ast.BinOp(name(n.target.id), n.op, n.value))
            return n
    T().visit(tree)


REWRITES = {k[2:]: v for k, v in globals().items() if k.startswith('r_')}


def main():
    global SHARE
    which, src, dst = sys.argv[1:4]
    if len(sys.argv) > 4:
        RNG.seed(int(sys.argv[4]))
    if len(sys.argv) > 5:
        SHARE = float(sys.argv[5])
    for f in sorted(os.listdir(src + '/skcurve')):
        if f.endswith('.py'):
            tree = ast.parse(open(f'{src}/skcurve/{f}').read())
            for w in which.split('+'):
                REWRITES[w](tree)
            ast.fix_missing_locations(tree)
            text = ast.unparse(tree)
            ast.parse(text)
            open(f'{dst}/skcurve/{f}', 'w').write(text + '\n')
    print(which, COUNT[0], 'sites')


if __name__ == '__main__':
    if len(sys.argv) < 2:
        print(' '.join(REWRITES))
    else:
        main()
