"""Interprocedural abstract interpreter for the Python subset the repository uses.

It walks the syntax trees of the repository (nothing of it is imported or run), keeps an abstract heap
(objects, arrays with value numbers, shapes, dtypes, ownership and write protection) and partitions traces
on branch conditions it cannot decide from the facts of the path.
"""
import ast
import time
import builtins
from collections.abc import MutableMapping
from fractions import Fraction
import os

from .terms import (Term, mk, P, padd, pmul, pscale, pconst, mkpoly, pdivexact, rsort, Facts, is_const, isint, INF, NUM)
from .values import *
from . import nf as NF
from .nf import nf, poly

MAXDEPTH = 70
CMP = {ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge', ast.Eq: 'eq', ast.NotEq: 'ne'}
BIN = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'div', ast.FloorDiv: 'floordiv', ast.Mod: 'mod',
       ast.Pow: 'pow', ast.MatMult: 'matmul', ast.BitAnd: 'and_', ast.BitOr: 'or_', ast.BitXor: 'xor',
       ast.LShift: 'lshift', ast.RShift: 'rshift'}
DUNDER = {'add': 'add', 'sub': 'sub', 'mul': 'mul', 'div': 'truediv', 'floordiv': 'floordiv', 'mod': 'mod', 'pow': 'pow',
          'matmul': 'matmul', 'and_': 'and', 'or_': 'or', 'xor': 'xor', 'lshift': 'lshift', 'rshift': 'rshift'}
PYOP = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'div': lambda a, b: a / b,
        'floordiv': lambda a, b: a // b, 'mod': lambda a, b: a % b, 'pow': lambda a, b: a ** b,
        'and_': lambda a, b: a & b, 'or_': lambda a, b: a | b, 'xor': lambda a, b: a ^ b,
        'lshift': lambda a, b: a << b, 'rshift': lambda a, b: a >> b,
        'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b,
        'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b}
SWAP = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}
from .values import MISSING


class Ret:
    __slots__ = ('v', 'site')

    def __init__(self, v, site=None):
        self.v = v
        self.site = site


BREAK, CONT = 'break', 'continue'


def scope_of(node):
    """(assigned names, globals, nonlocals, is generator) of a function node"""
    s = getattr(node, '_scope', None)
    if s is not None:
        return s
    names, gl, nl = set(), set(), set()
    gen = [False]
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    for x in (a.vararg, a.kwarg):
        if x:
            names.add(x.arg)

    def target(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                target(e)
        elif isinstance(t, ast.Starred):
            target(t.value)

    def walk(n, top=False):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                names.add(c.name)
                for d in c.decorator_list:
                    walk(ast.Expression(d))
                continue
            if isinstance(c, ast.Lambda):
                continue
            if isinstance(c, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                for sub in ast.walk(c):
                    if isinstance(sub, ast.NamedExpr):
                        target(sub.target)
                continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)):
                gen[0] = True
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                names.add(c.id)
            elif isinstance(c, ast.Global):
                gl.update(c.names)
            elif isinstance(c, ast.Nonlocal):
                nl.update(c.names)
            elif isinstance(c, ast.ExceptHandler) and c.name:
                names.add(c.name)
            elif isinstance(c, (ast.Import, ast.ImportFrom)):
                for al in c.names:
                    names.add((al.asname or al.name).split('.')[0])
            walk(c)

    if isinstance(node, ast.Lambda):
        walk(ast.Expression(node.body))
    else:
        for st in node.body:
            walk(ast.Module([st], []))
    s = (names - gl - nl, gl, nl, gen[0])
    node._scope = s
    return s


class AttrsView(MutableMapping):
    """the live __dict__ of an instance, as the table of a dictionary value"""

    def __init__(self, I, obj):
        self.I, self.obj = I, obj

    def __getitem__(self, h):
        if h[0] != 'c' or h[1] not in self.obj.attrs:
            raise KeyError(h)
        return (h[1], self.obj.attrs[h[1]])

    def __setitem__(self, h, kv):
        if h[0] != 'c':
            raise Unsupported('__dict__ key')
        self.I.touch(self.obj)
        self.I.event('setattr', self.obj, h[1])
        self.obj.attrs[h[1]] = kv[1]

    def __delitem__(self, h):
        if h[0] != 'c' or h[1] not in self.obj.attrs:
            raise KeyError(h)
        self.I.touch(self.obj)
        self.I.event('delattr', self.obj, h[1])
        del self.obj.attrs[h[1]]

    def __iter__(self):
        return iter([('c', k) for k in self.obj.attrs])

    def __len__(self):
        return len(self.obj.attrs)


class Interp:
    def __init__(self, roots):
        """roots: list of (package name, directory)"""
        self.roots = dict(roots)
        self.modules = {}
        self.sources = {}
        self.builtins = {}
        self.path_epoch = 0
        self.journal = []
        self.analysed = set()
        self.pool = []
        self.exits = {}
        self.symbounds = {}
        self.opaque_shapes = {}
        self.opaque_attrs = {}
        self.concretise = False
        self.path_deadline = float('inf')
        self.reset_path([])
        from . import models
        self.M = models.Models(self)
        self.builtins = self.M.builtins

    # ------------------------------------------------------------ path state
    def reset_path(self, prefix):
        self.prefix = list(prefix)
        self.taken = []
        self.alts = []
        self.trace = []          # (cond term, bool, site)
        self.facts = Facts()
        self.events = []
        self.stack = []          # qualnames
        self.site = None
        self.counters = {}
        self.steps = 0
        self.loops = []
        self.iterations = []
        self.shape_cache = {}
        self.handling = []
        self.labels = {}
        self.warnctx = []
        self.last_return = None
        self.limits = {}         # integer array -> exclusive upper bound of its (non-negative) elements
        self.concretise = False  # decide every element of a small boolean array whose true positions are asked for
        self.enumidx = {}        # position of an item of a filtered list -> that item
        self._live, self._livek = None, 0

    # ------------------------------------------------------------ sample interpretations
    def live(self):
        """sample interpretations that satisfy the conditions of the path so far"""
        if self._live is None:
            self._live, self._livek = list(self.pool), 0
        while self._livek < len(self.trace):
            t, val, _ = self.trace[self._livek]
            self._livek += 1
            self._live = [e for e in self._live if self.satisfies(e, t, val)]
        if len(self._live) < self.minlive and self.trace and self.reserve > 0 and self.counters.get('refill', 0) < len(self.trace):
            self.counters['refill'] = len(self.trace)
            self.refill()
        return self._live

    minlive = 3
    reserve = 0
    fresh_env = None

    def refill(self):
        """look for more interpretations that follow the path"""
        have = len(self._live)
        k = min(self.reserve, 150)
        self.reserve -= k
        tight, hints = self.guidance()
        for j in range(k):
            e = self.fresh_env()
            if j % 2 == 0:
                e.bounds = {**e.bounds, **tight}
            if j % 3 != 0:
                e.hints = hints
            if all(self.satisfies(e, t, v) for t, v, _ in self.trace):
                self.pool.append(e)
                self._live.append(e)
                if len(self._live) >= have + 8:
                    break

    def guidance(self):
        """bounds of the size symbols on this path and the constants its conditions mention"""
        tight = {}
        for t, (lo, hi) in self.symbounds.items():
            if not (is_const(lo) and is_const(hi)):
                continue
            try:
                a, b = self.facts.lower(P(t)), -self.facts.lower(padd({}, P(t), -1))
            except Exception:
                continue
            a, b = max(a, lo), min(b, hi)
            if a <= b and (a > lo or b < hi):
                tight[t] = (a, b)
        hints, seen, st = [], set(), [t for t, _, _ in self.trace[-12:]]
        while st and len(hints) < 12:
            x = st.pop()
            if isinstance(x, (tuple, list)):
                st.extend(x)
            elif isinstance(x, Term):
                if x.id not in seen:
                    seen.add(x.id)
                    st.extend(x.args)
            elif isinstance(x, (int, float, Fraction)) and not isinstance(x, bool) and x == x and 1e-13 < abs(x) < 1e13 and x not in (1, -1, 2, -2):
                if x not in hints:
                    hints.append(float(x))
        return tight, hints

    @staticmethod
    def satisfies(e, t, val):
        try:
            return bool(e.ev(t)) == val
        except (NF.EvalError, NF.EvalUnknown, NF.OffPath, ValueError, TypeError):
            return False

    def iterate_seq(self, v):
        s = self.iterate(v)
        return s if isinstance(s, list) else [s]

    def fresh_bound(self):
        i = mk('sym', (f'q{self.count("bound")}', ('bound',)), 'i')
        self.facts.bounds[i] = (0, INF)
        return i

    def isfull(self, loop):
        return not any(NF.mentions(t, loop.index) for t, _, _ in self.trace[loop.tracelen:])

    def touch(self, obj):
        """declare that obj is about to be changed"""
        if obj.epoch == 0 and self.path_epoch:
            if not any(o is obj for o, _ in self.journal):
                self.journal.append((obj, obj.snap()))
            self.event('basewrite', obj)

    def undo(self):
        for o, s in reversed(self.journal):
            o.restore(s)
        self.journal = []

    def new(self, obj):
        obj.epoch = self.path_epoch
        if type(obj) is Lst and self.loops:
            obj.loop = self.loops[-1]
        return obj

    def event(self, kind, *data):
        self.events.append((kind,) + data + (self.site, tuple(self.stack[-6:])))

    def count(self, key):
        n = self.counters.get(key, 0)
        self.counters[key] = n + 1
        return n

    def label(self, obj):
        k = id(obj)
        if k not in self.labels:
            self.labels[k] = (len(self.labels), obj)
        return self.labels[k][0]

    # ------------------------------------------------------------ decisions
    def decide(self, n):
        k = len(self.taken)
        if k < len(self.prefix):
            c = self.prefix[k]
        else:
            c = 0
            for j in range(1, n):
                self.alts.append((self.taken + [j], False))
        self.taken.append(c)
        return c

    def decide_cond(self, t):
        k = len(self.taken)
        if k < len(self.prefix):
            c = self.prefix[k]
        else:
            cnt = [0, 0]
            live = self.live()
            for e in live:
                try:
                    cnt[0 if bool(e.ev(t)) else 1] += 1
                except (NF.EvalError, NF.EvalUnknown, NF.OffPath, ValueError, TypeError):
                    pass
            c = 0 if cnt[0] >= cnt[1] else 1
            self.alts.append((self.taken + [1 - c], cnt[1 - c] == 0))
        self.taken.append(c)
        return c == 0

    def truth_term(self, t):
        r = self.known(t)
        if r is not None:
            return r
        if t.op == 'not':
            return not self.truth_term(t.args[0])
        if t.op in ('and', 'conj') and t.sort != 'A':
            for a in t.args:
                if not self.truth(a):
                    return False
            return True
        if t.op == 'or' and t.sort != 'A':
            for a in t.args:
                if self.truth(a):
                    return True
            return False
        val = self.decide_cond(t)
        self.record(t, val)
        return val

    def record(self, t, val):
        self.trace.append((t, val, self.site))
        self.learn(t, val)

    SIGNS = {'lt': {-1}, 'le': {-1, 0}, 'gt': {1}, 'ge': {0, 1}, 'eq': {0}, 'ne': {-1, 1}}

    def numeric_cmp(self, t):
        if t.op in self.SIGNS and t.sort != 'A' and len(t.args) == 2:
            for a in t.args:
                if isinstance(a, Term):
                    if a.sort not in ('i', 'I', 'f', 'F') or a.op == 'attr':
                        return False
                elif isinstance(a, bool) or not isinstance(a, (int, float)) or a != a:
                    return False
            return True
        return False

    def known(self, t):
        """truth of a condition from the facts of the path, or None"""
        if not isinstance(t, Term):
            return bool(t)
        if t.op == 'not':
            r = self.known(t.args[0])
            return None if r is None else not r
        if t.op in ('and', 'conj', 'or') and t.sort != 'A':
            rs = [self.known(a) for a in t.args]
            stop = t.op == 'or'
            if stop in rs:
                return stop
            if all(r is (not stop) for r in rs):
                return not stop
        if self.numeric_cmp(t):
            p = padd(poly(t.args[0]), poly(t.args[1]), -1)
            S = self.facts.sign_real(p)
            want = self.SIGNS[t.op]
            if S <= want:
                return True
            if not S & want:
                return False
            return None
        c = nf(t)
        if not isinstance(c, Term):
            return bool(c)
        neg = False
        if c.op == 'not':
            c, neg = c.args[0], True
        if c.sort != 'A' and c.op in ('pos', 'zero'):
            S = self.facts.sign_real(P(c.args[0]))
            want = {1} if c.op == 'pos' else {0}
            r = True if S <= want else (False if not S & want else None)
        elif c.op == 'conj':
            rs = [self.facts.conds.get(a) for a in c.args]
            r = False if False in rs else (True if all(x is True for x in rs) else self.facts.conds.get(c))
        else:
            r = self.facts.conds.get(c)
        if r is None:
            return None
        return (not r) if neg else r

    def learn(self, t, val):
        if t.op == 'not':
            return self.learn(t.args[0], not val)
        if self.numeric_cmp(t):
            p = padd(poly(t.args[0]), poly(t.args[1]), -1)
            want = self.SIGNS[t.op]
            self.facts.assume_sign(p, want if val else {-1, 0, 1} - want)
            return
        c = nf(t)
        if not isinstance(c, Term):
            return
        if c.op == 'not':
            c, val = c.args[0], not val
        if c.sort != 'A' and c.op in ('pos', 'zero'):
            want = {1} if c.op == 'pos' else {0}
            self.facts.assume_sign(P(c.args[0]), want if val else {-1, 0, 1} - want)
        self.facts.conds[c] = val
        if c.op == 'conj' and val:
            for a in c.args:
                self.learn(a, True)
        if c.op == 'all' and val and isinstance(c.args[0], Term) and c.args[0].op == 'conj' :
            for a in c.args[0].args:
                self.facts.conds[nf(mk('all', (a,) + c.args[1:], c.sort))] = True

    def assume(self, t):
        r = self.known(t)
        if r is True:
            return
        if r is False:
            raise Infeasible
        if t.op in ('and', 'conj') and t.sort != 'A':
            for a in t.args:
                self.assume(a)
            return
        self.record(t, True)

    # ------------------------------------------------------------ truth of values
    def truth(self, v):
        if v is None or isinstance(v, (bool, int, float, str, bytes, complex)):
            return bool(v)
        if isinstance(v, Term):
            if v.sort in ('i', 'I', 'f', 'F'):
                return self.truth_term(self.cmp('ne', v, 0)) if isinstance(self.cmp('ne', v, 0), Term) else self.cmp('ne', v, 0)
            return self.truth_term(v)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, (Lst, Dct, SetV)):
            n = self.length(v)
            return self.truth(self.cmp('gt', n, 0))
        if isinstance(v, NdArr):
            return self.M.array_truth(v)
        if isinstance(v, ObjArr):
            raise Unsupported('truth of an object array')
        if isinstance(v, Inst):
            f, _ = v.cls.lookup('__bool__')
            if f is not None:
                return self.truth(self.call(Bound(f, v), [], {}))
            f, _ = v.cls.lookup('__len__')
            if f is not None:
                return self.truth(self.call(Bound(f, v), [], {}))
            if v.cls.kind == 'enum' and v.cls.extra == 'int':
                return self.truth(v.attrs['_value_'])
            return True
        if isinstance(v, RangeV):
            return self.truth(self.cmp('gt', self.length(v), 0))
        if isinstance(v, SymSeq):
            return self.truth(self.cmp('gt', v.length, 0))
        if v is NOTIMPL:
            return True
        return True

    # ------------------------------------------------------------ modules
    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        top = name.split('.')[0]
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *name.split('.')[1:])
        path = os.path.join(base, '__init__.py') if os.path.isdir(base) else base + '.py'
        if not os.path.exists(path):
            return None
        with open(path, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, path)
        m = self.new(Mod(name, path))
        self.modules[name] = m
        self.sources[path] = src
        m.ns['__name__'] = name
        m.ns['__file__'] = path
        if '.' in name:
            parent = self.load(name.rsplit('.', 1)[0])
        else:
            parent = None
        fr = self.new(Frame(None, m, None, None, set(), set()))
        fr.vars = m.ns
        saved = self.site
        st = self.exec_block(tree.body, fr)
        self.site = saved
        m.done = True
        if parent is not None:
            parent.ns[name.rsplit('.', 1)[1]] = m
        return m

    def load_source(self, name, src, path, extra=None):
        tree = ast.parse(src, path)
        m = self.new(Mod(name, path))
        m.ns.update(extra or {})
        self.modules[name] = m
        self.sources[path] = src
        m.ns['__name__'] = name
        fr = self.new(Frame(None, m, None, None, set(), set()))
        fr.vars = m.ns
        self.exec_block(tree.body, fr)
        m.done = True
        return m

    def import_(self, name):
        """value bound by `import name` for the full dotted path"""
        m = self.load(name)
        if m is not None:
            return m
        if name.split('.')[0] in self.roots:
            self.throw('ModuleNotFoundError', f'No module named {name!r}')
        return Ext(name)

    # ------------------------------------------------------------ statements
    def exec_block(self, body, fr):
        for st in body:
            r = self.exec(st, fr)
            if r is not None:
                return r
        return None

    def setsite(self, node, fr):
        if hasattr(node, 'lineno'):
            self.site = (fr.mod.path, node.lineno)

    def exec(self, st, fr):
        self.steps += 1
        if self.steps > 400000:
            raise Unsupported('step limit')
        if not self.steps & 15 and time.time() > self.path_deadline:
            raise Unsupported('time limit of a path')
        self.setsite(st, fr)
        m = getattr(self, 'x_' + type(st).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(st).__name__}')
        return m(st, fr)

    def x_Expr(self, st, fr):
        self.ev(st.value, fr)

    def x_Pass(self, st, fr):
        pass

    def x_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)
        elif fr.fn is None and isinstance(st.target, ast.Name) and '__annotations_order__' in fr.vars:
            fr.vars['__annotations_order__'].append(st.target.id)
        if st.value is not None and isinstance(st.target, ast.Name) and '__annotations_order__' in fr.vars:
            fr.vars['__annotations_order__'].append(st.target.id)

    def x_AugAssign(self, st, fr):
        op = BIN[type(st.op)]
        tgt = st.target
        if isinstance(tgt, ast.Name):
            cur = self.lookup(tgt.id, fr)
            v = self.ev(st.value, fr)
            self.assign(tgt, self.inplace(op, cur, v), fr)
        elif isinstance(tgt, ast.Attribute):
            o = self.ev(tgt.value, fr)
            cur = self.getattr(o, tgt.attr)
            v = self.ev(st.value, fr)
            self.setattr(o, tgt.attr, self.inplace(op, cur, v))
        elif isinstance(tgt, ast.Subscript):
            o = self.ev(tgt.value, fr)
            i = self.ev_index(tgt.slice, fr)
            cur = self.getitem(o, i)
            v = self.ev(st.value, fr)
            self.setitem(o, i, self.inplace(op, cur, v))
        else:
            raise Unsupported('augmented target')

    def inplace(self, op, cur, v):
        if isinstance(cur, NdArr):
            return self.M.array_inplace(op, cur, v)
        if isinstance(cur, Lst) and op == 'add':
            self.list_extend(cur, v)
            return cur
        if isinstance(cur, Inst):
            f, _ = cur.cls.lookup(f'__i{DUNDER[op]}__')
            if f is not None:
                r = self.call(Bound(f, cur), [v], {})
                if r is not NOTIMPL:
                    return r
        if isinstance(cur, SetV) and op == 'or_':
            self.touch(cur)
            cur.items.extend(x for x in self.concrete_list(v) if not self.in_list(x, cur.items))
            return cur
        return self.binop(op, cur, v)

    def x_Return(self, st, fr):
        v = self.ev(st.value, fr) if st.value is not None else None
        return Ret(v, (fr.mod.path, st.lineno))

    def x_If(self, st, fr):
        c = self.truth(self.ev(st.test, fr))
        return self.exec_block(st.body if c else st.orelse, fr)

    def x_Break(self, st, fr):
        return BREAK

    def x_Continue(self, st, fr):
        return CONT

    def x_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.touch(fr)
                fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                i = self.ev_index(t.slice, fr)
                self.delitem(o, i)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                if isinstance(o, Inst) and t.attr in o.attrs:
                    self.touch(o)
                    self.event('delattr', o, t.attr)
                    del o.attrs[t.attr]
                else:
                    self.throw('AttributeError', t.attr)

    def x_Assert(self, st, fr):
        if not self.truth(self.ev(st.test, fr)):
            self.throw('AssertionError', '')

    def x_Global(self, st, fr):
        pass

    x_Nonlocal = x_Global

    def x_Import(self, st, fr):
        for al in st.names:
            v = self.import_(al.name)
            if al.asname:
                self.store(al.asname, v, fr)
            else:
                top = al.name.split('.')[0]
                self.store(top, self.import_(top), fr)

    def x_ImportFrom(self, st, fr):
        if st.level:
            pkg = fr.mod.name if fr.mod.path.endswith('__init__.py') else fr.mod.name.rsplit('.', 1)[0]
            for _ in range(st.level - 1):
                pkg = pkg.rsplit('.', 1)[0]
            base = pkg + ('.' + st.module if st.module else '')
        else:
            base = st.module
        if base == '__future__':
            return
        m = self.import_(base)
        for al in st.names:
            if al.name == '*':
                if isinstance(m, Mod):
                    names = m.ns.get('__all__')
                    names = [x for x in names.items] if isinstance(names, Lst) else [k for k in m.ns if not k.startswith('_')]
                    for k in names:
                        self.store(k, m.ns[k], fr)
                continue
            if isinstance(m, Mod):
                if al.name in m.ns:
                    v = m.ns[al.name]
                else:
                    v = self.load(base + '.' + al.name)
                    if v is None:
                        self.throw('ImportError', f'cannot import name {al.name!r} from {base!r}')
            else:
                v = self.M.ext_attr(m, al.name)
            self.store(al.asname or al.name, v, fr)

    def x_FunctionDef(self, st, fr):
        f = self.make_fn(st, fr)
        for d in reversed(st.decorator_list):
            self.setsite(d, fr)
            f = self.call(self.ev(d, fr), [f], {})
        self.store(st.name, f, fr)

    def make_fn(self, node, fr):
        defaults = [self.ev(d, fr) for d in node.args.defaults]
        kwd = {a.arg: self.ev(d, fr) for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None}
        name = getattr(node, 'name', '<lambda>')
        sc = scope_of(node)
        qual = (fr.vars.get('__qualname__') + '.' if fr.fn is None and isinstance(fr.vars.get('__qualname__'), str) else
                (fr.fn.qualname + '.<locals>.' if isinstance(fr.fn, Fn) else '')) + name
        fn = self.new(Fn(node, fr.mod, fr, defaults, kwd, name, qual, sc, sc[3]))
        fn.attrs['__name__'] = name
        fn.attrs['__qualname__'] = qual
        fn.attrs['__doc__'] = None if isinstance(node, ast.Lambda) else ast.get_docstring(node)
        fn.attrs['__module__'] = fr.mod.name
        return fn

    def x_ClassDef(self, st, fr):
        bases = [self.ev(b, fr) for b in st.bases]
        kws = {k.arg: self.ev(k.value, fr) for k in st.keywords}
        cfr = self.new(Frame(None, fr.mod, fr, None, set(), set()))
        cfr.vars['__annotations_order__'] = []
        outer = fr.vars.get('__qualname__') if fr.fn is None and fr.locals is None else None
        cfr.vars['__qualname__'] = (outer + '.' if isinstance(outer, str) and fr.selfcls is not None else '') + st.name
        cfr.selfcls = st.name
        self.exec_block(st.body, cfr)
        ns = dict(cfr.vars)
        ann = ns.pop('__annotations_order__', [])
        c = self.M.make_class(st.name, bases, ns, fr.mod, ann, kws)
        for d in reversed(st.decorator_list):
            self.setsite(d, fr)
            c = self.call(self.ev(d, fr), [c], {})
        self.store(st.name, c, fr)

    def x_With(self, st, fr):
        return self.with_items(st, fr, 0)

    def with_items(self, st, fr, k):
        if k == len(st.items):
            return self.exec_block(st.body, fr)
        it = st.items[k]
        cm = self.ev(it.context_expr, fr)
        isinst = isinstance(cm, Inst)
        v = self.call(self.getattr(cm, '__enter__'), [], {}) if isinst else self.M.ctx_enter(cm)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)
        try:
            r = self.with_items(st, fr, k + 1)
        except AbsRaise as e:
            if isinst:
                s = self.call(self.getattr(cm, '__exit__'), [e.exc.cls, e.exc, None], {})
                if self.truth(s):
                    return None
            else:
                self.M.ctx_exit(cm)
                if self.M.suppresses(cm, e.exc):
                    return None
            raise
        if isinst:
            self.call(self.getattr(cm, '__exit__'), [None, None, None], {})
        else:
            self.M.ctx_exit(cm)
        return r

    def x_Raise(self, st, fr):
        if st.exc is None:
            if not self.handling:
                self.throw('RuntimeError', 'No active exception to reraise')
            raise AbsRaise(self.handling[-1], self.site)
        e = self.ev(st.exc, fr)
        if isinstance(e, (Cls, Ext)):
            e = self.call(e, [], {})
        if isinstance(e, Term) or not isinstance(e, Inst):
            e = self.M.opaque_exception(e)
        cause = MISSING
        if st.cause is not None:
            cause = self.ev(st.cause, fr)
        if self.handling and '__context__' not in e.attrs and self.handling[-1] is not e:
            self.touch(e)
            e.attrs['__context__'] = self.handling[-1]
        if cause is not MISSING:
            self.touch(e)
            e.attrs['__cause__'] = cause
        self.setsite(st, fr)
        raise AbsRaise(e, self.site)

    def x_Try(self, st, fr):
        try:
            try:
                r = self.exec_block(st.body, fr)
            except AbsRaise as err:
                h = self.find_handler(st.handlers, err.exc, fr)
                if h is None:
                    raise
                if h.name:
                    self.store(h.name, err.exc, fr)
                self.handling.append(err.exc)
                try:
                    r = self.exec_block(h.body, fr)
                finally:
                    self.handling.pop()
            else:
                if r is None:
                    r = self.exec_block(st.orelse, fr)
        except AbsRaise:
            if st.finalbody:
                f = self.exec_block(st.finalbody, fr)
                if f is not None:
                    return f
            raise
        if st.finalbody:
            f = self.exec_block(st.finalbody, fr)
            if f is not None:
                return f
        return r

    def find_handler(self, handlers, exc, fr):
        for h in handlers:
            if h.type is None:
                return h
            t = self.ev(h.type, fr)
            if self.truth(self.M.isinstance_(exc, t)):
                return h
        return None

    def while_as_for(self, st, fr):
        """a while loop that steps through an iterator or counts up to a bound, as the for loop it is"""
        if not hasattr(st, '_pattern'):
            st._pattern = self.while_pattern(st)
        if st._pattern is None:
            return None
        how, loop, name = st._pattern
        if how == 'next':
            it = self.ev(loop.iter, fr)
            if not isinstance(it, Iter) or not isinstance(it.src, list) or not any(isinstance(x, (SymSeq, Each)) for x in it.src[it.pos:]):
                return None
            return loop, None, None
        bound = self.ev(loop.iter.args[1], fr)
        i = fr.vars.get(name)
        if not isinstance(i, int) or isinstance(i, bool) or not isinstance(bound, Term) or bound.sort not in 'iI':
            return None
        return loop, name, bound

    def while_pattern(self, st):
        def copy_for(target, it, body):
            loop = ast.For(target=target, iter=it, body=body or [ast.Pass()], orelse=[], type_comment=None)
            return ast.fix_missing_locations(ast.copy_location(loop, st))

        def continues(body):
            for b in body:
                if isinstance(b, ast.Continue):
                    return True
                if isinstance(b, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef)):
                    continue
                for f in ('body', 'orelse', 'finalbody', 'handlers'):
                    if continues(getattr(b, f, [])):
                        return True
            return False
        t, body = st.test, st.body
        if isinstance(t, ast.Constant) and t.value in (True, 1):
            b = body[0]
            if isinstance(b, ast.Try) and len(b.body) == 1 and isinstance(b.body[0], ast.Assign) and len(b.body[0].targets) == 1 and len(b.handlers) == 1 and not b.finalbody:
                c, h = b.body[0].value, b.handlers[0]
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'next' and len(c.args) == 1 and isinstance(c.args[0], ast.Name) and not c.keywords \
                        and isinstance(h.type, ast.Name) and h.type.id == 'StopIteration' and len(h.body) == 1 and isinstance(h.body[0], ast.Break):
                    return 'next', copy_for(b.body[0].targets[0], c.args[0], b.orelse + body[1:]), None
            return None
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            left, right = t.left, t.comparators[0]
            if isinstance(t.ops[0], ast.Gt):
                left, right = right, left
            elif not isinstance(t.ops[0], ast.Lt):
                return None
            if not isinstance(left, ast.Name) or st.orelse:
                return None
            name, last = left.id, body[-1]
            step = last.value if isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == name else None
            if isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and last.targets[0].id == name and isinstance(last.value, ast.BinOp) \
                    and isinstance(last.value.op, ast.Add) and isinstance(last.value.left, ast.Name) and last.value.left.id == name:
                step = last.value.right
            if not isinstance(step, ast.Constant) or step.value != 1 or continues(body[:-1]):
                return None
            stored = {n.id for b in body[:-1] for n in ast.walk(b) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)}
            changed = {n.func.value.id for b in body[:-1] for n in ast.walk(b) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name)
                       and n.func.attr in ('append', 'pop', 'extend', 'insert', 'remove', 'clear', 'add', 'discard', 'update')}
            used = {n.id for n in ast.walk(right) if isinstance(n, ast.Name)}
            if name in stored or used & (stored | changed) or name in used:
                return None
            rng = ast.Call(func=ast.Name(id='range', ctx=ast.Load()), args=[ast.Name(id=name, ctx=ast.Load()), right], keywords=[])
            return 'count', copy_for(ast.Name(id=name, ctx=ast.Store()), rng, body[:-1]), name
        return None

    def x_While(self, st, fr):
        w = self.while_as_for(st, fr)
        if w is not None:
            loop, name, bound = w
            r = self.x_For_all(loop, fr)
            if name is not None and r is None:
                fr.vars[name] = bound if self.truth(self.cmp('gt', bound, fr.vars[name])) else fr.vars[name]
            return None if r is BREAK else r
        n = 0
        while self.truth(self.ev(st.test, fr)):
            n += 1
            if n > 60:
                raise Unsupported('unbounded while loop')
            r = self.exec_block(st.body, fr)
            if r is BREAK:
                return None
            if r is not None and r is not CONT:
                return r
        return self.exec_block(st.orelse, fr)

    def x_For(self, st, fr):
        r = self.x_For_all(st, fr)
        return None if r is BREAK else r

    def x_For_all(self, st, fr):
        """BREAK if the loop was left by a break"""
        it = self.ev(st.iter, fr)
        src = self.iterate(it)
        if isinstance(src, list):
            i = -1
            for v in src:
                i += 1
                if isinstance(v, (Each, SymSeq)):
                    r = self.for_sym(st, self.part_seq(v), fr, it)
                else:
                    if i > 300:
                        raise Unsupported('long loop')
                    self.assign(st.target, v, fr)
                    r = self.exec_block(st.body, fr)
                if r is BREAK:
                    return BREAK
                if r is not None and r is not CONT:
                    return r
            return self.exec_block(st.orelse, fr)
        r = self.for_sym(st, src, fr, it)
        if r is BREAK:
            return BREAK
        if r is not None and r is not CONT:
            return r
        return self.exec_block(st.orelse, fr)

    def part_seq(self, v):
        return v if isinstance(v, SymSeq) else SymSeq(v.loop.length, lambda i, v=v: v.value, tag=v)

    def for_sym(self, st, seq, fr, src):
        """one generic iteration of a loop over a symbolic sequence"""
        if not self.truth(self.cmp('gt', seq.length, 0)):
            return None
        i = None
        if isinstance(seq.tag, Each):
            loop = seq.tag.loop
            i = loop.index
        else:
            i = self.fresh_index(seq.length)
            loop = Loop(i, seq.length, self.site, len(self.trace))
        loop.seqlist = src
        stored = {n.id for b in st.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        for name in stored:
            if name in fr.vars and self.read_before_write(name, st.body):
                self.touch(fr)
                fr.vars[name] = mk('unk', ('loop', name, self.count('havoc')), 'o')
        self.loops.append(loop)
        k0 = len(self.trace)
        try:
            self.assign(st.target, seq.get(i), fr)
            r = self.exec_block(st.body, fr)
        except AbsRaise:
            self.iteration_end(i, seq.length, k0, True)
            raise
        finally:
            self.loops.pop()
        if r is CONT:
            r = None
        self.iteration_end(i, seq.length, k0, r is not None)
        if r is None:
            for name in stored:
                if name in fr.vars and self.read_before_write(name, st.body):
                    fr.vars[name] = mk('unk', ('loop', name, self.count('havoc')), 'o')
        return r

    def iteration_end(self, i, length, k0, exit_):
        """a generic iteration has ended: normally, or by leaving the loop (return, break or an exception)"""
        key = (tuple((t.id, v) for t, v, _ in self.trace[:k0]), i)
        conds = [(t, v) for t, v, _ in self.trace[k0:] if NF.mentions(t, i)]
        if exit_:
            self.exits.setdefault(key, []).append(conds)
        self.iterations.append((key, i, length, exit_))

    def generic_item(self, get, length):
        i = self.fresh_index(length)
        k0 = len(self.trace)
        try:
            v = get(i)
        except AbsRaise:
            self.iteration_end(i, length, k0, True)
            raise
        self.iteration_end(i, length, k0, False)
        return v

    def iterations_agree(self, e, iterations):
        """in this interpretation no other iteration leaves a loop that the path completes (or leaves at a later iteration)"""
        for key, i, length, exit_ in iterations:
            ex = self.exits.get(key, ())
            if not ex:
                continue
            try:
                n = int(e.ev(length)) if isinstance(length, Term) else length
                if exit_:
                    n = min(n, int(e.ev(i)))
                for k in range(n):
                    b = e.bind(i, k)
                    for conds in ex:
                        if all(self.satisfies(b, t, v) for t, v in conds):
                            return False
            except (NF.EvalError, NF.EvalUnknown, NF.OffPath, ValueError, TypeError):
                return False
        return True

    def read_before_write(self, name, body):
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
                    return True
        # position of first load vs first store
        first = None
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and n.id == name:
                    pos = (n.lineno, n.col_offset)
                    kind = 0 if isinstance(n.ctx, ast.Load) else 1
                    if isinstance(n.ctx, ast.Store):
                        pos = (n.lineno, 10 ** 6 - 1)
                    if first is None or pos < first[0]:
                        first = (pos, kind)
        if first and first[1] == 1:
            # unconditional store at top level of the body?
            for b in body:
                if isinstance(b, (ast.Assign, ast.AnnAssign)) and any(
                        isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) for n in ast.walk(b)):
                    return False
                if isinstance(b, (ast.If,)) and b.orelse:
                    def has(bl):
                        return any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store)
                                   for q in bl for n in ast.walk(q))
                    if has(b.body) and has(b.orelse):
                        return False
                if isinstance(b, ast.For) and any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(b.target)):
                    return False
            return True
        return bool(first)

    def fresh_index(self, length):
        n = self.count('idx')
        i = mk('sym', (f'i{n}', ('loopidx', length)), 'i')
        self.facts.bounds[i] = (0, INF)
        p = padd(padd(P(length), P(i), -1), {(): 1}, -1)
        self.facts.ineqs.append(p)
        return i

    # ------------------------------------------------------------ names
    def store(self, name, v, fr):
        if fr.locals is not None:
            if name in fr.globals_:
                self.touch(fr.mod)
                self.event('modset', fr.mod, name)
                fr.mod.ns[name] = v
                return
            if name in fr.nonlocals:
                p = fr.parent
                while p is not None:
                    if p.locals is not None and name in p.locals:
                        self.touch(p)
                        if p.epoch == 0 and self.path_epoch:
                            self.event('cellwrite', p, name)
                        p.vars[name] = v
                        return
                    p = p.parent
                raise Unsupported('nonlocal')
        if fr.vars is fr.mod.ns:
            self.touch(fr.mod)
        fr.vars[name] = v

    def lookup(self, name, fr):
        f = fr
        if f.locals is not None and name in f.globals_:
            f = None
        first = True
        while f is not None:
            if name in f.vars and (first or f.locals is not None or f.vars is f.mod.ns or f.selfcls is None):
                return f.vars[name]
            if first and f.locals is not None and name in f.locals:
                self.throw('UnboundLocalError', f"local variable '{name}' referenced before assignment")
            first = False
            f = f.parent
        if name in fr.mod.ns:
            return fr.mod.ns[name]
        if name in self.builtins:
            return self.builtins[name]
        self.throw('NameError', f"name '{name}' is not defined")

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            self.setitem(o, self.ev_index(t.slice, fr), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Unsupported('target')

    def unpack(self, elts, v, fr):
        n = len(elts)
        star = [k for k, e in enumerate(elts) if isinstance(e, ast.Starred)]
        src = self.iterate(v)
        if not isinstance(src, list):
            if star or not isinstance(src, SymSeq):
                raise Unsupported('unpacking of a symbolic sequence')
            if not self.truth(self.cmp('eq', src.length, n)):
                self.throw('ValueError', 'not enough values to unpack')
            src = [src.get(k) for k in range(n)]
        if any(isinstance(x, (Each, SymSeq)) for x in src):
            raise Unsupported('unpacking of a symbolic list')
        if star:
            k = star[0]
            if len(src) < n - 1:
                self.throw('ValueError', 'not enough values to unpack')
            for e, x in zip(elts[:k], src):
                self.assign(e, x, fr)
            rest = n - k - 1
            self.assign(elts[k].value, self.new(Lst(src[k:len(src) - rest])), fr)
            for e, x in zip(elts[k + 1:], src[len(src) - rest:]):
                self.assign(e, x, fr)
            return
        if len(src) != n:
            self.throw('ValueError', 'wrong number of values to unpack')
        for e, x in zip(elts, src):
            self.assign(e, x, fr)

    # ------------------------------------------------------------ expressions
    def ev(self, n, fr):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(n).__name__}')
        return m(n, fr)

    def e_Constant(self, n, fr):
        return n.value

    def e_Name(self, n, fr):
        return self.lookup(n.id, fr)

    def e_Tuple(self, n, fr):
        return tuple(self.ev_elts(n.elts, fr))

    def e_List(self, n, fr):
        return self.new(Lst(self.ev_elts(n.elts, fr)))

    def e_Set(self, n, fr):
        out = []
        for v in self.ev_elts(n.elts, fr):
            if not self.in_list(v, out):
                out.append(v)
        return self.new(SetV(out))

    def ev_elts(self, elts, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                src = self.iterate(self.ev(e.value, fr))
                if isinstance(src, SymSeq):
                    out.append(src)
                else:
                    out.extend(src)
            else:
                out.append(self.ev(e, fr))
        return out

    def e_Dict(self, n, fr):
        d = self.new(Dct())
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.ev(v, fr)
                if not isinstance(o, Dct):
                    raise Unsupported('** of unknown mapping')
                d.d.update(o.d)
            else:
                kk = self.ev(k, fr)
                d.d[self.hkey(kk)] = (kk, self.ev(v, fr))
        return d

    def e_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        for k, x in enumerate(n.values):
            v = self.ev(x, fr)
            if k == len(n.values) - 1:
                return v
            if self.truth(v) != isand:
                return v

    def e_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        if isinstance(n.op, ast.Not):
            if isinstance(v, Term) and v.sort in ('b', 'B'):
                r = self.known(v)
                return (not r) if r is not None else mk('not', (v,), v.sort)
            return not self.truth(v)
        return self.unop({ast.USub: 'neg', ast.UAdd: 'pos_', ast.Invert: 'invert'}[type(n.op)], v)

    def e_BinOp(self, n, fr):
        a = self.ev(n.left, fr)
        b = self.ev(n.right, fr)
        self.setsite(n, fr)
        return self.binop(BIN[type(n.op)], a, b)

    def e_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        res = True
        for k, (op, r) in enumerate(zip(n.ops, n.comparators)):
            right = self.ev(r, fr)
            res = self.compare(op, left, right)
            if k < len(n.ops) - 1:
                if not self.truth(res):
                    return res
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return self.not_(self.is_(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return self.not_(self.contains(b, a))
        return self.cmp(CMP[type(op)], a, b)

    def not_(self, v):
        if isinstance(v, bool):
            return not v
        if isinstance(v, Term):
            return mk('not', (v,), v.sort)
        return not self.truth(v)

    def is_(self, a, b):
        if isinstance(a, Term) and isinstance(b, Term) and a.sort == 'o' and b.sort == 'o':
            return True if a is b else mk('same', (a, b), 'b')
        if isinstance(a, Term) and a.sort == 'o' and (b is None or isinstance(b, bool)):
            return mk('same', (a, b), 'b')
        if isinstance(b, Term) and b.sort == 'o' and (a is None or isinstance(a, bool)):
            return mk('same', (b, a), 'b')
        if isinstance(a, Term) and a.sort == 'b' and isinstance(b, bool):
            return a if b else self.not_(a)
        if isinstance(a, (int, float, str, tuple)) and not isinstance(a, bool) and type(a) is type(b):
            return a == b if not isinstance(a, tuple) else a is b or (len(a) == len(b) == 0)
        if isinstance(a, Bound) and isinstance(b, Bound):
            return a.fn is b.fn and a.self is b.self
        return a is b

    def e_IfExp(self, n, fr):
        return self.ev(n.body if self.truth(self.ev(n.test, fr)) else n.orelse, fr)

    def e_Attribute(self, n, fr):
        o = self.ev(n.value, fr)
        self.setsite(n, fr)
        return self.getattr(o, n.attr)

    def e_Subscript(self, n, fr):
        o = self.ev(n.value, fr)
        i = self.ev_index(n.slice, fr)
        self.setsite(n, fr)
        return self.getitem(o, i)

    def ev_index(self, n, fr):
        return self.ev(n, fr)

    def e_Slice(self, n, fr):
        return SliceV(*(None if x is None else self.ev(x, fr) for x in (n.lower, n.upper, n.step)))

    def e_Lambda(self, n, fr):
        return self.make_fn(n, fr)

    def e_JoinedStr(self, n, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, fr)
                if isinstance(x, (str, int, float)) and not isinstance(x, bool) and v.format_spec is None and v.conversion == -1:
                    parts.append(str(x))
                else:
                    parts.append(self.M.reify(x))
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        return mk('fstr', tuple(parts), 's')

    def e_FormattedValue(self, n, fr):
        return mk('fstr', (self.M.reify(self.ev(n.value, fr)),), 's')

    def e_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        self.assign(n.target, v, fr)
        return v

    def e_Starred(self, n, fr):
        raise Unsupported('starred')

    def e_Yield(self, n, fr):
        v = self.ev(n.value, fr) if n.value is not None else None
        f = fr
        while '__yields__' not in f.vars:
            f = f.parent
        f.vars['__yields__'].append(self.loop_item(v))
        return None

    def e_YieldFrom(self, n, fr):
        src = self.iterate(self.ev(n.value, fr))
        fr.vars['__yields__'].extend(src if isinstance(src, list) else [src])
        return None

    def e_ListComp(self, n, fr):
        return self.new(Lst(self.comp(n, fr)))

    def e_GeneratorExp(self, n, fr):
        return self.new(Iter(self.comp(n, fr)))

    def e_SetComp(self, n, fr):
        return self.M.make_set(self.comp(n, fr))

    def e_DictComp(self, n, fr):
        d = self.new(Dct())
        for k, v in self.comp(n, fr, pair=True):
            d.d[self.hkey(k)] = (k, v)
        return d

    def comp(self, n, fr, pair=False):
        """items of a comprehension: concrete values and/or symbolic parts"""
        names = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        elt = (lambda f: (self.ev(n.key, f), self.ev(n.value, f))) if pair else (lambda f: self.ev(n.elt, f))

        def subframe():
            f = self.new(Frame(fr.fn, fr.mod, fr, names, set(), set()))
            return f

        def rec(k, f):
            if k == len(n.generators):
                return [elt(f)]
            g = n.generators[k]
            src = self.iterate(self.ev(g.iter, fr if k == 0 else f))
            parts = src if isinstance(src, list) else [src]
            out = []
            for v in parts:
                if isinstance(v, (SymSeq, Each)):
                    seq = self.part_seq(v)
                    if pair:
                        raise Unsupported('symbolic dict comprehension')

                    def get(i, seq=seq, f=f):
                        f2 = self.new(Frame(f.fn, f.mod, f, names, set(), set()))
                        f2.vars.update(f.vars if f is not fr else {})
                        self.assign(g.target, seq.get(i), f2)
                        r = rec(k + 1, f2)
                        if len(r) != 1:
                            raise Unsupported('nested symbolic comprehension')
                        return r[0]
                    if g.ifs:
                        # a generic element either passes the filter or not
                        if not self.truth(self.cmp('gt', seq.length, 0)):
                            continue
                        if isinstance(seq.tag, Each):
                            loop = seq.tag.loop
                        else:
                            loop = Loop(self.fresh_index(seq.length), seq.length, self.site, len(self.trace))
                        f2 = self.new(Frame(f.fn, f.mod, f, names, set(), set()))
                        f2.vars.update(f.vars if f is not fr else {})
                        k0 = len(self.trace)
                        try:
                            self.assign(g.target, seq.get(loop.index), f2)
                            take = all(self.truth(self.ev(c, f2)) for c in g.ifs)
                            r = rec(k + 1, f2) if take else ()
                        except AbsRaise:
                            self.iteration_end(loop.index, seq.length, k0, True)
                            raise
                        self.iteration_end(loop.index, seq.length, k0, False)
                        if take:
                            out.extend(x if isinstance(x, (Each, SymSeq)) else Each(loop, x) for x in r)
                        continue
                    if isinstance(seq.tag, Each):
                        if not self.truth(self.cmp('gt', seq.length, 0)):
                            continue
                        k0 = len(self.trace)
                        e0 = Each(seq.tag.loop, get(seq.tag.loop.index), one=seq.tag.full or seq.tag.one)
                        e0.full = seq.tag.full and not any(NF.mentions(t, e0.loop.index) for t, _, _ in self.trace[k0:])
                        out.append(e0)
                    else:
                        # effects and exceptions of a generic element
                        if self.truth(self.cmp('gt', seq.length, 0)):
                            self.generic_item(get, seq.length)
                        out.append(SymSeq(seq.length, get))
                    continue
                f2 = self.new(Frame(f.fn, f.mod, f, names, set(), set()))
                f2.vars.update(f.vars if f is not fr else {})
                self.assign(g.target, v, f2)
                if all(self.truth(self.ev(c, f2)) for c in g.ifs):
                    out.extend(rec(k + 1, f2))
            return out
        return rec(0, fr)

    def e_Call(self, n, fr):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            f = fr
            while f is not None and not (isinstance(f.fn, Fn) and f.fn.cls is not None and f.locals is not None and f.fn.scope[0] is f.locals):
                f = f.parent
            if f is None:
                self.throw('RuntimeError', 'super(): no arguments')
            a = f.fn.node.args
            first = (a.posonlyargs + a.args)[0].arg
            return SuperV(f.fn.cls, f.vars[first])
        fn = self.ev(n.func, fr)
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                src = self.iterate(self.ev(a.value, fr))
                if isinstance(src, SymSeq) or any(isinstance(x, (Each, SymSeq)) for x in src):
                    args.append(mk('star', (self.M.reify_seq(src),), 'o'))
                else:
                    args.extend(src)
            else:
                args.append(self.ev(a, fr))
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                if not isinstance(d, Dct):
                    raise Unsupported('** of unknown mapping')
                for key, (kv, v) in d.d.items():
                    if kv in kwargs:
                        self.throw('TypeError', 'multiple values for keyword argument')
                    kwargs[kv] = v
            else:
                if k.arg in kwargs:
                    self.throw('TypeError', 'multiple values for keyword argument')
                kwargs[k.arg] = self.ev(k.value, fr)
        self.setsite(n, fr)
        if isinstance(fn, Native) and fn.name in ('locals', 'vars', 'globals') and not args:
            raise Unsupported(fn.name)
        return self.call(fn, args, kwargs)

    # ------------------------------------------------------------ calls
    def call(self, fn, args, kwargs):
        if isinstance(fn, Fn):
            return self.call_fn(fn, args, kwargs)
        if isinstance(fn, Bound):
            return self.call(fn.fn, [fn.self] + list(args), kwargs)
        if isinstance(fn, Native):
            return fn.f(*args, **kwargs)
        if isinstance(fn, Cls):
            return self.M.instantiate(fn, args, kwargs)
        if isinstance(fn, Partial):
            kw = dict(fn.kwargs)
            kw.update(kwargs)
            return self.call(fn.fn, list(fn.args) + list(args), kw)
        if isinstance(fn, Ext):
            return self.M.call_ext(fn, args, kwargs)
        if isinstance(fn, StaticM):
            return self.call(fn.fn, args, kwargs)
        if isinstance(fn, Lru):
            return self.M.call_lru(fn, args, kwargs)
        if isinstance(fn, Inst):
            f, _ = fn.cls.lookup('__call__')
            if f is None:
                self.throw('TypeError', f"'{fn.cls.name}' object is not callable")
            return self.call(self.bind(f, fn, fn.cls), args, kwargs)
        if isinstance(fn, Term):
            return self.M.call_opaque(fn, args, kwargs)
        self.throw('TypeError', f"'{type(fn).__name__}' object is not callable")

    def bind_args(self, fn, args, kwargs):
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        npo = len(a.posonlyargs)
        vals = {}
        args = list(args)
        if any(isinstance(x, Term) and x.op == 'star' for x in args):
            raise Unsupported('call with a symbolic number of arguments')
        if len(args) > len(pos):
            if a.vararg is None:
                self.throw('TypeError', f'{fn.name}() takes {len(pos)} positional arguments but {len(args)} were given')
            vals[a.vararg.arg] = tuple(args[len(pos):])
            args = args[:len(pos)]
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        for nme, v in zip(pos, args):
            vals[nme] = v
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in pos[npo:] or k in kwonly:
                if k in vals:
                    self.throw('TypeError', f"{fn.name}() got multiple values for argument '{k}'")
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.throw('TypeError', f"{fn.name}() got an unexpected keyword argument '{k}'")
        if a.kwarg is not None:
            vals[a.kwarg.arg] = self.new(Dct({self.hkey(k): (k, v) for k, v in extra.items()}))
        nd = len(fn.defaults)
        for k, nme in enumerate(pos):
            if nme not in vals:
                j = k - (len(pos) - nd)
                if j >= 0:
                    vals[nme] = fn.defaults[j]
                else:
                    self.throw('TypeError', f"{fn.name}() missing required argument: '{nme}'")
        for nme in kwonly:
            if nme not in vals:
                if nme in fn.kwdefaults:
                    vals[nme] = fn.kwdefaults[nme]
                else:
                    self.throw('TypeError', f"{fn.name}() missing required keyword-only argument: '{nme}'")
        return vals

    def call_fn(self, fn, args, kwargs):
        if len(self.stack) > MAXDEPTH:
            raise Unsupported('recursion too deep')
        vals = self.bind_args(fn, args, kwargs)
        names, gl, nl, gen = fn.scope
        fr = self.new(Frame(fn, fn.mod, fn.closure, names, gl, nl))
        fr.vars = vals
        self.analysed.add((fn.mod.path, fn.qualname))
        site = self.site
        self.stack.append((fn.mod.path, fn.qualname, site))
        saved_handling = self.handling
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.ev(fn.node.body, fr)
            if gen:
                ylist = []
                fr.vars['__yields__'] = ylist
                self.exec_block(fn.node.body, fr)
                return self.new(Iter(ylist))
            r = self.exec_block(fn.node.body, fr)
            if isinstance(r, Ret):
                self.last_return = r.site
                return r.v
            return None
        finally:
            self.stack.pop()
            self.site = site

    def throw(self, name, msg='', site=None):
        raise AbsRaise(self.M.exception(name, msg), site or self.site)

    # ------------------------------------------------------------ attributes
    def bind(self, f, obj, cls):
        if isinstance(f, (Fn, Lru)):
            return Bound(f, obj) if obj is not None else f
        if isinstance(f, StaticM):
            return f.fn
        if isinstance(f, ClassM):
            return Bound(f.fn, cls)
        if isinstance(f, Native) and obj is not None:
            return Bound(f, obj)
        return f

    def getattr(self, o, name, default=MISSING):
        try:
            return self._getattr(o, name)
        except AbsRaise as e:
            if default is not MISSING and self.M.exc_is(e.exc, 'AttributeError'):
                return default
            raise

    def _getattr(self, o, name):
        if isinstance(o, Inst):
            return self.inst_attr(o, name)
        if isinstance(o, Mod):
            if name in o.ns:
                return o.ns[name]
            sub = self.modules.get(o.name + '.' + name)
            if sub is not None:
                return sub
            if name == '__dict__':
                raise Unsupported('module dict')
            self.throw('AttributeError', f"module '{o.name}' has no attribute '{name}'")
        if isinstance(o, Cls):
            return self.cls_attr(o, name)
        if isinstance(o, SuperV):
            cls = o.obj.cls if isinstance(o.obj, Inst) else o.obj
            mro = cls.mro
            k = mro.index(o.cls)
            for c in mro[k + 1:]:
                if name in c.ns:
                    return self.descr(c.ns[name], o.obj if isinstance(o.obj, Inst) else None, cls, name)
            r = self.M.object_method(name, o.obj, super_=True)
            if r is not None:
                return r
            self.throw('AttributeError', f"'super' object has no attribute '{name}'")
        return self.M.value_attr(o, name)

    def descr(self, v, obj, cls, name):
        if isinstance(v, Prop):
            if obj is None:
                return v
            return self.call(v.fget, [obj], {})
        if isinstance(v, CachedProp):
            if obj is None:
                return v
            return self.cached(v, obj)
        return self.bind(v, obj, cls)

    def cached(self, v, obj):
        val = self.call(v.fn, [obj], {})
        self.touch(obj)
        self.event('memo', obj, v.key)
        obj.attrs[v.key] = val
        return val

    def inst_attr(self, o, name):
        v, c = o.cls.lookup(name)
        if isinstance(v, Prop):
            return self.call(v.fget, [o], {})
        if name in o.attrs:
            return o.attrs[name]
        if c is not None:
            if isinstance(v, CachedProp):
                return self.cached(v, o)
            return self.descr(v, o, o.cls, name)
        if name == '__class__':
            return o.cls
        if name == '__dict__':
            d = self.new(Dct())
            d.d = AttrsView(self, o)
            return d
        r = self.M.object_method(name, o)
        if r is not None:
            return r
        g, _ = o.cls.lookup('__getattr__')
        if g is not None:
            return self.call(Bound(g, o), [name], {})
        if o.cls.kind == 'exc' and name in ('__cause__', '__context__', '__traceback__'):
            return None
        if o.cls.kind == 'exc' and name == '__suppress_context__':
            return '__cause__' in o.attrs
        self.throw('AttributeError', f"'{o.cls.name}' object has no attribute '{name}'")

    def cls_attr(self, c, name):
        v, owner = c.lookup(name)
        if owner is not None:
            if isinstance(v, StaticM):
                return v.fn
            if isinstance(v, ClassM):
                return Bound(v.fn, c)
            return v
        if name == '__name__':
            return c.name
        if name == '__qualname__':
            return c.qualname
        if name == '__module__':
            return c.mod.name if c.mod else 'builtins'
        if name == '__mro__':
            return tuple(c.mro)
        if name == '__bases__':
            return tuple(c.bases)
        if name == '__doc__':
            return None
        r = self.M.class_attr(c, name)
        if r is not None:
            return r
        self.throw('AttributeError', f"type object '{c.name}' has no attribute '{name}'")

    def slots_of(self, c):
        """the attribute names of instances without a __dict__, None when instances have one"""
        out = set()
        for k in c.mro:
            if '__slots__' in k.ns:
                s = k.ns['__slots__']
                if isinstance(s, str):
                    s = (s,)
                s = getattr(s, 'items', s)
                s = s() if callable(s) else s
                if not isinstance(s, (tuple, list)) or not all(isinstance(x, str) for x in s):
                    return None
                out |= set(s)
            elif not (k.builtin and k.name in ('object', 'Sequence', 'Iterable', 'Sized', 'Container', 'Collection', 'Reversible', 'Hashable', 'ABC')):
                return None
        return None if '__dict__' in out else out

    def setattr(self, o, name, v, force=False):
        if isinstance(o, Inst):
            d, c = o.cls.lookup(name)
            if isinstance(d, Prop):
                if d.fset is None:
                    self.throw('AttributeError', "can't set attribute")
                self.call(d.fset, [o, v], {})
                return
            if not force:
                s, c2 = o.cls.lookup('__setattr__')
                if s is not None and isinstance(s, Fn):
                    self.call(Bound(s, o), [name, v], {})
                    return
            if o.cls.kind == 'namedtuple':
                self.throw('AttributeError', "can't set attribute")
            if name not in o.attrs and d is None:
                slots = self.slots_of(o.cls)
                if slots is not None and name not in slots:
                    self.throw('AttributeError', f"'{o.cls.name}' object has no attribute '{name}'")
            self.touch(o)
            self.event('setattr', o, name)
            o.attrs[name] = v
        elif isinstance(o, Mod):
            self.touch(o)
            self.event('modset', o, name)
            o.ns[name] = v
        elif isinstance(o, Cls):
            self.touch(o)
            self.event('clsset', o, name)
            o.ns[name] = v
        elif isinstance(o, Fn):
            self.touch(o)
            o.attrs[name] = v
        elif isinstance(o, (NdArr, ObjArr, Flags)):
            self.M.array_setattr(o, name, v)
        elif isinstance(o, (Term, Ext)):
            self.event('extset', o, name, v)
        else:
            self.throw('AttributeError', f"cannot set attribute '{name}'")

    # ------------------------------------------------------------ containers
    def hkey(self, v):
        """hashable key of a dict key / set element"""
        if isinstance(v, (bool, int, float, str, bytes, type(None), complex)):
            return ('c', v)
        if isinstance(v, tuple):
            return ('t',) + tuple(self.hkey(x) for x in v)
        if isinstance(v, Term):
            return ('T', v.id)
        if isinstance(v, (Lst, Dct, SetV, NdArr, ObjArr)):
            self.throw('TypeError', 'unhashable type')
        if isinstance(v, Inst):
            if v.cls.kind == 'enum':
                return ('e', id(v))
            if v.cls.kind == 'namedtuple':
                return ('t',) + tuple(self.hkey(v.attrs[f]) for f in v.cls.fields)
            e, c = v.cls.lookup('__eq__')
            if isinstance(e, Fn):
                h, c2 = v.cls.lookup('__hash__')
                if h is None or c.mro.index(c) > v.cls.mro.index(c2) if c2 else True:
                    self.throw('TypeError', f"unhashable type: '{v.cls.name}'")
            return ('i', id(v))
        return ('i', id(v))

    def length(self, v):
        if isinstance(v, (tuple, str, bytes)):
            return len(v)
        if isinstance(v, Lst):
            return self.parts_len(v.items)
        if isinstance(v, Dct):
            return len(v.d)
        if isinstance(v, SetV):
            return self.parts_len(v.items)
        if isinstance(v, SymSeq):
            return v.length
        if isinstance(v, RangeV):
            return self.M.range_len(v)
        if isinstance(v, NdArr):
            if v.shape is None:
                return mk('shape', (v.term, 0), 'i')
            if not v.shape:
                self.throw('TypeError', 'len() of unsized object')
            return v.shape[0]
        if isinstance(v, ObjArr):
            return self.parts_len(v.seq)
        if isinstance(v, Inst):
            f, _ = v.cls.lookup('__len__')
            if f is not None:
                return self.call(Bound(f, v), [], {})
            if v.cls.kind == 'namedtuple':
                return len(v.cls.fields)
        if isinstance(v, Term):
            if v.sort in ('o', 's', 'A'):
                return mk('len', (v,), 'i')
        self.throw('TypeError', 'object has no len()')

    def parts_len(self, items):
        n = 0
        for x in items:
            if isinstance(x, SymSeq):
                n = self.binop('add', n, x.length)
            elif isinstance(x, Each):
                if x.full or x.one:
                    n = self.binop('add', n, x.loop.length)
                    continue
                k = mk('count', (x.loop.index, self.label(x)), 'i')
                n = self.binop('add', n, k)
                self.facts.bounds[k] = (1, INF)
            else:
                n = self.binop('add', n, 1)
        return n

    def iterate(self, v):
        """list of items (concrete values, SymSeq/Each parts) or one SymSeq"""
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, Lst):
            if len(v.items) == 1 and isinstance(v.items[0], SymSeq):
                return v.items[0]
            return list(v.items)
        if isinstance(v, SetV):
            return list(v.items)
        if isinstance(v, Dct):
            return [k for k, _ in v.d.values()]
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Iter):
            src = v.src
            if isinstance(src, list):
                out = src[v.pos:]
                self.touch(v)
                v.pos = len(src)
                if len(out) == 1 and isinstance(out[0], SymSeq):
                    return out[0]
                return list(out)
            return src
        if isinstance(v, SymSeq):
            return v
        if isinstance(v, RangeV):
            return self.M.range_items(v)
        if isinstance(v, NdArr):
            return self.M.array_iter(v)
        if isinstance(v, ObjArr):
            s = list(v.seq)
            return s[0] if len(s) == 1 and isinstance(s[0], SymSeq) else s
        if isinstance(v, Inst):
            if v.cls.kind == 'namedtuple':
                return [v.attrs[f] for f in v.cls.fields]
            f, _ = v.cls.lookup('__iter__')
            if f is not None:
                return self.iterate(self.call(Bound(f, v), [], {}))
            f, _ = v.cls.lookup('__getitem__')
            if f is not None:
                n = self.length(v)
                g = Bound(f, v)
                if isinstance(n, int):
                    return [self.call(g, [i], {}) for i in range(n)]
                return SymSeq(n, lambda i: self.call(g, [i], {}))
        if isinstance(v, Cls) and v.kind == 'enum':
            return list(v.extra_members()) if hasattr(v, 'extra_members') else self.M.enum_members(v)
        if isinstance(v, Term) and v.sort in ('o', 'A', 's'):
            n = mk('len', (v,), 'i')
            return SymSeq(n, lambda i: mk('item', (v, i), 'o'), tag='opaque')
        self.throw('TypeError', f"'{self.M.typename(v)}' object is not iterable")

    def concrete_list(self, v):
        s = self.iterate(v)
        if isinstance(s, SymSeq):
            if isinstance(s.length, int):
                return [s.get(i) for i in range(s.length)]
            raise Unsupported('symbolic sequence where a list is needed')
        out = []
        for x in s:
            if isinstance(x, SymSeq) and isinstance(x.length, int):
                out.extend(x.get(i) for i in range(x.length))
            elif isinstance(x, (SymSeq, Each)):
                raise Unsupported('symbolic list where a concrete list is needed')
            else:
                out.append(x)
        return out

    def loop_item(self, v):
        """value produced inside a summarised loop"""
        if self.loops:
            l = self.loops[-1]
            return Each(l, v, len(self.loops) == 1 and self.isfull(l))
        return v

    def list_append(self, lst, v):
        self.touch(lst)
        self.event('listwrite', lst)
        if self.loops and lst.loop is not self.loops[-1]:
            l = self.loops[-1]
            outer = self.loops[-2] if len(self.loops) > 1 else None
            lst.items.append(Each(l, v, lst.loop is outer and self.isfull(l)))
        else:
            lst.items.append(v)

    def list_extend(self, lst, v):
        self.touch(lst)
        self.event('listwrite', lst)
        items = self.iterate_seq(v)
        if self.loops and lst.loop is not self.loops[-1]:
            items = [x if isinstance(x, Each) else Each(self.loops[-1], x) for x in items]
        lst.items.extend(items)

    def in_list(self, x, items):
        for y in items:
            r = self.is_(x, y)
            if r is True:
                return True
            e = self.cmp('eq', x, y)
            if e is True:
                return True
            if e is not False and self.truth(e):
                return True
        return False

    def contains(self, c, x):
        if isinstance(c, Inst):
            f, _ = c.cls.lookup('__contains__')
            if f is not None:
                r = self.call(Bound(f, c), [x], {})
                return r if isinstance(r, bool) or (isinstance(r, Term) and r.sort in ('b', 'B')) else self.truth(r)
        if isinstance(c, Dct):
            k = self.hkey(x)
            if k in c.d:
                return True
            if isinstance(x, Term) or any(isinstance(kv, Term) for kv, _ in c.d.values()):
                if isinstance(x, Term) and x.sort in ('s', 'o'):
                    return mk('in', (x, tuple(kv for kv, _ in c.d.values())), 'b')
            return False
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, SetV) and c.src is not None:
            return self.M.set_contains(c, x)
        src = self.iterate(c)
        if isinstance(src, list) and not any(isinstance(y, (SymSeq, Each)) for y in src):
            return self.in_list(x, src)
        return mk('in', (self.M.reify(x), self.M.reify_seq(src)), 'b')

    def getitem(self, o, i):
        if isinstance(o, NdArr):
            return self.M.array_getitem(o, i)
        if isinstance(o, (tuple, str, Lst)):
            return self.M.seq_getitem(o, i)
        if isinstance(o, Dct):
            k = self.hkey(i)
            if k in o.d:
                return o.d[k][1]
            if isinstance(i, Term):
                raise Unsupported('dict lookup with a symbolic key')
            self.throw('KeyError', '')
        if isinstance(o, Inst):
            f, _ = o.cls.lookup('__getitem__')
            if f is not None:
                return self.call(self.bind(f, o, o.cls), [i], {})
            if o.cls.kind == 'namedtuple':
                return self.M.seq_getitem(tuple(o.attrs[f] for f in o.cls.fields), i)
            self.throw('TypeError', f"'{o.cls.name}' object is not subscriptable")
        if isinstance(o, ObjArr):
            return self.M.objarr_getitem(o, i)
        if isinstance(o, SymSeq):
            return o.get(i)
        if isinstance(o, Ext):
            return self.M.ext_getitem(o, i)
        if isinstance(o, RangeV):
            return self.M.range_get(o, i)
        if isinstance(o, Cls):
            if o.kind == 'enum':
                for m in self.M.enum_members(o):
                    if m.attrs['_name_'] == i:
                        return m
                self.throw('KeyError', i)
            return o
        if isinstance(o, Term):
            if o.sort in NUM:
                self.throw('TypeError', 'scalar is not subscriptable') if o.sort in 'ifb' else self.throw('IndexError', 'invalid index to scalar variable.')
            return mk('item', (o, self.M.reify(i)), 'o')
        if isinstance(o, Native) or isinstance(o, Fn):
            return o
        self.throw('TypeError', f"'{self.M.typename(o)}' object is not subscriptable")

    def setitem(self, o, i, v):
        if isinstance(o, NdArr):
            return self.M.array_setitem(o, i, v)
        if isinstance(o, Dct):
            self.touch(o)
            self.event('dictwrite', o, i)
            o.d[self.hkey(i)] = (i, v)
            return
        if isinstance(o, Lst):
            self.touch(o)
            self.event('listwrite', o)
            if isinstance(i, int):
                if o.concrete:
                    if not -len(o.items) <= i < len(o.items):
                        self.throw('IndexError', 'list assignment index out of range')
                    o.items[i] = v
                    return
            if isinstance(i, Term):
                for l in reversed(self.loops):
                    if l.index is i:
                        for k, part in enumerate(o.items):
                            if (isinstance(part, Each) and part.loop is l) or (isinstance(part, SymSeq)):
                                o.items[k] = Each(l, v, part.full if isinstance(part, Each) else len(self.loops) == 1 and self.isfull(l), isinstance(part, Each) and part.one)
                                return
                at = self.enumidx.get(i)
                if at is not None:
                    for k, part in enumerate(o.items):
                        if part is at:
                            self.enumidx[i] = o.items[k] = Each(at.loop, v, at.full, at.one)
                            return
            raise Unsupported('list store')
        if isinstance(o, Inst):
            f, _ = o.cls.lookup('__setitem__')
            if f is not None:
                return self.call(self.bind(f, o, o.cls), [i, v], {})
            self.throw('TypeError', f"'{o.cls.name}' object does not support item assignment")
        if isinstance(o, ObjArr):
            if o.frozen:
                self.throw('ValueError', 'assignment destination is read-only')
            raise Unsupported('object array store')
        if isinstance(o, tuple):
            self.throw('TypeError', "'tuple' object does not support item assignment")
        if isinstance(o, (Ext, Term)):
            self.event('extset', o, i, v)
            return
        raise Unsupported('item store')

    def delitem(self, o, i):
        if isinstance(o, Dct):
            k = self.hkey(i)
            if k not in o.d:
                self.throw('KeyError', '')
            self.touch(o)
            self.event('dictwrite', o, i)
            del o.d[k]
            return
        if isinstance(o, Lst) and o.concrete and isinstance(i, int):
            self.touch(o)
            self.event('listwrite', o)
            if not -len(o.items) <= i < len(o.items):
                self.throw('IndexError', 'list index out of range')
            del o.items[i]
            return
        if isinstance(o, Lst) and o.concrete and isinstance(i, SliceV) and all(x is None or isinstance(x, int) for x in (i.a, i.b, i.s)):
            self.touch(o)
            self.event('listwrite', o)
            items = list(o.items)
            del items[slice(i.a, i.b, i.s)]
            o.items = items
            return
        raise Unsupported('item deletion')

    # ------------------------------------------------------------ operators
    def num(self, v):
        """integer value of an IntEnum member"""
        if isinstance(v, Inst) and v.cls.kind == 'enum' and v.cls.extra == 'int':
            return v.attrs['_value_']
        return v

    def scalar(self, v):
        return isinstance(v, (int, float, bool, complex)) or (isinstance(v, Term) and v.sort in NUM)

    def binop(self, op, a, b):
        if isinstance(a, Inst) or isinstance(b, Inst):
            a2, b2 = self.num(a), self.num(b)
            if a2 is not a or b2 is not b:
                return self.binop(op, a2, b2)
            if isinstance(a, NdArr) and isinstance(b, Inst):
                # numpy converts the other operand to an array
                if b.cls.lookup('__array_ufunc__')[1] is None and b.cls.lookup('__array_priority__')[1] is None:
                    return self.M.array_binop(op, a, self.M.asarray(b))
            return self.inst_binop(op, a, b)
        if isinstance(a, (NdArr, ObjArr)) or isinstance(b, (NdArr, ObjArr)):
            return self.M.array_binop(op, a, b)
        if self.scalar(a) and self.scalar(b):
            return self.scalar_binop(op, a, b)
        if isinstance(a, str) and isinstance(b, str) and op == 'add':
            return a + b
        if op == 'add' and isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if op == 'add' and isinstance(a, Lst) and isinstance(b, Lst):
            return self.new(Lst(a.items + b.items))
        if op == 'mul' and isinstance(a, (tuple, str)) and isinstance(b, int):
            return a * b
        if op == 'mul' and isinstance(a, Lst) and isinstance(b, int):
            return self.new(Lst(a.items * b))
        if op == 'mul' and isinstance(a, int) and isinstance(b, (Lst, str, tuple)):
            return self.binop(op, b, a)
        if op == 'mod' and (isinstance(a, str) or (isinstance(a, Term) and a.sort == 's')):
            return mk('fstr', (a, self.M.reify(b)), 's')
        if isinstance(a, SetV) and isinstance(b, SetV):
            return self.M.set_op(op, a, b)
        if op == 'or_' and isinstance(a, Dct) and isinstance(b, Dct):
            r = self.new(Dct(a.d))
            r.d.update(b.d)
            return r
        for x in (a, b):
            if isinstance(x, Term) and x.sort in ('s', 'o'):
                return mk('ext', ('op.' + op, (self.M.reify(a), self.M.reify(b)), None), x.sort)
        if isinstance(a, (Cls, Ext)) or isinstance(b, (Cls, Ext)):
            return Ext('typing.Union')
        self.throw('TypeError', f'unsupported operand type(s) for {op}: {self.M.typename(a)} and {self.M.typename(b)}')

    def scalar_binop(self, op, a, b):
        if is_const(a) and is_const(b):
            try:
                return PYOP[op](a, b)
            except ZeroDivisionError as e:
                self.throw('ZeroDivisionError', str(e))
            except TypeError as e:
                self.throw('TypeError', str(e))
            except KeyError:
                raise Unsupported(op)
        s = rsort(a, b)
        if op in ('add', 'sub', 'mul') and s in ('i', 'I'):
            if any(isinstance(x, Term) and x.sort in 'bB' for x in (a, b)):
                return mk(op, (a, b), s)
            p, q = P(a), P(b)
            r = pmul(p, q) if op == 'mul' else padd(p, q, 1 if op == 'add' else -1)
            r2 = mkpoly(r, s)
            if isinstance(r2, Term) and r2.sort != s and s == 'I':
                r2 = r2   # single atom keeps its own sort
            return r2
        if op in ('and_', 'or_') and all(isinstance(x, bool) or (isinstance(x, Term) and x.sort in 'bB') for x in (a, b)):
            o = 'and' if op == 'and_' else 'or'
            for x, y in ((a, b), (b, a)):
                if isinstance(x, bool):
                    if op == 'and_':
                        return y if x else False
                    return True if x else y
            return mk(o, (a, b), 'B' if 'B' in (a.sort, b.sort) else 'b')
        if op == 'xor' and all(isinstance(x, bool) or (isinstance(x, Term) and x.sort in 'bB') for x in (a, b)):
            return mk('ne', (a, b), 'b')
        if op == 'floordiv' and s in ('i', 'I'):
            q = pdivexact(P(a), P(b))
            if q is not None and all(c.denominator == 1 for c in q.values()):
                return mkpoly(q, s)
            return mk('floordiv', (a, b), s)
        if op == 'div':
            npy = any(isinstance(x, Term) and x.sort in 'IFB' for x in (a, b))
            if not npy:
                z = self.cmp('eq', b, 0)
                if z is not False:
                    if z is True or self.truth(z):
                        self.throw('ZeroDivisionError', 'division by zero')
            return mk('div', (a, b), 'F' if npy else 'f')
        if op == 'pow':
            if s in ('i', 'I') and isinstance(b, int) and 0 <= b <= 4:
                r = {(): 1}
                from fractions import Fraction
                r = {(): Fraction(1)}
                for _ in range(b):
                    r = pmul(r, P(a))
                return mkpoly(r, s)
            return mk('pow', (a, b), 'F' if any(isinstance(x, Term) and x.sort in 'IFB' for x in (a, b)) else 'f')
        if op in ('add', 'sub', 'mul', 'mod', 'floordiv'):
            # light identities
            if op == 'add':
                if a == 0 and not isinstance(a, Term) and not isinstance(a, float):
                    return b
                if b == 0 and not isinstance(b, Term) and not isinstance(b, float):
                    return a
            return mk(op, (a, b), s)
        if op == 'matmul':
            self.throw('TypeError', 'matmul of scalars')
        raise Unsupported(f'scalar operator {op}')

    def inst_binop(self, op, a, b):
        d = DUNDER[op]
        ta = a.cls if isinstance(a, Inst) else None
        tb = b.cls if isinstance(b, Inst) else None
        tries = []
        fa = ta.lookup(f'__{d}__')[0] if ta else None
        fb = tb.lookup(f'__r{d}__')[0] if tb else None
        if ta is not None and tb is not None and ta is not tb and tb in [tb] and ta in tb.mro and fb is not None \
                and fb is not ta.lookup(f'__r{d}__')[0]:
            tries = [(fb, b, a), (fa, a, b)]
        else:
            tries = [(fa, a, b)]
            if ta is not tb:
                tries.append((fb, b, a))
        for f, x, y in tries:
            if f is not None:
                r = self.call(self.bind(f, x, x.cls), [y], {})
                if r is not NOTIMPL:
                    return r
        if op == 'add' and ta is not None and ta.kind == 'namedtuple':
            return self.binop('add', tuple(a.attrs[f] for f in ta.fields), b)
        self.throw('TypeError', f'unsupported operand type(s) for {op}')

    def unop(self, op, v):
        v = self.num(v)
        if isinstance(v, Inst):
            f, _ = v.cls.lookup({'neg': '__neg__', 'pos_': '__pos__', 'invert': '__invert__'}[op])
            if f is None:
                self.throw('TypeError', f'bad operand type for unary {op}')
            return self.call(self.bind(f, v, v.cls), [], {})
        if isinstance(v, NdArr):
            return self.M.array_unop(op, v)
        if op == 'pos_':
            return v
        if is_const(v) and isinstance(v, (int, float, complex)):
            return -v if op == 'neg' else ~v
        if isinstance(v, Term) and v.sort in NUM:
            if op == 'neg':
                if v.sort in ('i', 'I'):
                    return mkpoly(pscale(P(v), -1), v.sort)
                return mk('neg', (v,), v.sort)
            if v.sort == 'B':
                return mk('not', (v,), v.sort)
            if v.sort == 'i' or v.sort == 'I':
                return self.binop('sub', self.unop('neg', v), 1)
        raise Unsupported(f'unary {op}')

    def cmp(self, op, a, b):
        a, b = self.num(a), self.num(b)
        if isinstance(a, Inst) or isinstance(b, Inst):
            return self.inst_cmp(op, a, b)
        if isinstance(a, (NdArr, ObjArr)) or isinstance(b, (NdArr, ObjArr)):
            if isinstance(a, ObjArr) or isinstance(b, ObjArr):
                raise Unsupported('comparison of object arrays')
            return self.M.array_cmp(op, a, b)
        if isinstance(a, DType) or isinstance(b, DType):
            x, y = self.M.to_dtype(a, soft=True), self.M.to_dtype(b, soft=True)
            r = x is not None and y is not None and x == y
            return r if op == 'eq' else (not r)
        if self.scalar(a) and self.scalar(b):
            if is_const(a) and is_const(b):
                return PYOP[op](a, b)
            ba = isinstance(a, bool) or (isinstance(a, Term) and a.sort in 'bB')
            bb = isinstance(b, bool) or (isinstance(b, Term) and b.sort in 'bB')
            if op in ('eq', 'ne') and ba and bb:
                if a is b:
                    return op == 'eq'
                if isinstance(b, bool):
                    return a if b == (op == 'eq') else self.not_(a)
                if isinstance(a, bool):
                    return b if a == (op == 'eq') else self.not_(b)
            t = mk(op, (a, b), 'B' if any(isinstance(x, Term) and x.sort in 'IFB' for x in (a, b)) else 'b')
            r = self.known(t)
            return t if r is None else r
        if isinstance(a, tuple) and isinstance(b, tuple) and op in ('eq', 'ne'):
            if len(a) != len(b):
                return op == 'ne'
            for x, y in zip(a, b):
                e = self.cmp('eq', x, y)
                if not self.truth(e):
                    return op == 'ne'
            return op == 'eq'
        if isinstance(a, Lst) and isinstance(b, Lst) and op in ('eq', 'ne'):
            if a.concrete and b.concrete:
                return self.cmp(op, tuple(a.items), tuple(b.items))
            raise Unsupported('comparison of symbolic lists')
        if isinstance(a, SetV) and isinstance(b, SetV):
            return self.M.set_cmp(op, a, b)
        if isinstance(a, str) and isinstance(b, str):
            return PYOP[op](a, b)
        if op in ('eq', 'ne'):
            if isinstance(a, Term) and a is b:
                return op == 'eq'
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Term) and x.sort in ('s', 'o') and (isinstance(y, (str, int, float, type(None))) or isinstance(y, Term)):
                    t = mk('same', (x, y), 'b')
                    r = self.known(t)
                    if r is None:
                        return t if op == 'eq' else mk('not', (t,), 'b')
                    return r == (op == 'eq')
            if isinstance(a, Dct) and isinstance(b, Dct):
                r = set(a.d) == set(b.d) and all(self.truth(self.cmp('eq', a.d[k][1], b.d[k][1])) for k in a.d)
                return r == (op == 'eq')
            r = self.is_(a, b)
            if isinstance(r, bool):
                return r == (op == 'eq')
            return r if op == 'eq' else self.not_(r)
        for x in (a, b):
            if isinstance(x, Term) and x.sort in ('s', 'o'):
                return mk('ext', ('op.' + op, (self.M.reify(a), self.M.reify(b)), 'bool'), 'b')
        self.throw('TypeError', f"'{op}' not supported between instances of '{self.M.typename(a)}' and '{self.M.typename(b)}'")

    def inst_cmp(self, op, a, b):
        if isinstance(a, (NdArr, Term)) and isinstance(b, Inst) and isinstance(a, NdArr):
            return self.M.array_cmp(op, a, self.M.asarray(b))
        names = {'eq': '__eq__', 'ne': '__ne__', 'lt': '__lt__', 'le': '__le__', 'gt': '__gt__', 'ge': '__ge__'}

        def attempt(x, y, o):
            if not isinstance(x, Inst):
                return NOTIMPL
            f, _ = x.cls.lookup(names[o])
            if f is not None:
                return self.call(self.bind(f, x, x.cls), [y], {})
            if o == 'ne':
                f, _ = x.cls.lookup('__eq__')
                if f is not None:
                    r = self.call(self.bind(f, x, x.cls), [y], {})
                    return r if r is NOTIMPL else self.not_(r)
            if x.cls.kind == 'namedtuple' and o in ('eq', 'ne'):
                yy = tuple(y.attrs[f] for f in y.cls.fields) if isinstance(y, Inst) and y.cls.kind == 'namedtuple' else y
                return self.cmp(o, tuple(x.attrs[f] for f in x.cls.fields), yy)
            return NOTIMPL
        first, second = (a, b), (b, a)
        o1, o2 = op, SWAP[op]
        if isinstance(a, Inst) and isinstance(b, Inst) and b.cls is not a.cls and a.cls in b.cls.mro:
            first, second, o1, o2 = second, first, o2, o1
        r = attempt(first[0], first[1], o1)
        if r is NOTIMPL:
            r = attempt(second[0], second[1], o2)
        if r is NOTIMPL:
            if op == 'eq':
                return a is b
            if op == 'ne':
                return a is not b
            self.throw('TypeError', f"'{op}' not supported")
        return r
