"""Abstract semantics of numpy arrays (shapes, dtypes, sharing, write protection, value numbers)."""
import inspect

import numpy as np

from .terms import (Term, mk, P, padd, pscale, pmul, mkpoly, is_const, isint, INF, NUM, NpInt, NpFloat, npscalar)
from .values import *
from . import nf as NF
from .nf import EvalError, EvalUnknown, OffPath, Opaque

FULL = ('slice', None, None, None)

ELEM_OPS = {  # ufunc -> term operator
    'add': 'add', 'subtract': 'sub', 'multiply': 'mul', 'divide': 'div', 'true_divide': 'div', 'floor_divide': 'floordiv',
    'mod': 'mod', 'remainder': 'mod', 'power': 'pow', 'float_power': 'pow', 'negative': 'neg', 'absolute': 'abs', 'abs': 'abs', 'fabs': 'abs',
    'sqrt': 'sqrt', 'less': 'lt', 'less_equal': 'le', 'greater': 'gt', 'greater_equal': 'ge', 'equal': 'eq', 'not_equal': 'ne',
    'logical_and': 'and', 'logical_or': 'or', 'logical_not': 'not', 'maximum': 'max', 'minimum': 'min',
    'isnan': 'isnan', 'isinf': 'isinf', 'isfinite': 'isfinite', 'bitwise_and': 'and_', 'bitwise_or': 'or_',
    'invert': 'invert', 'bitwise_not': 'invert', 'bitwise_xor': 'xor', 'logical_xor': 'ne'}
ELEM_NP1 = {'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'sinh', 'cosh', 'tanh', 'exp', 'log', 'log2', 'log10', 'log1p', 'expm1',
            'floor', 'ceil', 'rint', 'trunc', 'sign', 'deg2rad', 'rad2deg', 'degrees', 'radians', 'cbrt', 'signbit', 'reciprocal',
            'nan_to_num', 'fix', 'round', 'around', 'round_', 'sinc', 'exp2', 'spacing', 'conj', 'conjugate', 'real', 'imag'}
ELEM_NP2 = {'arctan2', 'hypot', 'fmax', 'fmin', 'copysign', 'nextafter', 'fmod', 'heaviside', 'logaddexp'}
REDUCE = {'sum': 'sum', 'prod': 'prod', 'product': 'prod', 'all': 'all', 'any': 'any', 'alltrue': 'all', 'sometrue': 'any', 'min': 'amin', 'amin': 'amin', 'max': 'amax', 'amax': 'amax',
          'mean': 'mean', 'average': 'mean'}
BOOLRES = {'lt', 'le', 'gt', 'ge', 'eq', 'ne', 'and', 'or', 'not', 'isnan', 'isinf', 'isfinite', 'isclose'}
OWNSORT = {'f': 'F', 'i': 'I', 'u': 'I', 'b': 'B'}
METHODS_NP = {'sum', 'prod', 'all', 'any', 'min', 'max', 'mean', 'std', 'var', 'ptp', 'cumsum', 'cumprod', 'argmin', 'argmax', 'argsort', 'nonzero',
              'dot', 'repeat', 'round', 'clip', 'searchsorted', 'take', 'trace', 'diagonal', 'compress', 'choose', 'conj', 'conjugate'}
OUT_FUNCS = set()
NPALIAS = {'product': 'prod', 'alltrue': 'all', 'sometrue': 'any', 'in1d': 'isin', 'row_stack': 'vstack', 'cumproduct': 'cumprod',
           'trapz': 'trapezoid', 'asfarray': 'asarray', 'round_': 'round', 'amin': 'amin', 'amax': 'amax'}


def kind(dtype):
    if dtype is None:
        return None
    if dtype in ('object',):
        return 'O'
    if dtype == 'str':
        return 'U'
    try:
        return np.dtype(dtype).kind
    except TypeError:
        return None


def walk_syms(t, out, seen):
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, Term):
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == 'sym':
                out.append(x)
                if x.sort == 'A':
                    stack.extend(x.args[1][0])
            else:
                stack.extend(x.args)


VALUE_SIZED = {'unique', 'union1d', 'intersect1d', 'setdiff1d', 'setxor1d', 'argwhere', 'extract', 'trim_zeros', 'flatnonzero'}


def syms_of(t):
    out = []
    walk_syms(t, out, set())
    return out


_subst_memo = {}


def subst(t, sym, val):
    """replace a symbol in a term"""
    if isinstance(t, tuple):
        return tuple(subst(x, sym, val) for x in t)
    if not isinstance(t, Term):
        return t
    if t is sym:
        return val
    if t.op == 'sym':
        return t
    key = (t.id, sym.id, val.id if isinstance(val, Term) else ('c', val))
    r = _subst_memo.get(key)
    if r is None:
        if t.op == 'poly':
            p = {}
            for m, c in t.args[0]:
                q = {(): c}
                for a, e in m:
                    b = P(subst(a, sym, val))
                    if e == int(e) and e > 0:
                        for _ in range(int(e)):
                            q = pmul(q, b)
                    else:
                        q = pmul(q, {((mk('base', (subst(a, sym, val),), 'A'), e),): 1})
                p = padd(p, q)
            r = mkpoly(p, t.sort)
        else:
            r = mk(t.op, subst(t.args, sym, val), t.sort)
        _subst_memo[key] = r
    return r


def mentions(t, sym):
    return sym in syms_of(t)


# integer types whose arithmetic leaves the range on ordinary data (coordinates of images, for instance)
NARROW = {'int8', 'int16', 'int32', 'uint8', 'uint16', 'uint32', 'uint64'}


class NumpyModel:
    # ------------------------------------------------------------ construction
    def arr(self, term, shape, dtype, **kw):
        return self.I.new(NdArr(term, None if shape is None else tuple(shape), dtype, site=self.I.site, **kw))

    def resort(self, t, s):
        if not isinstance(t, Term) or t.sort == s:
            return t
        if t.op == 'sym':
            return mk('conv', (t,), s)
        return mk(t.op, t.args, s)

    def wrap(self, term, shape, dtype, **kw):
        """array value, or numpy scalar when the result is 0-dimensional"""
        if shape is not None and len(shape) == 0:
            s = OWNSORT.get(kind(dtype), 'o')
            if dtype is None:
                s = 'F'
            if not isinstance(term, Term):
                return npscalar(term, dtype) if dtype is not None else term
            return self.resort(term, s)
        return self.arr(term, shape, dtype, **kw)

    def term_of(self, v):
        """term of an array-like operand"""
        if isinstance(v, NdArr):
            return self.cur(v)
        if isinstance(v, Term) or isinstance(v, (int, float, bool, complex)):
            return v
        return self.reify(v)

    def cur(self, a):
        if a.base is None:
            return a.term
        b = self.cur(a.base)
        k, x = a.vop
        if k == 'idx':
            return self.t_getitem(b, x)
        if k == 'T':
            return self.t_transpose(b, x)
        if k == 'reshape':
            return mk('reshape', (b, x), 'A')
        return a.term

    def t_getitem(self, t, idx):
        if all(c == FULL for c in idx):
            return t
        if isinstance(t, Term):
            if t.op == 'getitem' and len(idx) == 1 and all(isinstance(c, tuple) and c == FULL for c in t.args[1][:1]) and False:
                pass
            if t.op in ('stack',) and t.args[0] == 0 and len(idx) >= 1 and isinstance(idx[0], int) and not isinstance(idx[0], bool):
                xs = t.args[1]
                if -len(xs) <= idx[0] < len(xs):
                    x = xs[idx[0]]
                    return self.t_getitem(x, idx[1:]) if len(idx) > 1 else x
            if t.op == 'maparr' and len(idx) >= 1 and isint(idx[0]) and not isinstance(idx[0], bool) and self.nonneg(idx[0]):
                x = subst(t.args[2], t.args[1], idx[0])
                return self.t_getitem(x, idx[1:]) if len(idx) > 1 else x
        return mk('getitem', (t, tuple(idx)), 'A')

    def nonneg(self, i):
        if not isinstance(i, Term):
            return i >= 0
        return self.I.facts.sign_int(P(i)) <= {0, 1}

    def t_transpose(self, t, perm):
        perm = tuple(perm)
        if perm == tuple(range(len(perm))):
            return t
        if isinstance(t, Term) and t.op == 'transpose':
            q = tuple(t.args[1][i] for i in perm)
            if q == tuple(range(len(q))):
                return t.args[0]
            return mk('transpose', (t.args[0], q), 'A')
        return mk('transpose', (t, perm), 'A')

    def root(self, a):
        while a.base is not None:
            a = a.base
        return a

    # ------------------------------------------------------------ dims
    def dmul(self, dims):
        p = {(): 1}
        for d in dims:
            p = pmul(p, P(d))
        return mkpoly({m: c for m, c in p.items()}, 'i')

    def dadd(self, a, b, k=1):
        return mkpoly(padd(P(a), P(b), k), 'i')

    def size(self, shape):
        from fractions import Fraction
        p = {(): Fraction(1)}
        for d in shape:
            p = pmul(p, P(d))
        return mkpoly(p, 'i')

    def same_dim(self, a, b):
        """True/False/None"""
        if a is b or (is_const(a) and is_const(b)):
            return a is b or a == b
        s = self.I.facts.sign_int(padd(P(a), P(b), -1))
        if s == {0}:
            return True
        if 0 not in s:
            return False
        return None

    def same_dim_fork(self, a, b):
        r = self.same_dim(a, b)
        if r is None:
            vals = self.pool_truths(mk('eq', (a, b), 'b'))
            if vals and all(vals) and len(vals) >= 4:
                return True
            r = self.I.truth(self.I.cmp('eq', a, b))
        return r

    def pool_truths(self, cond, n=12):
        out = []
        for e in self.I.live()[:n]:
            try:
                out.append(bool(np.all(e.ev(cond))))
            except (EvalError, EvalUnknown, OffPath):
                pass
        return out

    def bdim(self, a, b, what='operands could not be broadcast together'):
        if is_const(a) and a == 1:
            return b
        if is_const(b) and b == 1:
            return a
        if self.same_dim_fork(a, b):
            return a if is_const(a) else b if is_const(b) else a
        if self.same_dim_fork(a, 1):
            return b
        if self.same_dim_fork(b, 1):
            return a
        self.I.throw('ValueError', what)

    def bshape(self, *shapes):
        r = ()
        for s in shapes:
            if s is None:
                return None
            n = max(len(r), len(s))
            x = (1,) * (n - len(r)) + tuple(r)
            y = (1,) * (n - len(s)) + tuple(s)
            r = tuple(self.bdim(p, q) for p, q in zip(x, y))
        return r

    def shape_of(self, v):
        if isinstance(v, NdArr):
            return v.shape
        return ()

    def dtype_of(self, v):
        if isinstance(v, NdArr):
            return v.dtype
        if isinstance(v, bool) or (isinstance(v, Term) and v.sort in 'bB'):
            return 'bool'
        if isinstance(v, int) or (isinstance(v, Term) and v.sort in 'iI'):
            return 'int64'
        if isinstance(v, float) or (isinstance(v, Term) and v.sort in 'fF'):
            return 'float64'
        if isinstance(v, complex):
            return 'complex128'
        return None

    def promote(self, *vs):
        """result dtype (value based casting for scalars)"""
        arrs = [v.dtype for v in vs if isinstance(v, NdArr)]
        scal = [self.dtype_of(v) for v in vs if not isinstance(v, NdArr)]
        if any(d is None for d in arrs + scal):
            return None
        if 'object' in arrs + scal:
            return 'object'
        if 'str' in arrs + scal:
            return None
        rank = {'b': 0, 'i': 1, 'u': 1, 'f': 2, 'c': 3}
        ra = np.result_type(*arrs) if arrs else None
        rs = np.result_type(*scal) if scal else None
        if ra is None:
            return rs.name
        if rs is None or rank[rs.kind] <= rank[ra.kind]:
            return ra.name
        return np.result_type(ra, rs).name if not (ra.kind in 'bf' and rs.kind == 'f') else (np.result_type(ra, rs).name)

    # ------------------------------------------------------------ array operators
    def coerce(self, v):
        if isinstance(v, NdArr):
            return v
        if isinstance(v, (Term, int, float, bool, complex)):
            if isinstance(v, Term) and v.sort in ('o', 's', 'A'):
                return None
            return v
        if isinstance(v, ObjArr):
            raise Unsupported('arithmetic of object arrays')
        if isinstance(v, (Lst, tuple, RangeV, Inst, SymSeq)):
            return self.asarray(v)
        return None

    def elementwise(self, op, *vs):
        xs = []
        for v in vs:
            c = self.coerce(v)
            if c is None:
                if isinstance(v, (str, type(None), Fn, Native, Cls, Dct)):
                    if op in ('eq', 'ne'):
                        return op == 'ne'
                    self.I.throw('TypeError', 'ufunc not supported for the input types')
                raise Unsupported('array operation with unknown operand')
            xs.append(c)
        if not any(isinstance(x, NdArr) for x in xs):
            return self.scalar_elem(op, xs)
        shape = self.bshape(*[self.shape_of(x) for x in xs])
        if any(isinstance(x, NdArr) and kind(x.dtype) in ('U', 'O') for x in xs):
            if op in ('eq', 'ne'):
                return self.wrap(mk('unk', (self.I.count('unk'),), 'A'), shape, 'bool')
            if any(isinstance(x, NdArr) and kind(x.dtype) == 'U' for x in xs) or op in ('isnan', 'isinf', 'isfinite'):
                self.I.throw('TypeError', 'ufunc not supported for the input types')
            raise Unsupported('object array operation')
        dt = self.promote(*xs)
        if op in ('and_', 'or_', 'xor', 'invert'):
            if dt == 'bool':
                op = {'and_': 'and', 'or_': 'or', 'xor': 'ne', 'invert': 'not'}[op]
            elif kind(dt) == 'f':
                self.I.throw('TypeError', f"ufunc '{op}' not supported for the input types")
            elif dt is None:
                op = {'and_': 'and', 'or_': 'or', 'xor': 'ne', 'invert': 'not'}[op]
            else:
                nm = {'and_': 'bitwise_and', 'or_': 'bitwise_or', 'xor': 'bitwise_xor', 'invert': 'invert'}[op]
                return self.wrap(mk('np', (nm, tuple(self.term_of(x) for x in xs), ()), 'A'), shape, dt)
        if op == 'sub' and dt == 'bool':
            self.I.throw('TypeError', 'numpy boolean subtract, the `-` operator, is not supported')
        if op == 'neg' and dt == 'bool':
            self.I.throw('TypeError', 'The numpy boolean negative is not supported')
        if op in BOOLRES:
            dt = 'bool'
        elif op in ('div', 'sqrt') and kind(dt) in ('i', 'u', 'b'):
            dt = 'float64'
        elif op == 'pow' and kind(dt) in ('i', 'u') and is_const(xs[1]) and isinstance(xs[1], int) and xs[1] < 0:
            self.I.throw('ValueError', 'Integers to negative integer powers are not allowed.')
        ts = [self.term_of(x) for x in xs]
        if op in ('max', 'min') or op in ('and', 'or'):
            t = mk(op, ts, 'A')
        elif op == 'pow' and is_const(ts[1]) and ts[1] == 2:
            t = mk('mul', (ts[0], ts[0]), 'A')
        else:
            t = mk(op, ts, 'A')
        if op == 'neg' and is_const(ts[0]):
            t = -ts[0]
        if dt in NARROW and op in ('add', 'sub', 'mul', 'pow', 'neg', 'abs', 'floordiv') and isinstance(t, Term):
            t = mk('astype', (t, dt), 'A')      # arithmetic modulo the range of the type
        return self.wrap(t, shape, dt)

    def scalar_elem(self, op, xs):
        if op in ('and_', 'or_', 'xor') or (op in ('add', 'sub', 'mul', 'floordiv', 'mod', 'pow')):
            return self.I.scalar_binop(op, *xs)
        if op == 'div':
            if all(is_const(x) for x in xs):
                with np.errstate(all='ignore'):
                    return float(np.true_divide(*xs))
            return mk('div', xs, 'F')
        if op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
            return self.I.cmp(op, *xs)
        if op == 'neg':
            return self.I.unop('neg', xs[0])
        if op == 'not':
            return self.I.not_(xs[0]) if isinstance(xs[0], (bool, Term)) else not xs[0]
        if op in ('and', 'or'):
            return self.I.scalar_binop(op + '_', *xs) if all(isinstance(x, bool) or (isinstance(x, Term) and x.sort in 'bB') for x in xs) \
                else mk(op, xs, 'B')
        if op in ('abs', 'sqrt', 'isnan', 'isinf', 'isfinite') and is_const(xs[0]):
            with np.errstate(all='ignore'):
                r = {'abs': np.abs, 'sqrt': np.sqrt, 'isnan': np.isnan, 'isinf': np.isinf, 'isfinite': np.isfinite}[op](xs[0])
            return r.item() if hasattr(r, 'item') else r
        if op in ('max', 'min') and all(is_const(x) for x in xs):
            return max(xs) if op == 'max' else min(xs)
        srt = 'B' if op in BOOLRES else ('I' if all(isint(x) for x in xs) and op != 'sqrt' else 'F')
        if op == 'invert':
            return self.I.unop('invert', xs[0])
        return mk(op, xs, srt)

    def array_binop(self, op, a, b):
        if op == 'matmul':
            return self.np_call('matmul', [a, b], {})
        if isinstance(a, Inst) and not isinstance(b, Inst):
            r = self.I.inst_binop(op, a, b)
            return r
        return self.elementwise(op, a, b)

    def array_cmp(self, op, a, b):
        if isinstance(b, Inst) and isinstance(a, NdArr) and b.cls.kind != 'enum' and b.cls.lookup('__len__')[1] is None:
            if op in ('eq', 'ne'):
                return self.wrap(mk('unk', (self.I.count('unk'),), 'A'), a.shape, 'bool')
        r = self.elementwise(op, a, b)
        return r

    def array_unop(self, op, v):
        if op == 'pos_':
            return self.array_copy(v)
        return self.elementwise(op, v)

    def array_truth(self, v):
        if v.shape is None:
            return self.I.truth_term(mk('bool', (self.cur(v),), 'b'))
        n = self.size(v.shape)
        if is_const(n):
            if n == 0:
                return False
            if n == 1:
                t = self.t_getitem(self.cur(v), (0,) * len(v.shape)) if v.shape else self.cur(v)
                return self.I.truth(self.wrap(t, (), v.dtype))
            self.I.throw('ValueError', 'The truth value of an array with more than one element is ambiguous.')
        if self.I.truth(self.I.cmp('gt', n, 1)):
            self.I.throw('ValueError', 'The truth value of an array with more than one element is ambiguous.')
        if self.I.truth(self.I.cmp('eq', n, 0)):
            return False
        t = self.t_getitem(mk('np', ('ravel', (self.cur(v),), ()), 'A'), (0,))
        return self.I.truth(self.wrap(t, (), v.dtype))

    # ------------------------------------------------------------ writes
    def check_writable(self, a, msg='assignment destination is read-only'):
        if a.frozen:
            self.I.throw('ValueError', msg)

    def write(self, a, term):
        """the whole value of array a becomes `term`"""
        I = self.I
        if a.base is None:
            I.touch(a)
            I.event('arrwrite', a)
            a.term = term
            return
        if a.maybe or self.root(a).frozen and False:
            I.event('maybewrite', self.root(a))
            raise Unsupported('write through a possible view')
        b = a.base
        cb = self.cur(b)
        k, x = a.vop
        if k == 'idx':
            self.write(b, self.t_setitem(cb, x, term))
        elif k == 'T':
            inv = [0] * len(x)
            for i, q in enumerate(x):
                inv[q] = i
            self.write(b, self.t_transpose(term, inv))
        elif k == 'reshape':
            if b.shape is None:
                raise Unsupported('write through a reshaped array')
            self.write(b, mk('reshape', (term, b.shape), 'A'))
        else:
            raise Unsupported('write through a view')

    def t_setitem(self, t, idx, v):
        if isinstance(v, Term) and all(c == FULL for c in idx) and v.sort == 'A' and v.op != 'unk' and False:
            return v
        return mk('setitem', (t, tuple(idx), v), 'A')

    def array_inplace(self, op, cur, v):
        if cur.shape is not None and len(cur.shape) == 0:
            pass
        r = self.elementwise(op, cur, v) if op != 'matmul' else self.array_binop(op, cur, v)
        self.check_writable(cur, 'output array is read-only')
        if isinstance(r, NdArr):
            t, dt = self.cur(r), r.dtype
            if cur.shape is not None and r.shape is not None:
                if len(r.shape) != len(cur.shape) or any(self.same_dim(p, q) is False for p, q in zip(r.shape, cur.shape)):
                    self.I.throw('ValueError', 'non-broadcastable output operand')
        else:
            t, dt = r, cur.dtype
        if kind(dt) is not None and kind(cur.dtype) is not None:
            rank = {'b': 0, 'i': 1, 'u': 1, 'f': 2, 'c': 3, 'O': 4}
            if rank.get(kind(dt), 0) > rank.get(kind(cur.dtype), 0):
                self.I.throw('TypeError', 'Cannot cast ufunc output')
        self.write(cur, self.cast(t, dt, cur.dtype))
        return cur

    def cast(self, t, frm, to):
        if frm is None or to is None or frm == to:
            return t
        if frm in NARROW or (to in NARROW and kind(frm) in 'iu'):
            return mk('astype', (t, to), 'A') if isinstance(t, Term) else t
        if to in ('float64',) and kind(frm) in ('f', 'i', 'u', 'b'):
            if kind(frm) == 'b':
                return mk('astype', (t, to), 'A')
            return t
        if kind(frm) == 'f' and kind(to) == 'f':
            if (frm, to) == ('float64', 'float32'):
                return mk('astype', (t, to), 'A')
            return t             # widening; other roundings are ignored
        if kind(frm) in 'iu' and kind(to) in 'iu':
            return t
        return mk('astype', (t, to), 'A')

    def array_setitem(self, a, i, v):
        self.check_writable(a)
        idx, shape, view = self.index(a, i)
        if isinstance(v, NdArr):
            vt, vd = self.cur(v), v.dtype
            if shape is not None and v.shape is not None:
                self.check_assign(shape, v.shape)
        elif isinstance(v, (Lst, tuple, Inst, RangeV, SymSeq)):
            w = self.asarray(v)
            if isinstance(w, ObjArr):
                raise Unsupported('object store')
            vt, vd = self.cur(w), w.dtype
            if shape is not None and w.shape is not None:
                self.check_assign(shape, w.shape)
        elif isinstance(v, (Term, int, float, bool)) and not (isinstance(v, Term) and v.sort in 'os'):
            vt, vd = v, self.dtype_of(v)
        elif isinstance(v, Term):
            vt, vd = v, None
        elif v is None:
            self.I.throw('TypeError', 'float() argument must be a number')
        else:
            raise Unsupported('array store')
        vt = self.cast(vt, vd, a.dtype)
        I = self.I
        loops = [l for l in I.loops if any(mentions(c, l.index) for c in idx if not isinstance(c, (int, str, type(None)))) or mentions(vt, l.index)]
        ct = self.cur(a)
        if loops:
            l = loops[-1]
            if len(loops) > 1 or self.conditional(l) or a.base is not None or mentions(ct, l.index):
                self.write(a, mk('unk', ('loopwrite', I.count('unk')), 'A'))
                return
            if self.contains_term(vt, ct) and not (len(idx) >= 1 and self.only_at(vt, ct, idx)):
                self.write(a, mk('unk', ('loopwrite', I.count('unk')), 'A'))
                return
            if not any(mentions(c, l.index) for c in idx if isinstance(c, (Term, tuple))):
                self.write(a, mk('unk', ('loopwrite', I.count('unk')), 'A'))
                return
            self.write(a, mk('loopset', (ct, l.length, l.index, idx, vt), 'A'))
            return
        self.write(a, self.t_setitem(ct, idx, vt))

    def only_at(self, vt, ct, idx):
        g = self.t_getitem(ct, idx)
        # every occurrence of ct is inside getitem(ct, idx)
        def occ(t):
            if isinstance(t, tuple):
                return all(occ(x) for x in t)
            if not isinstance(t, Term):
                return True
            if t is g:
                return True
            if t is ct:
                return False
            return all(occ(x) for x in t.args) if t.op != 'sym' else True
        return occ(vt)

    def contains_term(self, t, x):
        stack, seen = [t], set()
        while stack:
            y = stack.pop()
            if y is x:
                return True
            if isinstance(y, tuple):
                stack.extend(y)
            elif isinstance(y, Term) and y.id not in seen:
                seen.add(y.id)
                if y.op != 'sym':
                    stack.extend(y.args)
        return False

    def conditional(self, loop):
        """has the current iteration of the loop taken index-dependent decisions"""
        n = getattr(loop, 'tracelen', None)
        if n is None:
            return True
        return any(mentions(c, loop.index) for c, _, _ in self.I.trace[n:])

    def check_assign(self, shape, vshape):
        vs = list(vshape)
        while len(vs) > len(shape):
            if is_const(vs[0]) and vs[0] == 1:
                vs.pop(0)
            else:
                self.I.throw('ValueError', 'could not broadcast input array')
        for p, q in zip(shape[len(shape) - len(vs):], vs):
            if is_const(q) and q == 1:
                continue
            if not self.same_dim_fork(p, q):
                if not self.same_dim_fork(q, 1):
                    self.I.throw('ValueError', 'could not broadcast input array')

    # ------------------------------------------------------------ indexing
    def resolve_slice(self, s, n):
        """(canonical component, length)"""
        I = self.I
        a, b, st = s.a, s.b, s.s
        vals = []
        for x in (a, b, st):
            x = I.num(x)
            if isinstance(x, Inst):
                f, _ = x.cls.lookup('__index__')
                if f is None:
                    I.throw('TypeError', 'slice indices must be integers')
                x = I.call(Bound(f, x), [], {})
            if isinstance(x, float) or (isinstance(x, Term) and x.sort in ('f', 'F')) or isinstance(x, (str, Lst)):
                I.throw('TypeError', 'slice indices must be integers or None or have an __index__ method')
            if isinstance(x, NdArr):
                x = self.wrap(self.cur(x), (), x.dtype)
            if isinstance(x, Term) and x.sort == 'o':
                raise Unsupported('slice with unknown bounds')
            vals.append(x)
        a, b, st = vals
        if st is None:
            st = 1
        if is_const(st) and st == 0:
            I.throw('ValueError', 'slice step cannot be zero')
        F = I.facts

        def sgn(p):
            return F.sign_int(p)
        if is_const(st) and st == 1:
            def clamp(x, dflt):
                if x is None:
                    return dflt
                p = P(x)
                s_ = sgn(p)
                if s_ <= {-1}:
                    p = padd(P(n), p)
                    if sgn(p) <= {-1, 0}:
                        return 0
                    if not sgn(p) <= {0, 1}:
                        return None
                elif not s_ <= {0, 1}:
                    return None
                d = sgn(padd(p, P(n), -1))
                if d <= {-1, 0}:
                    return mkpoly(p, 'i')
                if d <= {0, 1}:
                    return n
                return None
            lo, hi = clamp(a, 0), clamp(b, n)
            if lo is not None and hi is not None:
                d = padd(P(hi), P(lo), -1)
                sd = sgn(d)
                ln = mkpoly(d, 'i') if sd <= {0, 1} else 0 if sd <= {-1, 0} else None
                if ln is not None:
                    ca = None if is_const(lo) and lo == 0 else lo
                    cb = None if self.same_dim(hi, n) is True else hi
                    if cb is not None and isinstance(cb, Term):
                        dd = mkpoly(padd(P(cb), P(n), -1), 'i')
                        if is_const(dd) and dd < 0:
                            cb = dd
                    return ('slice', ca, cb, None), ln
            return ('slice', a, b, None), mk('slicelen', (n, a, b, None), 'i')
        if is_const(st) and st == -1 and a is None and b is None:
            return ('slice', None, None, -1), n
        if all(is_const(x) for x in (n, a, b, st)):
            return ('slice', a, b, st), len(range(*slice(a, b, st).indices(n)))
        return ('slice', a, b, st), mk('slicelen', (n, a, b, st), 'i')

    def in_range(self, i, n):
        """does index i of an axis of length n exist (forks when unknown)"""
        I = self.I
        F = I.facts
        lo = F.sign_int(padd(P(i), P(n)))              # i + n >= 0
        hi = F.sign_int(padd(padd(P(n), P(i), -1), {(): 1}, -1))   # n - i - 1 >= 0
        if lo <= {0, 1} and hi <= {0, 1}:
            return True
        if lo <= {-1} or hi <= {-1}:
            return False
        if not hi <= {0, 1}:
            if not I.truth(I.cmp('lt', i, n)):
                return False
        if not lo <= {0, 1}:
            if not I.truth(I.cmp('ge', i, I.unop('neg', n))):
                return False
        return True

    def index(self, a, i):
        """(index components, result shape, is view)"""
        I = self.I
        comps = list(i) if isinstance(i, tuple) else [i]
        out, shape, view = [], [], True
        nd = None if a.shape is None else len(a.shape)
        used = 0
        norm = []
        for c in comps:
            c = I.num(c)
            if isinstance(c, Inst):
                if c.cls.lookup('__index__')[1] is not None:
                    c = I.call(Bound(c.cls.lookup('__index__')[0], c), [], {})
                else:
                    c = self.asarray(c)
            if isinstance(c, (Lst, RangeV)) or (isinstance(c, tuple) and len(comps) > 0 and c is not i):
                c = self.asarray(c)
                if isinstance(c, NdArr) and c.shape is not None and len(c.shape) == 1 and is_const(c.shape[0]) and c.shape[0] == 0:
                    c = self.arr(mk('astype', (self.cur(c), 'int64'), 'A'), c.shape, 'int64')
            if isinstance(c, NdArr) and c.shape is not None and len(c.shape) == 0:
                c = self.wrap(self.cur(c), (), c.dtype)
            norm.append(c)
        for c in norm:
            if isinstance(c, NdArr) and kind(c.dtype) == 'b':
                used += len(c.shape) if c.shape is not None else 1
            elif c is None or c is Ellipsis:
                pass
            else:
                used += 1
        if nd is not None and used > nd:
            I.throw('IndexError', 'too many indices for array')
        if Ellipsis not in [c for c in norm if c is Ellipsis or not isinstance(c, (NdArr, Term))] and nd is not None:
            norm = norm + [SliceV(None, None, None)] * (nd - used)
        elif nd is not None:
            k = [j for j, c in enumerate(norm) if c is Ellipsis][0]
            norm = norm[:k] + [SliceV(None, None, None)] * (nd - used) + norm[k + 1:]
        ax = 0
        adv = []          # (position in result, shape)
        for c in norm:
            if c is None:
                out.append('newaxis')
                shape.append(1)
                continue
            n = a.shape[ax] if nd is not None else None
            if isinstance(c, SliceV):
                if n is None:
                    out.append(('slice', c.a, c.b, c.s))
                    ax += 1
                    continue
                comp, ln = self.resolve_slice(c, n)
                out.append(comp)
                shape.append(ln)
                ax += 1
                continue
            if isinstance(c, bool) or (isinstance(c, Term) and c.sort in 'bB'):
                raise Unsupported('boolean scalar index')
            if isinstance(c, float) or (isinstance(c, Term) and c.sort in ('f', 'F')) or isinstance(c, (str, Dct)):
                I.throw('IndexError', 'only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices')
            if isint(c):
                if n is not None:
                    if not self.in_range(c, n):
                        I.throw('IndexError', f'index is out of bounds for axis {ax}')
                    if I.facts.sign_int(P(c)) <= {-1} and isinstance(n, int):
                        c = self.dadd(c, n)
                    elif isinstance(c, Term) and I.facts.sign_int(P(c)) <= {-1}:
                        c = self.dadd(c, n)
                out.append(c)
                ax += 1
                continue
            if isinstance(c, NdArr):
                view = False
                k = kind(c.dtype)
                t = self.cur(c)
                if k == 'b':
                    m = len(c.shape) if c.shape is not None else 1
                    for q in range(m):
                        if nd is not None and c.shape is not None:
                            if not self.same_dim_fork(a.shape[ax + q], c.shape[q]):
                                I.throw('IndexError', 'boolean index did not match indexed array')
                    if isinstance(t, Term):
                        t = self.resort(t, 'A')
                    out.append(t)
                    adv.append((len(shape), (mk('nnz', (t,), 'i'),)))
                    ax += m
                    continue
                if k == 'f' or k in ('U', 'O', 'c'):
                    if k == 'f' and c.shape is not None and self.size(c.shape) == 0:
                        pass
                    I.throw('IndexError', 'arrays used as indices must be of integer (or boolean) type')
                if n is not None:
                    cond = mk('all', (mk('and', (mk('ge', (t, I.unop('neg', n)), 'A'), mk('lt', (t, n), 'A')), 'A'), None), 'B')
                    vals = self.pool_truths(cond, 24)
                    if not vals or not all(vals):
                        if not I.truth(cond):
                            I.throw('IndexError', f'index is out of bounds for axis {ax}')
                out.append(t)
                adv.append((len(shape), c.shape if c.shape is not None else (mk('len', (t,), 'i'),)))
                ax += 1
                continue
            if isinstance(c, Term):
                out.append(c)
                return tuple(out), None, False
            I.throw('IndexError', 'only integers, slices, ellipsis, newaxis and arrays are valid indices')
        if nd is None:
            return tuple(out), None, view
        if adv:
            if any(isint(c) and not isinstance(c, bool) for c in out) and len(adv) >= 1:
                pass
            pos = adv[0][0] if all(p == adv[0][0] for p, _ in adv) else 0
            # advanced indices separated by slices move to the front
            advpos = [j for j, c in enumerate(out) if isinstance(c, Term) and c.sort == 'A' or (isint(c))]
            if advpos and advpos != list(range(advpos[0], advpos[-1] + 1)):
                pos = 0
            bs = self.bshape(*[s for _, s in adv])
            shape = shape[:pos] + list(bs) + shape[pos:]
        while out and out[-1] == FULL and len(out) > 1:
            out.pop()
        return tuple(out), tuple(shape), view

    def array_getitem(self, a, i):
        if self.I.concretise and isinstance(i, NdArr) and kind(i.dtype) == 'b' and i.shape and len(i.shape) == 1 and a.shape and is_const(i.shape[0]) \
                and i.shape[0] == a.shape[0] and i.shape[0] <= 36:
            i = self.concrete_nonzero(i)[0]
        idx, shape, view = self.index(a, i)
        t = self.t_getitem(self.cur(a), idx)
        if shape is not None and len(shape) == 0:
            r = self.wrap(t, (), a.dtype)
            if isinstance(r, Term) and kind(a.dtype) == 'i':
                lim = self.limit(t)
                f = self.I.facts
                if lim is not None:
                    lim = NF.poly(lim)
                    for q in {mkpoly(NF.poly(self.resort(t, x)), 'i') for x in ('i', 'I')}:
                        if isinstance(q, Term) and q.op != 'poly' and q not in f.bounds:
                            f.bounds[q] = (0, INF)
                            f.ineqs.append(padd(padd(lim, P(q), -1), {(): 1}, -1))
            return r
        if view:
            return self.arr(t, shape, a.dtype, base=a, vop=('idx', idx), origin=a.origin, frozen=a.frozen)
        if shape is None and self.infer_scalar(t):
            return self.wrap(t, (), a.dtype)
        return self.arr(t, shape, a.dtype)

    def limit(self, t):
        """n if every element of the integer array is known to lie in range(n) (positions of true elements and selections of them)"""
        while isinstance(t, Term):
            if t in self.I.limits:
                return self.I.limits[t]
            if t.op == 'getitem':
                t = t.args[0]
            elif t.op == 'np' and t.args[0] in ('sort', 'unique', 'flip'):
                t = t.args[1][0]
            else:
                return None
        return None

    def infer_scalar(self, t):
        return False

    def array_iter(self, a):
        if a.shape is None:
            t = self.cur(a)
            return SymSeq(mk('shape', (t, 0), 'i'), lambda i: self.array_getitem(a, i))
        if not a.shape:
            self.I.throw('TypeError', 'iteration over a 0-d array')
        n = a.shape[0]
        if is_const(n):
            if n > 400:
                raise Unsupported('long iteration')
            return [self.array_getitem(a, i) for i in range(n)]
        return SymSeq(n, lambda i: self.array_getitem(a, i), tag=('arr', a))

    # ------------------------------------------------------------ attributes
    def array_setattr(self, o, name, v):
        I = self.I
        if isinstance(o, Flags):
            a = o.arr
            if name in ('writeable',):
                self.set_writeable(a, I.truth(v))
                return
            raise Unsupported('array flag ' + name)
        if name == 'shape' and isinstance(o, NdArr):
            r = self.reshape(o, v)
            I.touch(o)
            raise Unsupported('in-place reshape')
        if name == 'flags':
            raise Unsupported('flags assignment')
        I.throw('AttributeError', name)

    def set_writeable(self, a, flag):
        I = self.I
        if flag:
            b = a.base
            if b is not None and b.frozen and not a.maybe:
                I.throw('ValueError', 'cannot set WRITEABLE flag to True of this array')
            if a.frozen:
                I.event('thaw', a)
        if a.frozen != (not flag):
            I.touch(a)
            a.frozen = not flag
            I.event('freeze', a)

    def array_copy(self, a):
        return self.arr(self.cur(a), a.shape, a.dtype)

    def view(self, a, term, shape, vop, maybe=False):
        return self.arr(term, shape, a.dtype, base=a, vop=vop, origin=a.origin, frozen=a.frozen, maybe=maybe)

    def transpose(self, a, axes):
        if a.shape is None:
            return self.arr(mk('np', ('transpose', (self.cur(a),) + (() if axes is None else (tuple(axes),)), ()), 'A'), None, a.dtype, base=a, vop=('opaque', None), maybe=True, frozen=a.frozen)
        n = len(a.shape)
        if axes is None:
            perm = tuple(range(n))[::-1]
        else:
            perm = []
            for x in axes:
                if not isinstance(x, int):
                    raise Unsupported('symbolic transpose axes')
                if not -n <= x < n:
                    self.I.throw('AxisError', 'axis is out of bounds')
                perm.append(x % n)
            if sorted(perm) != list(range(n)):
                self.I.throw('ValueError', "axes don't match array")
        return self.view(a, self.t_transpose(self.cur(a), perm), tuple(a.shape[p] for p in perm), ('T', tuple(perm)))

    def reshape(self, a, shp):
        I = self.I
        dims = self.dims(shp)
        if a.shape is None:
            return self.arr(mk('reshape', (self.cur(a), tuple(dims)), 'A'), None if -1 in dims else dims, a.dtype, base=a, vop=('reshape', tuple(dims)), maybe=True, frozen=a.frozen)
        tot = self.size(a.shape)
        unknown = [k for k, d in enumerate(dims) if is_const(d) and d == -1]
        if len(unknown) > 1:
            I.throw('ValueError', 'can only specify one unknown dimension')
        if unknown:
            rest = self.size([d for k, d in enumerate(dims) if k != unknown[0]])
            q = I.scalar_binop('floordiv', tot, rest) if not (is_const(rest) and rest == 0) else 0
            dims[unknown[0]] = q
            if is_const(tot) and is_const(rest) and rest and tot % rest:
                I.throw('ValueError', 'cannot reshape array')
        else:
            r = self.same_dim(tot, self.size(dims))
            if r is None:
                r = self.same_dim_fork(tot, self.size(dims))
            if r is False:
                I.throw('ValueError', 'cannot reshape array')
        dims = tuple(dims)
        if len(dims) == len(a.shape) and all(self.same_dim(p, q) is True for p, q in zip(dims, a.shape)):
            return self.view(a, self.cur(a), a.shape, ('idx', (FULL,)))
        # reshaping a contiguous owner is a view, otherwise it may be a copy
        return self.view(a, mk('reshape', (self.cur(a), dims), 'A'), dims, ('reshape', dims), maybe=a.base is not None)

    def dims(self, v):
        I = self.I
        if isint(v) or isinstance(v, float):
            v = (v,)
        out = []
        for d in I.concrete_list(v):
            d = I.num(d)
            if isinstance(d, NdArr) and d.shape == ():
                d = self.wrap(self.cur(d), (), d.dtype)
            if isinstance(d, bool):
                d = int(d)
            if not isint(d):
                I.throw('TypeError', "object cannot be interpreted as an integer")
            if isinstance(d, int) and d < -1:
                I.throw('ValueError', 'negative dimensions are not allowed')
            out.append(d)
        return out

    # ------------------------------------------------------------ conversion
    def asarray(self, v, dtype=None, copy=False, ndmin=0):
        I = self.I
        r = self._asarray(v, dtype)
        fresh = r is not v
        if isinstance(r, ObjArr):
            if r is v and copy:
                r = I.new(ObjArr(r.seq))
            return r
        if dtype is not None and r.dtype != dtype:
            r = self.astype(r, dtype)
            fresh = True
        if copy and not fresh:
            r = self.array_copy(r)
        if ndmin and r.shape is not None and len(r.shape) < ndmin:
            k = ndmin - len(r.shape)
            idx = ('newaxis',) * k
            t = self.t_getitem(self.cur(r), idx + ((FULL,) if r.shape else ('ellipsis',)))
            if not r.shape:
                t = mk('reshape', (self.cur(r), (1,) * k), 'A')
            r = self.arr(t, (1,) * k + r.shape, r.dtype) if copy or fresh else self.view(r, t, (1,) * k + r.shape, ('idx', idx + (FULL,)))
        return r

    def _asarray(self, v, dtype=None):
        I = self.I
        if isinstance(v, (NdArr, ObjArr)):
            return v
        if isinstance(v, Inst):
            if v.cls.kind == 'enum' and v.cls.extra == 'int':
                return self.arr(v.attrs['_value_'], (), 'int64')
            f, _ = v.cls.lookup('__array__')
            if f is not None:
                return I.call(Bound(f, v), [], {})
            if v.cls.lookup('__len__')[1] is not None and v.cls.lookup('__getitem__')[1] is not None:
                return self.seq_array(I.iterate_seq(v), dtype)
            if dtype not in (None, 'object'):
                I.throw('TypeError', 'float() argument must be a string or a number')
            return self.arr(self.reify(v), (), 'object')
        if isinstance(v, (Lst, tuple, RangeV, SymSeq)):
            src = I.iterate(v)
            return self.seq_array(src if isinstance(src, list) else [src], dtype)
        if isinstance(v, (int, float, bool, complex)):
            return self.arr(v, (), self.dtype_of(v))
        if isinstance(v, str) or (isinstance(v, Term) and v.sort == 's'):
            if dtype is not None and kind(dtype) in ('f', 'i', 'c'):
                I.throw('ValueError', 'could not convert string to float')
            return self.arr(mk('unk', ('str', I.count('unk')), 'A'), (), 'str')
        if isinstance(v, Term):
            if v.sort in NUM:
                return self.arr(v, (), self.dtype_of(v))
            if v.sort == 'A':
                return self.arr(v, None, None)
            return self.arr(mk('np', ('asarray', (v,), ()), 'A'), None, None)
        if v is None:
            if dtype is not None and kind(dtype) == 'f':
                return self.arr(float('nan'), (), 'float64')
            return self.arr(mk('unk', ('None',), 'A'), (), 'object')
        if dtype is not None and dtype != 'object':
            I.throw('TypeError', 'float() argument must be a string or a number')
        return self.arr(mk('unk', ('obj', I.count('unk')), 'A'), (), 'object')

    def seq_array(self, parts, dtype=None):
        """array of the items of a sequence"""
        I = self.I
        parts = list(parts)
        if not parts:
            return self.arr(mk('full', ((0,), 0, dtype or 'float64'), 'A'), (0,), dtype or 'float64')
        if dtype == 'object':
            return I.new(ObjArr(parts))
        secs = []       # arrays to be concatenated along axis 0
        run = []

        def flush():
            if run:
                secs.append(self.stack_items(list(run), dtype))
                run.clear()
        for p in parts:
            if isinstance(p, Each):
                p2 = self.full_each(p)
                if p2 is None:
                    k = mk('count', (p.loop.index, I.label(p)), 'i')
                    e = self._asarray(p.value, dtype)
                    if isinstance(e, ObjArr) or e.dtype == 'object':
                        return I.new(ObjArr(parts))
                    flush()
                    secs.append(self.arr(mk('unk', ('each', I.label(p)), 'A'), (k,) + tuple(e.shape or ()), e.dtype))
                    continue
                p = p2
            if isinstance(p, SymSeq):
                flush()
                n = p.length
                if is_const(n):
                    run.extend(p.get(i) for i in range(n))
                    flush()
                    continue
                if not I.truth(I.cmp('gt', n, 0)):
                    continue
                ix = I.fresh_index(n)
                e = p.get(ix)
                if self.is_object(e):
                    return I.new(ObjArr(parts))
                e = self._asarray(e, dtype)
                if isinstance(e, ObjArr) or e.dtype == 'object' or e.dtype == 'str':
                    return I.new(ObjArr(parts))
                body = self.cur(e)
                t = self.maparr(n, ix, body, e.shape, e.dtype)
                secs.append(self.arr(t, None if e.shape is None else (n,) + tuple(e.shape), e.dtype))
            else:
                if self.is_object(p):
                    return I.new(ObjArr(parts))
                run.append(p)
        flush()
        if not secs:
            return self.arr(mk('full', ((0,), 0, dtype or 'float64'), 'A'), (0,), dtype or 'float64')
        if len(secs) == 1:
            return secs[0]
        return self.concat(secs, 0)

    def full_each(self, e):
        """the sequence an unconditional append in a summarised loop builds, or None"""
        if getattr(e, 'full', False):
            l = e.loop
            return SymSeq(l.length, lambda i: self.subst_value(e.value, l.index, i))
        return None

    def subst_value(self, v, sym, val):
        if v is sym:
            return val
        if isinstance(v, Term):
            return subst(v, sym, val)
        if isinstance(v, tuple):
            return tuple(self.subst_value(x, sym, val) for x in v)
        if isinstance(v, NdArr):
            t = self.cur(v)
            t2 = subst(t, sym, val)
            sh = None if v.shape is None else subst(v.shape, sym, val)
            if t2 is t and sh == v.shape:
                return v
            return self.arr(t2, sh, v.dtype, frozen=v.frozen, origin=v.origin)
        if isinstance(v, Inst):
            new = {k: self.subst_value(x, sym, val) for k, x in v.attrs.items()}
            if all(new[k] is v.attrs[k] for k in new):
                return v
            return self.I.new(Inst(v.cls, new, v.origin))
        return v

    def maparr(self, n, ix, body, shape, dtype):
        # eta: x[i] for all i is x
        if isinstance(body, Term) and body.op == 'getitem' and body.args[1] and body.args[1][0] is ix \
                and len(body.args[1]) == 1 and not mentions(body.args[0], ix):
            x = body.args[0]
            ln = self.len_of_term(x)
            if ln is not None and self.same_dim(ln, n) is True:
                return x
        return mk('maparr', (n, ix, body, tuple(shape or ()), dtype), 'A')

    def len_of_term(self, t):
        if t.op == 'sym' and t.sort == 'A':
            return t.args[1][0][0] if t.args[1][0] else None
        if t.op in ('add', 'sub', 'mul', 'div'):
            for a in t.args:
                if isinstance(a, Term) and a.sort == 'A':
                    return self.len_of_term(a)
        if t.op in ('astype', 'setitem'):
            return self.len_of_term(t.args[0])
        return None

    def is_object(self, v):
        if isinstance(v, Inst):
            return not (v.cls.lookup('__len__')[1] is not None and v.cls.lookup('__getitem__')[1] is not None) \
                and not (v.cls.kind == 'enum' and v.cls.extra == 'int')
        return isinstance(v, (Fn, Native, Cls, Dct, SetV, Bound, Partial, Mod))

    def stack_items(self, items, dtype):
        I = self.I
        arrs = [self._asarray(x, dtype) for x in items]
        if any(isinstance(a, ObjArr) for a in arrs) or any(a.dtype == 'object' for a in arrs):
            return I.new(ObjArr(items))
        sh = arrs[0].shape
        for a in arrs[1:]:
            if sh is None or a.shape is None:
                sh = None
                break
            if len(sh) != len(a.shape):
                self.ragged(dtype)
            for p, q in zip(sh, a.shape):
                if not self.same_dim_fork(p, q):
                    self.ragged(dtype)
        ds = [a.dtype for a in arrs]
        if any(d == 'str' for d in ds):
            if dtype is not None:
                I.throw('ValueError', 'could not convert string to float')
            return self.arr(mk('unk', ('str', I.count('unk')), 'A'), None if sh is None else (len(arrs),) + tuple(sh), 'str')
        dt = None if any(d is None for d in ds) else np.result_type(*ds).name
        t = mk('stack', (0, tuple(self.cur(a) for a in arrs)), 'A')
        return self.arr(t, None if sh is None else (len(arrs),) + tuple(sh), dt)

    def ragged(self, dtype):
        self.I.throw('ValueError', 'setting an array element with a sequence.')

    def astype(self, a, dtype, copy=True):
        if isinstance(a, ObjArr):
            raise Unsupported('astype of object array')
        if a.dtype == dtype:
            return self.array_copy(a) if copy else a
        if a.dtype == 'str' and kind(dtype) in ('f', 'i', 'c'):
            self.I.throw('ValueError', 'could not convert string to float')
        if a.dtype == 'object':
            raise Unsupported('astype of object array')
        return self.arr(self.cast(self.cur(a), a.dtype, dtype), a.shape, dtype)

    def concat(self, arrs, axis):
        I = self.I
        arrs = [self.asarray(a) for a in arrs]
        if any(isinstance(a, ObjArr) for a in arrs):
            if all(isinstance(a, ObjArr) for a in arrs):
                return I.new(ObjArr([x for a in arrs for x in a.seq]))
            raise Unsupported('concatenation of object arrays')
        if not arrs:
            I.throw('ValueError', 'need at least one array to concatenate')
        dt = None if any(a.dtype is None for a in arrs) else np.result_type(*[a.dtype for a in arrs]).name if not any(a.dtype in ('object', 'str') for a in arrs) else None
        ts = []
        for a in arrs:
            t = self.cur(a)
            if isinstance(t, Term) and t.op == 'concat' and t.args[0] == axis:
                ts.extend(t.args[1])
            else:
                ts.append(t)
        if any(a.shape is None for a in arrs):
            return self.arr(mk('concat', (axis, tuple(ts)), 'A'), None, dt)
        nd = len(arrs[0].shape)
        if nd == 0:
            I.throw('ValueError', 'zero-dimensional arrays cannot be concatenated')
        if not -nd <= axis < nd:
            I.throw('AxisError', 'axis out of bounds')
        axis %= nd
        sh = list(arrs[0].shape)
        for a in arrs[1:]:
            if len(a.shape) != nd:
                I.throw('ValueError', 'all the input array dimensions must match')
            for k in range(nd):
                if k == axis:
                    sh[k] = self.dadd(sh[k], a.shape[k])
                elif not self.same_dim_fork(sh[k], a.shape[k]):
                    I.throw('ValueError', 'all the input array dimensions except for the concatenation axis must match exactly')
        if len(ts) == 1:
            return self.arr(ts[0], sh, dt)
        return self.arr(mk('concat', (axis, tuple(ts)), 'A'), sh, dt)

    # ------------------------------------------------------------ shape inference by evaluation
    def infer(self, term, dims=()):
        """evaluate a term on sample interpretations: (kind, data) where kind is 'raise', 'mix', 'ok', 'unknown'"""
        envs = self.I.live()[:10]
        if len(envs) < 4:
            envs = envs + [e for e in self.I.pool[:14] if e not in envs]
        vals, errs, unk = [], [], 0
        for e in envs:
            try:
                vals.append((e, e.ev(term)))
            except EvalError as x:
                errs.append((e, x))
            except OffPath:
                pass
            except EvalUnknown:
                unk += 1
        return vals, errs, unk

    def fit(self, vals, cands):
        """integer expression that matches observed values"""
        for c in cands:
            ok = True
            for e, v in vals:
                try:
                    x = e.ev(c) if isinstance(c, Term) else c
                except (EvalError, EvalUnknown, OffPath):
                    ok = False
                    break
                if int(x) != v:
                    ok = False
                    break
            if ok:
                return c
        return None

    def dim_candidates(self, term, args):
        dims, masks, lens = [], [], []
        def add(d):
            if d not in dims and not isinstance(d, str):
                dims.append(d)

        def scan(v, depth=0):
            if isinstance(v, NdArr):
                for d in (v.shape or ()):
                    add(d)
                if kind(v.dtype) == 'b' and v.shape is not None:
                    masks.append((self.cur(v), self.size(v.shape)))
            elif isinstance(v, (tuple, list)) and depth < 3:
                for x in v:
                    scan(x, depth + 1)
                add(len(v))
            elif isinstance(v, Lst) and depth < 3:
                for x in v.items:
                    scan(x, depth + 1)
            elif isint(v) and not isinstance(v, bool):
                add(v)
            elif isinstance(v, Dct):
                for _, x in v.d.values():
                    scan(x, depth + 1)
        for a in args:
            scan(a)
        syms = [d for d in dims if isinstance(d, Term)]
        out = list(syms)
        for m, n in masks:
            z = mk('nnz', (m,), 'i')
            out += [z, self.dadd(n, z, -1)]
        for i, a in enumerate(dims):
            for b in dims[i:]:
                if isinstance(a, Term) or isinstance(b, Term):
                    out.append(self.dadd(a, b))
        for a in syms:
            for k in (1, 2, 3):
                out.append(self.dadd(a, -k))
                out.append(self.dadd(a, k))
        for i, a in enumerate(syms):
            for b in dims:
                if a is not b:
                    out.append(self.dadd(a, b, -1))
                out.append(self.size((a, b)))
        for m, n in masks:
            for a in syms:
                out.append(self.dadd(a, mk('nnz', (m,), 'i'), -1))
        res = []
        for c in out:
            if c not in res:
                res.append(c)
        return res

    def result(self, term, args, force_raise=None):
        """abstract value of an unmodelled library call, given by its term"""
        I = self.I
        vals, errs, unk = self.infer(term)
        if errs and not vals and not unk:
            x = errs[0][1].exc
            I.throw(self.exc_name(x), str(x))
        if (errs and vals) or force_raise:
            c = mk('raises', (term,), 'b')
            if I.truth(c):
                if errs:
                    x = errs[0][1].exc
                    I.throw(self.exc_name(x), str(x))
                I.throw(force_raise, 'Singular matrix')
            vals, errs, unk = self.infer(term)
        if not vals:
            return self.arr(term, None, None)
        return self.from_samples(term, vals, args)

    def exc_name(self, x):
        n = type(x).__name__
        if n in ('LinAlgError', 'AxisError') or n in self.excs:
            return n
        return 'ValueError'

    def value_sized(self, term):
        """(term that has the length, axis) of a result whose length depends on the values of the arguments"""
        base, k = (term.args[0], term.args[1]) if term.op == 'proj' else (term, 0)
        if not isinstance(base, Term) or base.op != 'np' or base.args[0] not in VALUE_SIZED or not syms_of(base):
            return None
        kw = dict(base.args[2])
        ax = kw.get('axis', 0)
        if base.args[0] == 'unique' and term.op == 'proj':
            if k and 'return_inverse' in kw and k == (2 if 'return_index' in kw else 1):
                return None
            if k:
                ax, term = 0, mk('proj', (base, 0), 'A')
            return None if k and kw.get('axis') not in (None, 0) else (term, ax if isinstance(ax, int) else 0)
        return term, ax if isinstance(ax, int) else 0

    def from_samples(self, term, vals, args):
        v0 = vals[0][1]
        if isinstance(v0, Opaque):
            return self.resort(term, 'o')
        if isinstance(v0, tuple) and not isinstance(v0, np.ndarray):
            if all(isinstance(v, tuple) and len(v) == len(v0) for _, v in vals):
                return tuple(self.from_samples(mk('proj', (term, k), 'A'), [(e, v[k]) for e, v in vals], args) for k in range(len(v0)))
        if isinstance(v0, list):
            if all(isinstance(v, list) and len(v) == len(v0) for _, v in vals):
                return self.I.new(Lst([self.from_samples(mk('proj', (term, k), 'A'), [(e, v[k]) for e, v in vals], args) for k in range(len(v0))]))
            raise Unsupported('list of varying length')
        if v0 is None or isinstance(v0, str):
            if all(v == v0 for _, v in vals):
                return v0
            return mk('unk', (self.I.count('unk'),), 'o')
        nds = {np.ndim(v) for _, v in vals}
        dts = {np.asarray(v).dtype.name for _, v in vals}
        dt = dts.pop() if len(dts) == 1 else ('float64' if dts <= {'float64', 'int64'} else None)
        if dt is not None and dt.startswith('str'):
            dt = 'str'
        if nds == {0}:
            s = OWNSORT.get(kind(dt), 'F' if dt is None else 'o')
            return self.resort(term, s)
        if len(nds) != 1:
            return self.arr(term, None, dt)
        nd = nds.pop()
        shape = []
        cands = None
        dep = self.value_sized(term)
        for k in range(nd):
            col = [(e, np.shape(v)[k]) for e, v in vals]
            const = col[0][1] if len({x for _, x in col}) == 1 else None
            if cands is None:
                cands = self.dim_candidates(term, args)
            c = None
            if dep is not None and k == dep[1]:
                # how many there are depends on the values: agreement of samples means nothing
                shape.append(mk('shape', (dep[0], k), 'i'))
                continue
            if const is not None and len(col) >= 4:
                # a symbolic dimension that happens to be constant on all samples is unlikely: constants first
                c = const
                for q in cands:
                    pass
            if c is None:
                c = self.fit(col, cands)
            if c is None and const is not None:
                c = const
            if c is None:
                c = mk('shape', (term, k), 'i')
            shape.append(c)
        return self.arr(term, tuple(shape), dt)
