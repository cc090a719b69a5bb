"""Library calls: numpy functions and array methods."""
import inspect

import numpy as np

from .terms import (Term, mk, P, padd, pscale, pmul, mkpoly, is_const, isint, INF, NUM)
from .values import *
from .npm import (NumpyModel, FULL, ELEM_OPS, ELEM_NP1, ELEM_NP2, REDUCE, BOOLRES, OWNSORT, METHODS_NP, NPALIAS, kind, mentions, syms_of)

_sigs = {}


def signature(f):
    if f not in _sigs:
        try:
            _sigs[f] = inspect.signature(f)
        except (ValueError, TypeError):
            _sigs[f] = None
    return _sigs[f]


NOVAL = object()
EXTRA_SIGS = {
    'concatenate': ['arrays', 'axis', 'out'], 'dot': ['a', 'b', 'out'], 'where': ['condition', 'x', 'y'],
    'arange': ['start', 'stop', 'step', 'dtype'], 'inner': ['a', 'b'], 'vdot': ['a', 'b'], 'zeros': ['shape', 'dtype', 'order'],
    'empty': ['shape', 'dtype', 'order'], 'array': ['object', 'dtype', 'copy', 'order', 'subok', 'ndmin'], 'asarray': ['a', 'dtype', 'order'],
    'bincount': ['x', 'weights', 'minlength'], 'lexsort': ['keys', 'axis'],
}


KEEPS_DTYPE = {'insert', 'delete', 'moveaxis', 'squeeze', 'sort', 'repeat', 'tile', 'flip', 'fliplr', 'flipud', 'roll', 'unique', 'take', 'compress',
               'resize', 'rollaxis', 'swapaxes', 'rot90', 'diag', 'trim_zeros', 'partition', 'ravel', 'reshape', 'transpose'}


class NumpyCalls(NumpyModel):

    def np_call(self, name, args, kw):
        name = NPALIAS.get(name, name)
        I = self.I
        if name.startswith('random'):
            I.event('impure', 'numpy.' + name)
            return mk('sym', (f'random{I.count("random")}',), 'o')
        out = kw.pop('out', None) if 'out' in kw else None
        h = getattr(self, 'np_' + name.replace('.', '_'), None)
        mask = NOVAL
        if name in ELEM_OPS or name in ELEM_NP1 or name in ELEM_NP2:
            nin = self.nin(name)
            if len(args) == nin + 1 and name not in ('round', 'around', 'round_', 'nan_to_num'):
                out, args = args[-1], list(args[:-1])
            mask = kw.pop('where', NOVAL)
            if mask is True:
                mask = NOVAL
            odt = kw.pop('dtype', None)
            kw.pop('casting', None)
            if isinstance(out, tuple):
                out = out[0] if len(out) == 1 else None
        try:
            if name in ELEM_OPS:
                r = self.ufunc(name, args, kw)
            elif name in ELEM_NP1 or name in ELEM_NP2:
                r = self.np_elem(name, args, kw)
            elif name in REDUCE:
                r = self.np_reduce(REDUCE[name], *args, **kw)
            elif h is not None:
                r = h(*args, **kw)
            else:
                r = self.generic(name, args, kw)
        except TypeError as e:
            if '_call' in str(e) or 'argument' in str(e) and ('np_' in str(e)):
                I.throw('TypeError', str(e))
            raise
        if name in ELEM_OPS or name in ELEM_NP1 or name in ELEM_NP2:
            if odt is not None and not (isinstance(r, NdArr) and r.dtype == self.to_dtype(odt)):
                r = self.astype(self.asarray(r), self.to_dtype(odt))
            if mask is not NOVAL:
                old = out if isinstance(out, NdArr) else self.np_empty_like(self.asarray(r))
                r = self.np_where(mask, r, old)
        if out is not None and isinstance(out, NdArr):
            self.check_writable(out, 'output array is read-only')
            self.write(out, self.cast(self.term_of(r), r.dtype if isinstance(r, NdArr) else None, out.dtype))
            return out
        return r

    def nin(self, name):
        if name in ELEM_OPS:
            return 1 if name in ('negative', 'absolute', 'abs', 'fabs', 'sqrt', 'logical_not', 'isnan', 'isinf', 'isfinite', 'invert', 'bitwise_not') else 2
        return 2 if name in ELEM_NP2 else 1

    def ufunc(self, name, args, kw):
        I = self.I
        if kw:
            raise Unsupported('ufunc options')
        if len(args) != self.nin(name):
            I.throw('TypeError', 'invalid number of arguments')
        op = ELEM_OPS[name]
        xs = list(args)
        for k, x in enumerate(xs):
            if isinstance(x, (Lst, tuple, Inst, RangeV)):
                xs[k] = self.asarray(x)
                if isinstance(xs[k], NdArr) and xs[k].shape == ():
                    xs[k] = self.wrap(self.cur(xs[k]), (), xs[k].dtype)
        if op in ('and', 'or', 'not'):
            xs = [self.as_bool(x) for x in xs]
        return self.elementwise(op, *xs)

    def as_bool(self, x):
        if isinstance(x, NdArr) and kind(x.dtype) not in ('b', None):
            return self.elementwise('ne', x, 0)
        return x

    def const_scalar(self, v):
        return isinstance(v, (int, float, bool, complex))

    def np_elem(self, name, args, kw):
        I = self.I
        if kw and name not in ('round', 'around', 'round_', 'nan_to_num'):
            raise Unsupported('ufunc options')
        nin = 2 if name in ELEM_NP2 else 1
        ops, rest = list(args[:nin]), list(args[nin:])
        if name in ('around', 'round_'):
            name = 'round'
        if name in ('conj', 'conjugate', 'real') and isinstance(ops[0], NdArr) and kind(ops[0].dtype) in ('f', 'i'):
            return ops[0] if name == 'real' else self.array_copy(ops[0])
        if name == 'nan_to_num':
            kw = dict(kw)
            copy = rest.pop(0) if rest else kw.pop('copy', True)
            r = self.np_elem_(name, ops, rest, kw)
            if not I.truth(copy) and isinstance(ops[0], NdArr) and kind(ops[0].dtype) == 'f':
                self.check_writable(ops[0], 'assignment destination is read-only')
                self.write(ops[0], self.cast(self.term_of(r), r.dtype if isinstance(r, NdArr) else None, ops[0].dtype))
                return ops[0]
            return r
        return self.np_elem_(name, ops, rest, kw)

    def np_elem_(self, name, ops, rest, kw):
        I = self.I
        xs = [self.coerce(x) for x in ops]
        if any(x is None for x in xs):
            I.throw('TypeError', 'ufunc not supported for the input types')
        if all(self.const_scalar(x) for x in xs) and not rest and not kw:
            with np.errstate(all='ignore'):
                r = getattr(np, name)(*xs)
            return r.item() if hasattr(r, 'item') else r
        if name == 'hypot':
            return self.elementwise('sqrt', self.elementwise('add', self.elementwise('mul', xs[0], xs[0]), self.elementwise('mul', xs[1], xs[1]))) \
                if any(isinstance(x, NdArr) for x in xs) else mk('sqrt', (mk('add', (mk('mul', (xs[0], xs[0]), 'F'), mk('mul', (xs[1], xs[1]), 'F')), 'F'),), 'F')
        shape = self.bshape(*[self.shape_of(x) for x in xs])
        dt = self.promote(*xs)
        if name in ('signbit',):
            dt = 'bool'
        elif kind(dt) in ('i', 'u', 'b') and name not in ('sign', 'fmax', 'fmin', 'round', 'nan_to_num', 'conj', 'fmod', 'real', 'imag'):
            dt = 'float64'
        t = mk('np', (name, tuple(self.term_of(x) for x in xs) + tuple(self.reify(x) for x in rest),
                      tuple(sorted((k, self.reify(v)) for k, v in kw.items()))), 'A')
        if name in ('sqrt',):
            t = mk('sqrt', t.args[1], 'A')
        return self.wrap(t, shape, dt)

    def axis_norm(self, axis, nd):
        I = self.I
        axis = I.num(axis)
        if isinstance(axis, (tuple, Lst)):
            return tuple(self.axis_norm(a, nd) for a in I.concrete_list(axis))
        if isinstance(axis, Term):
            raise Unsupported('symbolic axis')
        if axis is None:
            return None
        if not isinstance(axis, int):
            I.throw('TypeError', 'an integer is required for the axis')
        if nd is None:
            return axis
        if not -nd <= axis < nd:
            I.throw('AxisError', f'axis {axis} is out of bounds for array of dimension {nd}')
        return axis % nd

    def np_reduce(self, op, a=NOVAL, axis=None, dtype=None, out=None, keepdims=False, where=True, initial=NOVAL, weights=None, **extra):
        I = self.I
        if extra:
            I.throw('TypeError', 'unexpected keyword argument')
        if weights is not None or (where is not True or initial is not NOVAL) and op not in ('all', 'any', 'sum', 'prod', 'amin', 'amax') \
                or op in ('amin', 'amax') and where is not True and initial is NOVAL:
            raise Unsupported('reduction options')
        if where is not True:
            a = self.asarray(a)
            ident = {'all': True, 'any': False, 'sum': 0, 'prod': 1}.get(op, initial)
            if op in ('all', 'any'):
                a = self.as_bool(a)
            w = self.np_where(where, a, ident)
            a = w if w.dtype == a.dtype or kind(a.dtype) == 'b' and op in ('sum', 'prod') else self.astype(w, a.dtype)
        if initial is not NOVAL:
            a = self.asarray(a)
            if op in ('amin', 'amax'):
                if axis is not None and a.shape is not None and len(a.shape) > 1:
                    raise Unsupported('reduction options')
                a = self.np_concatenate((self.reshape(a, (-1,)), self.asarray((initial,))))
            else:
                r = self.np_reduce(op, a, axis, dtype, None, keepdims)
                return I.binop({'sum': 'add', 'prod': 'mul', 'all': 'and', 'any': 'or'}[op], r, initial)
        if dtype is not None and op in ('sum', 'prod', 'mean'):
            a = self.asarray(a)
            if isinstance(a, NdArr) and a.dtype != self.to_dtype(dtype):
                a = self.astype(a, self.to_dtype(dtype))
        if isinstance(a, (bool, int, float)) or (isinstance(a, Term) and a.sort in NUM):
            if op in ('all', 'any'):
                return a if (isinstance(a, bool) or (isinstance(a, Term) and a.sort in 'bB')) else I.cmp('ne', a, 0)
            return a
        if isinstance(a, Iter):
            raise Unsupported('reduction of an iterator')
        if isinstance(a, (tuple, Lst)):
            src = I.iterate(a)
            if isinstance(src, list) and src and all(I.scalar(x) for x in src) and op in ('sum', 'prod') and all(isint(x) for x in src) and axis is None:
                r = src[0]
                for x in src[1:]:
                    r = I.binop('add' if op == 'sum' else 'mul', r, x)
                return r
            if isinstance(src, list) and not src and op == 'prod':
                return 1.0
        a = self.asarray(a)
        if isinstance(a, ObjArr):
            raise Unsupported('reduction of object array')
        if kind(a.dtype) in ('U', 'O'):
            raise Unsupported('reduction of object array')
        nd = None if a.shape is None else len(a.shape)
        ax = self.axis_norm(axis, nd)
        if nd == 0:
            return self.wrap(self.cur(a), (), a.dtype) if op not in ('all', 'any') else self.np_reduce(op, self.wrap(self.cur(a), (), a.dtype))
        dt = a.dtype
        t = self.cur(a)
        if op in ('all', 'any'):
            if kind(dt) not in ('b', None):
                t = mk('ne', (t, 0), 'A')
            dt = 'bool'
        elif op == 'mean' or (op == 'sum' and dt is None):
            dt = 'float64' if kind(dt) in ('i', 'b', 'u') else dt
        elif op in ('sum', 'prod') and kind(dt) == 'b':
            dt = 'int64'
        if op in ('amin', 'amax') and nd is not None:
            dims = a.shape if ax is None else [a.shape[k] for k in (ax if isinstance(ax, tuple) else (ax,))]
            n = self.size(dims)
            if not I.truth(I.cmp('gt', n, 0)):
                if ax is None or is_const(self.size(a.shape)) or True:
                    I.throw('ValueError', 'zero-size array to reduction operation which has no identity')
        if nd is not None and ax is not None:
            axs = ax if isinstance(ax, tuple) else (ax,)
            if len(axs) == nd:
                ax = None
        if nd is None:
            shape = None if axis is not None else ()
        elif ax is None:
            shape = ()
        else:
            axs = ax if isinstance(ax, tuple) else (ax,)
            shape = tuple(d for k, d in enumerate(a.shape) if k not in axs)
        r = mk(op, (t, ax), 'A')
        if op == 'mean' and nd is not None:
            dims = a.shape if ax is None else [a.shape[k] for k in (ax if isinstance(ax, tuple) else (ax,))]
        kd = keepdims if isinstance(keepdims, bool) else I.truth(keepdims)
        if kd and nd is not None:
            axs = tuple(range(nd)) if axis is None else (ax if isinstance(ax, tuple) else ((ax,) if ax is not None else tuple(range(nd))))
            full = tuple(1 if k in axs else d for k, d in enumerate(a.shape))
            if shape == ():
                r = mk('reshape', (r, full), 'A')
            else:
                r = mk('getitem', (r, tuple('newaxis' if k in axs else FULL for k in range(nd))), 'A')
            return self.arr(r, full, dt)
        return self.wrap(r, shape, dt)

    # -------- generic
    def bind_np(self, name, f, args, kw):
        """(positional reified args by name order)"""
        sig = signature(f)
        I = self.I
        names = EXTRA_SIGS.get(name)
        if sig is None and names is None:
            return tuple(self.reify(a) for a in args), tuple(sorted((k, self.reify(v)) for k, v in kw.items()))
        vals = {}
        if sig is not None:
            try:
                b = sig.bind(*args, **kw)
            except TypeError as e:
                I.throw('TypeError', str(e))
            defaults = {p.name: p.default for p in sig.parameters.values()}
            pars = sig.parameters
            out_kw = []
            for k, v in b.arguments.items():
                p = pars[k]
                if p.kind is p.VAR_POSITIONAL:
                    return tuple(self.reify(a) for a in args), tuple(sorted((k2, self.reify(v2)) for k2, v2 in kw.items()))
                if p.kind is p.VAR_KEYWORD:
                    out_kw.extend((k2, self.reify(v2)) for k2, v2 in v.items())
                    continue
                d = p.default
                if d is not p.empty and (v is d or (isinstance(v, (int, str, bool, float)) and type(v) is type(d) and v == d)):
                    continue
                vals[k] = v
            pos = [p.name for p in pars.values() if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)]
        else:
            out_kw = []
            pos = names
            for k, v in zip(names, args):
                vals[k] = v
            vals.update(kw)
        a = []
        rest = dict(vals)
        for n in pos:
            if n in rest and (n in ('a', 'b', 'x', 'y', 'm', 'v', 'ar', 'arr', 'arrays', 'A', 'M', 'obj', 'values', 'object', 'tup', 'condition', 'x1', 'x2', 'start', 'stop', 'f') or len(a) == 0) \
                    and len(a) == pos.index(n):
                a.append(self.reify(rest.pop(n)))
            else:
                break
        return tuple(a), tuple(sorted(list((k, self.reify(v)) for k, v in rest.items()) + out_kw))

    def np_func(self, name):
        f = np
        try:
            for p in name.split('.'):
                f = getattr(f, p)
        except AttributeError:
            return None
        return f

    def generic(self, name, args, kw):
        I = self.I
        f = self.np_func(name)
        if f is None or not callable(f):
            raise Unsupported('numpy.' + name)
        for v in list(args) + list(kw.values()):
            if isinstance(v, (Iter, Fn, Bound, Partial)):
                raise Unsupported('numpy.' + name)
        if all(isinstance(v, (int, float, bool, str)) for v in list(args) + list(kw.values())) and args:
            with np.errstate(all='ignore'):
                try:
                    r = f(*args, **kw)
                    if isinstance(r, np.generic):
                        return r.item()
                    if isinstance(r, (int, float, bool)):
                        return r
                except Exception as e:
                    I.throw(self.exc_name(e), str(e))
        a, k = self.bind_np(name, f, args, kw)
        term = mk('np', (name, a, k), 'A')
        r = self.result(term, list(args) + list(kw.values()), 'LinAlgError' if name in ('linalg.solve', 'linalg.inv', 'linalg.cholesky') else None)
        if name in KEEPS_DTYPE and isinstance(r, NdArr) and args and isinstance(args[0], NdArr) and args[0].dtype:
            # the literal of a constant float array may hold integral values: the samples do not tell its type
            r.dtype = args[0].dtype
        return r

    # -------- creation
    def np_array(self, object=None, dtype=None, copy=True, order=None, subok=False, ndmin=0, like=None):
        if isinstance(object, Iter):
            return self.arr(mk('unk', ('iter', self.I.count('unk')), 'A'), (), 'object')
        return self.asarray(object, self.to_dtype(dtype) if dtype is not None else None, copy=copy is not False, ndmin=ndmin)

    def np_asarray(self, a=None, dtype=None, order=None, like=None, **kw):
        return self.asarray(a, self.to_dtype(dtype) if dtype is not None else None)

    np_asanyarray = np_asarray

    def np_ascontiguousarray(self, a, dtype=None):
        r = self.asarray(a, self.to_dtype(dtype) if dtype is not None else None)
        return r if r.base is None else self.view(r, self.cur(r), r.shape, ('idx', (FULL,)), maybe=True)

    np_asfortranarray = np_require = np_ascontiguousarray

    def np_copy(self, a, order='K', subok=False):
        return self.asarray(a, copy=True)

    def shape_arg(self, shape):
        I = self.I
        d = self.dims(shape)
        for x in d:
            if isinstance(x, int) and x < 0:
                I.throw('ValueError', 'negative dimensions are not allowed')
            if isinstance(x, Term) and not I.facts.sign_int(P(x)) <= {0, 1}:
                if not I.truth(I.cmp('ge', x, 0)):
                    I.throw('ValueError', 'negative dimensions are not allowed')
        return tuple(d)

    def np_full(self, shape, fill_value, dtype=None, order='C'):
        sh = self.shape_arg(shape)
        dt = self.to_dtype(dtype) if dtype is not None else self.dtype_of(fill_value if not isinstance(fill_value, NdArr) else fill_value)
        v = self.term_of(fill_value)
        if dtype is not None and isinstance(v, float) and kind(dt) in 'iu':
            v = int(v)
        return self.arr(mk('full', (sh, v, dt), 'A'), sh, dt)

    def np_zeros(self, shape, dtype=None, order='C'):
        dt = self.to_dtype(dtype) if dtype is not None else 'float64'
        return self.np_full(shape, False if kind(dt) == 'b' else 0, DType(dt))

    def np_ones(self, shape, dtype=None, order='C'):
        dt = self.to_dtype(dtype) if dtype is not None else 'float64'
        return self.np_full(shape, True if kind(dt) == 'b' else 1, DType(dt))

    def np_empty(self, shape, dtype=None, order='C'):
        dt = self.to_dtype(dtype) if dtype is not None else 'float64'
        sh = self.shape_arg(shape)
        if any(is_const(d) and d == 0 for d in sh):
            return self.np_full(sh, 0, DType(dt))
        return self.arr(mk('empty', (sh, dt, self.I.count('empty')), 'A'), sh, dt)

    def like(self, a, f, dtype, shape, *v):
        a = self.asarray(a)
        dt = DType(a.dtype) if dtype is None and a.dtype else dtype
        return f(a.shape if shape is None else shape, *v, dtype=dt)

    def np_zeros_like(self, a, dtype=None, order='K', subok=True, shape=None):
        return self.like(a, self.np_zeros, dtype, shape)

    def np_ones_like(self, a, dtype=None, order='K', subok=True, shape=None):
        return self.like(a, self.np_ones, dtype, shape)

    def np_empty_like(self, prototype, dtype=None, order='K', subok=True, shape=None):
        return self.like(prototype, self.np_empty, dtype, shape)

    def np_full_like(self, a, fill_value, dtype=None, order='K', subok=True, shape=None):
        return self.like(a, self.np_full, dtype, shape, fill_value)

    def np_linspace(self, start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
        I = self.I
        num = I.num(num)
        if isinstance(num, NdArr) and num.shape == ():
            num = self.wrap(self.cur(num), (), num.dtype)
        if not isint(num) or isinstance(num, bool):
            if isinstance(num, (float, str)) or num is None or (isinstance(num, Term) and num.sort in ('f', 'F')):
                I.throw('TypeError', 'object cannot be safely interpreted as an integer.')
            raise Unsupported('linspace')
        if I.truth(I.cmp('lt', num, 0)):
            I.throw('ValueError', 'Number of samples must be non-negative.')
        if retstep or axis != 0 or any(isinstance(self.coerce(x), NdArr) and self.coerce(x).shape != () for x in (start, stop)):
            raise Unsupported('linspace')
        a, b = self.scalar_of(start), self.scalar_of(stop)
        t = mk('np', ('linspace', (a, b, num), () if endpoint is True else (('endpoint', self.reify(endpoint)),)), 'A')
        r = self.arr(t, (num,), 'float64')
        return r if dtype is None else self.astype(r, self.to_dtype(dtype))

    def scalar_of(self, v):
        v = self.I.num(v)
        if isinstance(v, NdArr) and v.shape == ():
            return self.wrap(self.cur(v), (), v.dtype)
        if isinstance(v, (Term, int, float, bool)):
            if isinstance(v, Term) and v.sort in ('o', 's'):
                raise Unsupported('unknown number')
            return v
        if v is None or isinstance(v, (str, Lst, Dct)):
            self.I.throw('TypeError', 'unsupported operand')
        raise Unsupported('scalar expected')

    def np_arange(self, start, stop=None, step=None, dtype=None):
        I = self.I
        if stop is None:
            start, stop = 0, start
        if all(isint(x) for x in (start, stop)) and (step is None or step == 1):
            n = I.binop('sub', stop, start)
            if not I.truth(I.cmp('ge', n, 0)):
                n = 0
            t = mk('np', ('arange', (start, stop), ()), 'A')
            r = self.arr(t, (n,), 'int64')
            return r if dtype is None else self.astype(r, self.to_dtype(dtype))
        args = [start, stop] + ([step] if step is not None else [])
        return self.generic('arange', args, {} if dtype is None else {'dtype': dtype})

    def np_atleast_1d(self, a):
        r = self.asarray(a)
        return r if r.shape else self.reshape(r, (1,))

    def np_atleast_2d(self, a):
        r = self.asarray(a)
        if r.shape is None:
            raise Unsupported('atleast_2d')
        if len(r.shape) == 0:
            return self.reshape(r, (1, 1))
        return self.array_getitem(r, (None, SliceV(None, None, None))) if len(r.shape) == 1 else r

    def np_issubdtype(self, arg1, arg2):
        def conv(x):
            d = self.to_dtype(x, soft=True)
            if isinstance(x, Ext) and x.path.startswith('numpy.'):
                o = getattr(np, x.path[6:], None)
                if isinstance(o, type):
                    return o
            return None if d is None else (object if d == 'object' else str if d == 'str' else np.dtype(d).type)
        a, b = conv(arg1), conv(arg2)
        if a is None or b is None:
            if isinstance(arg1, (str,)) or a is None and not isinstance(arg1, (Term,)):
                self.I.throw('TypeError', 'data type not understood')
            raise Unsupported('issubdtype')
        return bool(issubclass(np.dtype(a).type if not isinstance(a, type) or not issubclass(a, np.generic) else a, np.dtype(b).type if not issubclass(b, np.generic) else b))

    def np_dtype(self, d, *a, **k):
        return DType(self.to_dtype(d))

    def np_result_type(self, *xs):
        ds = []
        for x in xs:
            d = self.to_dtype(x, soft=True) if not isinstance(x, (NdArr, Term, int, float)) else self.dtype_of(x)
            if d is None:
                raise Unsupported('result_type')
            ds.append(d)
        return DType(np.result_type(*ds).name)

    np_promote_types = np_result_type
    np_find_common_type = None

    def np_finfo(self, d):
        return PyConst(np.finfo(self.to_dtype(d)))

    def np_iinfo(self, d):
        return PyConst(np.iinfo(self.to_dtype(d)))

    def np_isscalar(self, x):
        return self.I.scalar(x) or isinstance(x, str)

    def np_ndim(self, a):
        a = self.asarray(a)
        return len(a.shape) if a.shape is not None else mk('shape', (self.cur(a), 'ndim'), 'i')

    def np_size(self, a, axis=None):
        a = self.asarray(a)
        return self.size(a.shape) if axis is None else a.shape[axis]

    def np_shape(self, a):
        return tuple(self.asarray(a).shape)

    # -------- structure
    def np_hstack(self, tup, **kw):
        arrs = [self.np_atleast_1d(a) if not isinstance(a, ObjArr) else a for a in self.I.concrete_list(tup)]
        if arrs and isinstance(arrs[0], ObjArr):
            return self.concat(arrs, 0)
        return self.concat(arrs, 0 if arrs and arrs[0].shape is not None and len(arrs[0].shape) == 1 else 1)

    def np_vstack(self, tup, **kw):
        src = self.I.iterate(tup)
        if isinstance(src, SymSeq) or any(isinstance(x, (SymSeq, Each)) for x in src):
            a = self.seq_array(src if isinstance(src, list) else [src])
            if isinstance(a, ObjArr) or a.shape is None:
                raise Unsupported('vstack')
            return a if len(a.shape) == 2 else self.reshape(a, (a.shape[0] * a.shape[1] if False else self.size(a.shape[:2]),) + tuple(a.shape[2:])) \
                if len(a.shape) > 2 else self.array_getitem(a, (SliceV(None, None, None), None))
        arrs = [self.np_atleast_2d(self.asarray(a)) for a in src]
        if arrs and all(a.shape is not None and len(a.shape) == 2 and is_const(a.shape[0]) and a.shape[0] == 1 for a in arrs):
            if all(self.same_dim_fork(a.shape[1], arrs[0].shape[1]) for a in arrs):
                return self.stack_items([self.array_getitem(a, 0) for a in arrs], None)
        return self.concat(arrs, 0)

    def np_dstack(self, tup):
        return self.generic('dstack', [tup], {})

    def np_column_stack(self, tup):
        arrs = [self.asarray(a) for a in self.I.concrete_list(tup)]
        return self.concat([self.array_getitem(a, (SliceV(None, None, None), None)) if len(a.shape) == 1 else a for a in arrs], 1)

    def np_concatenate(self, arrays, axis=0, **kw):
        if axis is None:
            return self.concat([self.np_ravel(a) for a in self.I.concrete_list(arrays)], 0)
        return self.concat(self.I.concrete_list(arrays), axis)

    def np_append(self, arr, values, axis=None):
        if axis is None:
            return self.concat([self.np_ravel(self.asarray(arr)), self.np_ravel(self.asarray(values))], 0)
        return self.concat([arr, values], axis)

    def np_stack(self, arrays, axis=0, **kw):
        I = self.I
        src = I.iterate(arrays)
        if isinstance(src, SymSeq) or any(isinstance(x, (SymSeq, Each)) for x in src):
            a = self.seq_array(src if isinstance(src, list) else [src])
            if isinstance(a, ObjArr) or a.shape is None:
                raise Unsupported('stack')
            n = len(a.shape)
            ax = axis % n
            perm = list(range(1, n))
            perm.insert(ax, 0)
            return self.array_copy(self.transpose(a, perm))
        if not src:
            I.throw('ValueError', 'need at least one array to stack')
        a = self.stack_items(src, None)
        n = len(a.shape)
        ax = self.axis_norm(axis, n)
        if ax == 0:
            return a
        perm = list(range(1, n))
        perm.insert(ax, 0)
        return self.array_copy(self.transpose(a, perm))

    def np_ravel(self, a, order='C'):
        a = self.asarray(a)
        if isinstance(a, ObjArr):
            return a
        if a.shape is not None and len(a.shape) == 1:
            return self.view(a, self.cur(a), a.shape, ('idx', (FULL,)))
        return self.reshape(a, (-1,))

    def np_reshape(self, a, newshape=None, order='C', shape=None):
        if isinstance(a, (Lst, tuple)) and order == 'C':
            a = self.asarray(a)
        return self.reshape(self.asarray(a), newshape if newshape is not None else shape)

    def np_transpose(self, a, axes=None):
        return self.transpose(self.asarray(a), None if axes is None else self.I.concrete_list(axes))

    def np_swapaxes(self, a, axis1, axis2):
        a = self.asarray(a)
        n = len(a.shape)
        p = list(range(n))
        i, j = self.axis_norm(axis1, n), self.axis_norm(axis2, n)
        p[i], p[j] = p[j], p[i]
        return self.transpose(a, p)

    def np_moveaxis(self, a, source, destination):
        a = self.asarray(a)
        n = len(a.shape)
        if not (isinstance(source, int) and isinstance(destination, int)):
            if isinstance(source, (Term,)) or isinstance(destination, Term):
                raise Unsupported('moveaxis')
            return self.generic('moveaxis', [a, source, destination], {})
        s, d = self.axis_norm(source, n), self.axis_norm(destination, n)
        p = [k for k in range(n) if k != s]
        p.insert(d, s)
        return self.transpose(a, p)

    def np_rollaxis(self, a, axis, start=0):
        a = self.asarray(a)
        n = len(a.shape)
        ax = self.axis_norm(axis, n)
        st = start + n if start < 0 else start
        if ax < st:
            st -= 1
        p = [k for k in range(n) if k != ax]
        p.insert(st, ax)
        return self.transpose(a, p)

    def np_expand_dims(self, a, axis):
        a = self.asarray(a)
        n = len(a.shape) + 1
        ax = self.axis_norm(axis, n)
        return self.array_getitem(a, tuple(SliceV(None, None, None) for _ in range(ax)) + (None,))

    def np_squeeze(self, a, axis=None):
        a = self.asarray(a)
        if a.shape is None or axis is not None:
            if axis is not None and a.shape is not None and isinstance(axis, int):
                return self.array_getitem(a, tuple(0 if k == axis % len(a.shape) else SliceV(None, None, None) for k in range(len(a.shape))))
            return self.generic('squeeze', [a], {})
        keep = []
        idx = []
        for d in a.shape:
            one = self.same_dim_fork(d, 1)
            idx.append(0 if one else SliceV(None, None, None))
            if not one:
                keep.append(d)
        t = self.cur(a)
        comps = tuple(0 if i == 0 else FULL for i in idx)
        t2 = self.t_getitem(t, comps) if any(c == 0 for c in comps) else t
        return self.view(a, t2, tuple(keep), ('idx', comps))

    def np_flip(self, m, axis=None):
        a = self.asarray(m)
        n = len(a.shape)
        ax = self.axis_norm(axis, n)
        axs = tuple(range(n)) if ax is None else ax if isinstance(ax, tuple) else (ax,)
        return self.array_getitem(a, tuple(SliceV(None, None, -1) if k in axs else SliceV(None, None, None) for k in range(n)))

    def np_flipud(self, m):
        return self.np_flip(m, 0)

    def np_fliplr(self, m):
        return self.np_flip(m, 1)

    def np_diff(self, a, n=1, axis=-1, prepend=NOVAL, append=NOVAL):
        if prepend is not NOVAL or append is not NOVAL:
            parts = []
            a = self.asarray(a)
            ax = self.axis_norm(axis, len(a.shape))
            if len(a.shape) != 1:
                raise Unsupported('diff options')
            if prepend is not NOVAL:
                parts.append(self.np_atleast_1d(prepend))
            parts.append(a)
            if append is not NOVAL:
                parts.append(self.np_atleast_1d(append))
            return self.np_diff(self.concat(parts, 0), n)
        a = self.asarray(a)
        if a.shape is None:
            return self.generic('diff', [a], {'axis': axis, 'n': n})
        ax = self.axis_norm(axis, len(a.shape))
        if n == 0:
            return a
        I = self.I
        pre = tuple(SliceV(None, None, None) for _ in range(ax))
        hi = self.array_getitem(a, pre + (SliceV(1, None, None),))
        lo = self.array_getitem(a, pre + (SliceV(None, -1, None),))
        r = self.elementwise('sub' if kind(a.dtype) != 'b' else 'ne', hi, lo)
        return r if n == 1 else self.np_diff(r, n - 1, ax)

    def np_insert(self, arr, obj, values, axis=None):
        a = self.asarray(arr)
        if isinstance(obj, (float,)) or (isinstance(obj, Term) and obj.sort in ('f', 'F')):
            self.I.throw('IndexError', 'arrays used as indices must be of integer type')
        return self.generic('insert', [a, obj, self.asarray(values)], {'axis': axis} if axis is not None else {})

    def np_delete(self, arr, obj, axis=None):
        a = self.asarray(arr)
        if isinstance(obj, (Lst, tuple)) and not isinstance(obj, str):
            obj = self.asarray(obj)
            if obj.shape == (0,):
                obj = self.arr(mk('astype', (self.cur(obj), 'int64'), 'A'), obj.shape, 'int64')
        if isinstance(obj, (float,)) or (isinstance(obj, Term) and obj.sort in ('f', 'F')):
            self.I.throw('IndexError', 'arrays used as indices must be of integer (or boolean) type')
        if isinstance(obj, NdArr) and kind(obj.dtype) == 'f':
            self.I.throw('IndexError', 'arrays used as indices must be of integer (or boolean) type')
        if axis is None and a.shape is not None and len(a.shape) == 1 and isinstance(obj, NdArr):
            axis = 0
        if isinstance(obj, NdArr) and obj.shape is not None and len(obj.shape) == 1 and a.shape is not None and isinstance(axis, int) and 0 <= axis < len(a.shape):
            # the indices of a mask as long as the axis: the same as the mask
            t = self.cur(obj)
            if isinstance(t, Term) and t.op == 'proj' and t.args[1] == 0 and t.args[0].op == 'np' and t.args[0].args[0] == 'nonzero' and t in self.I.limits \
                    and obj.shape[0] == mk('nnz', t.args[0].args[1], 'i') and self.I.limits[t] == a.shape[axis]:
                obj = self.arr(t.args[0].args[1][0], (self.I.limits[t],), 'bool')
        if isinstance(obj, NdArr) and kind(obj.dtype) == 'b' and a.shape is not None and obj.shape is not None and len(obj.shape) == 1 and axis is not None and axis >= 0:
            n = a.shape[axis]
            if not self.same_dim_fork(n, obj.shape[0]):
                self.I.throw('ValueError', 'boolean array argument obj to delete must be one dimensional and match the axis length')
            return self.array_getitem(a, tuple(SliceV(None, None, None) for _ in range(axis)) + (self.elementwise('not', obj),))
        r = self.generic('delete', [a, obj], {'axis': axis} if axis is not None else {})
        if isinstance(obj, NdArr) and isinstance(axis, int) and isinstance(r, NdArr) and r.shape is not None and a.shape is not None and 0 <= axis < len(r.shape) and syms_of(self.cur(obj)):
            # how many are left depends on the values of the indices
            left = mk('np', ('delete', (mk('np', ('arange', (0, a.shape[axis]), ()), 'A'), self.cur(obj)), (('axis', 0),)), 'A')
            r = self.arr(self.cur(r), r.shape[:axis] + (mk('shape', (left, 0), 'i'),) + r.shape[axis + 1:], r.dtype)
        return r

    def np_where(self, condition, x=NOVAL, y=NOVAL):
        I = self.I
        if x is NOVAL:
            return self.np_nonzero(condition)
        c, x, y = (self.coerce(v) for v in (condition, x, y))
        if any(v is None for v in (c, x, y)):
            raise Unsupported('where')
        c = self.as_bool(c)
        shape = self.bshape(*[self.shape_of(v) for v in (c, x, y)])
        if not any(isinstance(v, NdArr) for v in (c, x, y)):
            if isinstance(c, bool):
                return x if c else y
            return mk('where', (c, x, y), 'I' if isint(x) and isint(y) else 'F')
        return self.wrap(mk('where', tuple(self.term_of(v) for v in (c, x, y)), 'A'), shape, self.promote(x, y))

    def np_isclose(self, a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        a, b = self.coerce(a), self.coerce(b)
        if a is None or b is None:
            self.I.throw('TypeError', 'ufunc not supported for the input types')
        ts = [self.term_of(a), self.term_of(b)]
        ex = tuple(self.reify(x) for x in (rtol, atol, equal_nan))
        if ex == (1e-05, 1e-08, False):
            ex = ()
        if not isinstance(a, NdArr) and not isinstance(b, NdArr):
            if is_const(a) and is_const(b) and all(is_const(x) for x in ex):
                return bool(np.isclose(a, b, *ex))
            return mk('isclose', tuple(ts) + ex, 'B')
        shape = self.bshape(self.shape_of(a), self.shape_of(b))
        return self.wrap(mk('isclose', tuple(ts) + ex, 'A'), shape, 'bool')

    def np_allclose(self, a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        return self.np_reduce('all', self.np_isclose(a, b, rtol, atol, equal_nan))

    def np_array_equal(self, a1, a2, equal_nan=False):
        a, b = self.asarray(a1), self.asarray(a2)
        if len(a.shape) != len(b.shape):
            return False
        for p, q in zip(a.shape, b.shape):
            if not self.same_dim_fork(p, q):
                return False
        return self.np_reduce('all', self.elementwise('eq', a, b))

    def np_square(self, x):
        x = self.coerce(x)
        return self.elementwise('mul', x, x)

    def np_clip(self, a, a_min=None, a_max=None, min=None, max=None):
        lo = a_min if a_min is not None else min
        hi = a_max if a_max is not None else max
        r = self.coerce(a)
        if lo is not None:
            r = self.elementwise('max', r, lo)
        if hi is not None:
            r = self.elementwise('min', r, hi)
        return r

    def np_linalg_norm(self, x, ord=None, axis=None, keepdims=False):
        x = self.asarray(x)
        if (ord is None or ord == 2 and (axis is not None or (x.shape is not None and len(x.shape) == 1))) and kind(x.dtype) in ('f', 'i', None):
            if isinstance(ord, (int,)) and isinstance(axis, (tuple, Lst)):
                return self.generic('linalg.norm', [x, ord, axis], {})
            return self.elementwise('sqrt', self.np_reduce('sum', self.elementwise('mul', x, x), axis=axis, keepdims=keepdims))
        kw = {}
        if axis is not None:
            kw['axis'] = axis
        return self.generic('linalg.norm', [x, ord], kw)

    def np_einsum(self, sub, *ops, **kw):
        kw.pop('optimize', None)
        if not isinstance(sub, str) or kw:
            raise Unsupported('einsum')
        s = sub.replace(' ', '')
        arrs = [self.asarray(o) for o in ops]
        if '->' in s:
            lhs, rhs = s.split('->')
        else:
            lhs = s
            rhs = ''.join(sorted(c for c in set(s.replace(',', '')) if s.count(c) == 1))
        subs = lhs.split(',')
        dims = {}
        if len(subs) != len(arrs):
            self.I.throw('ValueError', 'more operands provided to einstein sum function than specified')
        for q, a in zip(subs, arrs):
            if a.shape is None:
                return self.arr(mk('np', ('einsum', (sub,) + tuple(self.cur(x) for x in arrs), ()), 'A'), None, None)
            if len(q) != len(a.shape):
                self.I.throw('ValueError', 'einstein sum subscripts string contains too many subscripts')
            for c, d in zip(q, a.shape):
                if c in dims:
                    if is_const(dims[c]) and dims[c] == 1:
                        dims[c] = d
                    elif not (is_const(d) and d == 1) and not self.same_dim_fork(dims[c], d):
                        self.I.throw('ValueError', 'operands could not be broadcast together')
                else:
                    dims[c] = d
        dt = self.promote(*arrs)
        shape = tuple(dims[c] for c in rhs)
        if len(subs) == 2 and subs[0] == subs[1] and len(set(subs[0])) == len(subs[0]):
            q = subs[0]
            red = tuple(k for k, c in enumerate(q) if c not in rhs)
            if [c for c in q if c in rhs] == list(rhs) and len(red) <= 1 and all(
                    self.same_dim(p, r) is True for p, r in zip(arrs[0].shape, arrs[1].shape)):
                m = self.elementwise('mul', *arrs)
                return self.np_reduce('sum', m, axis=red[0]) if red else m
        return self.wrap(mk('np', ('einsum', (sub,) + tuple(self.cur(x) for x in arrs), ()), 'A'), shape, dt)

    def np_dot(self, a, b, **kw):
        a, b = self.coerce(a), self.coerce(b)
        if a is None or b is None:
            raise Unsupported('dot')
        if not isinstance(a, NdArr) or not isinstance(b, NdArr):
            return self.elementwise('mul', a, b)
        if a.shape is not None and b.shape is not None and len(a.shape) == 1 and len(b.shape) == 1:
            if not self.same_dim_fork(a.shape[0], b.shape[0]):
                self.I.throw('ValueError', 'shapes not aligned')
            return self.np_reduce('sum', self.elementwise('mul', a, b))
        return self.matprod('dot', a, b)

    np_inner = None
    np_vdot = None

    def np_matmul(self, a, b):
        a, b = self.asarray(a), self.asarray(b)
        if a.shape == () or b.shape == ():
            self.I.throw('ValueError', 'matmul: Input operand does not have enough dimensions')
        if a.shape is not None and b.shape is not None and len(a.shape) == 1 and len(b.shape) == 1:
            return self.np_dot(a, b)
        return self.matprod('matmul', a, b)

    def matprod(self, name, a, b):
        t = mk('np', (name, (self.cur(a), self.cur(b)), ()), 'A')
        dt = self.promote(a, b)
        if a.shape is None or b.shape is None or max(len(a.shape), len(b.shape)) > 2:
            return self.generic(name, [a, b], {})
        k1, k2 = a.shape[-1], b.shape[0] if len(b.shape) <= 2 else b.shape[-2]
        if not self.same_dim_fork(k1, k2):
            self.I.throw('ValueError', 'shapes not aligned')
        shape = tuple(a.shape[:-1]) + (tuple(b.shape[1:]))
        return self.wrap(t, shape, dt)

    def np_cumsum(self, a, axis=None, dtype=None):
        a = self.asarray(a)
        if a.shape is None:
            return self.generic('cumsum', [a], {'axis': axis} if axis is not None else {})
        if axis is None and len(a.shape) == 1:
            axis = 0
        if axis is None:
            a = self.reshape(a, (-1,))
            axis = 0
        ax = self.axis_norm(axis, len(a.shape))
        if dtype is not None and a.dtype != self.to_dtype(dtype):
            a = self.astype(a, self.to_dtype(dtype))
        dt = 'int64' if kind(a.dtype) in 'b' else a.dtype
        return self.arr(mk('np', ('cumsum', (self.cur(a),), (('axis', ax),)), 'A'), a.shape, dt)

    def np_gradient(self, f, *varargs, axis=None, edge_order=1):
        a = self.asarray(f)
        if varargs or axis is None and (a.shape is None or len(a.shape) != 1):
            return self.generic('gradient', [a] + list(varargs), {'axis': axis, 'edge_order': edge_order} if axis is not None else {'edge_order': edge_order})
        ax = self.axis_norm(axis if axis is not None else 0, None if a.shape is None else len(a.shape))
        if a.shape is not None:
            need = self.I.binop('add', edge_order, 1)
            if not self.I.truth(self.I.cmp('ge', a.shape[ax], need)):
                self.I.throw('ValueError', 'Shape of array too small to calculate a numerical gradient')
        return self.arr(mk('np', ('gradient', (self.cur(a),), (('axis', ax), ('edge_order', edge_order))), 'A'), a.shape,
                        'float64' if kind(a.dtype) in ('i', 'b', 'u') else a.dtype)

    def np_nonzero(self, a):
        a = self.asarray(a)
        if a.shape is None:
            return self.generic('nonzero', [a], {})
        t = self.cur(a)
        if all(is_const(d) for d in a.shape) and self.size(a.shape) <= 36 and kind(a.dtype) == 'b' and getattr(self.I, 'concretise', False):
            return self.concrete_nonzero(a)
        n = mk('nnz', (t,), 'i')
        base = mk('np', ('nonzero', (t,), ()), 'A')
        out = []
        for k in range(len(a.shape)):
            p = mk('proj', (base, k), 'A')
            self.I.limits[p] = a.shape[k]
            out.append(self.arr(p, (n,), 'int64'))
        return tuple(out)

    def concrete_nonzero(self, a):
        import itertools
        hits = []
        for pos in itertools.product(*[range(d) for d in a.shape]):
            if self.I.truth(self.array_getitem(a, pos)):
                hits.append(pos)
        return tuple(self.arr(mk('stack', (0, tuple(h[k] for h in hits)), 'A') if hits else mk('full', ((0,), 0, 'int64'), 'A'), (len(hits),), 'int64')
                     for k in range(len(a.shape)))

    def np_tril_indices(self, n, k=0, m=None):
        return self.tri_indices('tril_indices', n, k, m)

    def np_triu_indices(self, n, k=0, m=None):
        return self.tri_indices('triu_indices', n, k, m)

    def tri_indices(self, name, n, k, m):
        if self.I.concretise and all(isinstance(x, int) for x in (n, k)) and isinstance(m, (int, type(None))) and n <= 8:
            return tuple(self.arr(mk('stack', (0, tuple(x.tolist())), 'A'), (x.size,), 'int64') if x.size else self.arr(mk('full', ((0,), 0, 'int64'), 'A'), (0,), 'int64') for x in getattr(np, name)(n, k, m))
        return self.generic(name, [n], {kw: v for kw, v in (('k', k), ('m', m)) if v not in (0, None)})

    def np_flatnonzero(self, a):
        a = self.asarray(a)
        if a.shape is not None and len(a.shape) == 1:
            return self.np_nonzero(a)[0]
        return self.generic('flatnonzero', [a], {})

    def np_argwhere(self, a):
        return self.generic('argwhere', [self.asarray(a)], {})

    def np_count_nonzero(self, a, axis=None):
        a = self.asarray(a)
        if axis is None:
            return mk('nnz', (self.cur(a),), 'I')
        return self.np_reduce('sum', self.as_bool(a), axis=axis)

    def np_sort(self, a, axis=-1, kind=None, order=None):
        a = self.asarray(a)
        if a.shape is None:
            return self.generic('sort', [a], {'axis': axis} if axis != -1 else {})
        ax = self.axis_norm(axis, len(a.shape))
        return self.arr(mk('np', ('sort', (self.cur(a),), (('axis', ax),)), 'A'), a.shape, a.dtype)

    def np_argsort(self, a, axis=-1, kind=None, order=None):
        a = self.asarray(a)
        ax = self.axis_norm(axis, len(a.shape))
        return self.arr(mk('np', ('argsort', (self.cur(a),), (('axis', ax), ('kind', 'stable')) if kind in ('stable', 'mergesort') else (('axis', ax),)), 'A'), a.shape, 'int64')

    def np_repeat(self, a, repeats, axis=None):
        a = self.asarray(a)
        if a.shape is not None and axis is not None and isint(repeats):
            ax = self.axis_norm(axis, len(a.shape))
            sh = list(a.shape)
            sh[ax] = self.size((sh[ax], repeats))
            if is_const(a.shape[ax]) and a.shape[ax] == 1:
                pass
            return self.arr(mk('np', ('repeat', (self.cur(a), repeats), (('axis', ax),)), 'A'), sh, a.dtype)
        return self.generic('repeat', [a, repeats], {'axis': axis} if axis is not None else {})

    def np_broadcast_to(self, array, shape, subok=False):
        a = self.asarray(array)
        dims = tuple(self.dims(shape))
        if a.shape is not None:
            self.check_assign(dims, a.shape)
        return self.arr(mk('np', ('broadcast_to', (self.cur(a), dims), ()), 'A'), dims, a.dtype, base=a, vop=('opaque', None), maybe=True, frozen=True)

    def np_take(self, a, indices, axis=None, mode='raise'):
        a = self.asarray(a)
        if axis is None:
            a = self.np_ravel(a)
            axis = 0
        ax = self.axis_norm(axis, len(a.shape))
        r = self.array_getitem(a, tuple(SliceV(None, None, None) for _ in range(ax)) + (indices,))
        return self.array_copy(r) if isinstance(r, NdArr) and r.base is not None else r

    def np_compress(self, condition, a, axis=None):
        a = self.asarray(a)
        ax = self.axis_norm(0 if axis is None else axis, len(a.shape))
        return self.array_getitem(a, tuple(SliceV(None, None, None) for _ in range(ax)) + (self.asarray(condition),))

    def np_copyto(self, dst, src, casting='same_kind', where=True):
        if where is not True:
            self.array_setitem(dst, self.asarray(where), self.array_getitem(self.asarray(src), self.asarray(where)) if isinstance(self.coerce(src), NdArr) else src)
            return None
        self.array_setitem(dst, SliceV(None, None, None), src)

    def np_putmask(self, a, mask, values):
        v = self.coerce(values)
        if isinstance(v, NdArr):
            v = self.array_getitem(v, self.asarray(mask))
        self.array_setitem(a, self.asarray(mask), v)

    def np_fill_diagonal(self, a, val, wrap=False):
        self.check_writable(a)
        n = a.shape[0]
        i = self.np_arange(n)
        self.array_setitem(a, (i, i), val)

    def np_vectorize(self, *a, **k):
        raise Unsupported('numpy.vectorize')

    def np_apply_along_axis(self, f, axis, arr, *args, **kw):
        a = self.asarray(arr)
        ax = self.axis_norm(axis, len(a.shape))
        if len(a.shape) != 2:
            raise Unsupported('apply_along_axis')
        b = self.transpose(a, (1, 0)) if ax == 0 else a
        n = b.shape[0]
        seq = SymSeq(n, lambda i: self.I.call(f, [self.array_getitem(b, i)] + list(args), kw))
        return self.seq_array([seq])

    def np_may_share_memory(self, a, b, *r):
        return self.root(a) is self.root(b)

    np_shares_memory = np_may_share_memory

    def np_printoptions(self, *a, **k):
        return CtxV('null')

    np_errstate = np_printoptions

    def np_set_printoptions(self, *a, **k):
        self.I.event('impure', 'numpy.set_printoptions')

    np_seterr = np_set_printoptions

    def np_array2string(self, a, *r, **k):
        return mk('fstr', (self.reify(a),), 's')

    np_array_str = np_array_repr = np_array2string

    def np_iterable(self, x):
        return isinstance(x, (tuple, Lst, NdArr, SetV, Dct, str, RangeV))

    # ------------------------------------------------------------ array attributes and methods
    def arr_attr(self, a, name):
        I = self.I
        if name == 'shape':
            if a.shape is None:
                raise Unsupported('shape of an unknown array')
            return tuple(a.shape)
        if name == 'ndim':
            return len(a.shape) if a.shape is not None else mk('shape', (self.cur(a), 'ndim'), 'i')
        if name == 'size':
            return self.size(a.shape) if a.shape is not None else mk('shape', (self.cur(a), 'size'), 'i')
        if name == 'dtype':
            if a.dtype is None:
                raise Unsupported('dtype of an unknown array')
            return DType(a.dtype)
        if name == 'T':
            return self.transpose(a, None)
        if name == 'flags':
            return Flags(a)
        if name in ('real',):
            return a
        if name == 'flat':
            return self.np_ravel(a)
        if name == 'base':
            return a.base
        if name == 'itemsize':
            return np.dtype(a.dtype).itemsize
        if name == 'nbytes':
            return I.binop('mul', self.size(a.shape), np.dtype(a.dtype).itemsize)
        if name in ('__len__', '__getitem__', '__iter__', '__array__', '__eq__', '__copy__', '__deepcopy__', '__contains__', '__setitem__'):
            f = {'__len__': lambda: I.length(a), '__getitem__': lambda i: self.array_getitem(a, i), '__iter__': lambda: I.new(Iter(I.iterate(a))),
                 '__array__': lambda *x: a, '__eq__': lambda o: self.array_cmp('eq', a, o), '__copy__': lambda: self.array_copy(a),
                 '__deepcopy__': lambda m=None: self.array_copy(a), '__contains__': lambda x: I.contains(a, x),
                 '__setitem__': lambda i, v: self.array_setitem(a, i, v)}[name]
            return Native(name, f)
        m = getattr(self, 'am_' + name, None)
        if m is not None:
            return Native('ndarray.' + name, lambda *x, **k: m(a, *x, **k))
        if name in METHODS_NP:
            return Native('ndarray.' + name, lambda *x, **k: self.np_call(name, [a] + list(x), k))
        if name == '__class__':
            return Ext('numpy.ndarray')
        if hasattr(np.ndarray, name):
            raise Unsupported('ndarray.' + name)
        I.throw('AttributeError', f"'numpy.ndarray' object has no attribute '{name}'")

    def am_copy(self, a, order='C'):
        return self.array_copy(a)

    def am_astype(self, a, dtype, order='K', casting='unsafe', subok=True, copy=True):
        return self.astype(a, self.to_dtype(dtype), copy=copy is not False)

    def am_transpose(self, a, *axes):
        if len(axes) == 1 and not isint(axes[0]):
            axes = None if axes[0] is None else self.I.concrete_list(axes[0])
        elif not axes:
            axes = None
        return self.transpose(a, axes)

    def am_reshape(self, a, *shape, order='C'):
        return self.reshape(a, shape[0] if len(shape) == 1 else shape)

    def am_ravel(self, a, order='C'):
        return self.np_ravel(a)

    def am_flatten(self, a, order='C'):
        return self.array_copy(self.np_ravel(a))

    def am_squeeze(self, a, axis=None):
        return self.np_squeeze(a, axis)

    def am_swapaxes(self, a, i, j):
        return self.np_swapaxes(a, i, j)

    def am_sort(self, a, axis=-1, kind=None, order=None):
        self.check_writable(a)
        r = self.np_sort(a, axis)
        self.write(a, self.cur(r))

    def am_fill(self, a, v):
        self.check_writable(a)
        self.array_setitem(a, SliceV(None, None, None), v)

    def am_put(self, a, ind, v, mode='raise'):
        self.array_setitem(a, ind, v)

    def am_itemset(self, a, *x):
        self.array_setitem(a, x[:-1] if len(x) > 2 else x[0], x[-1])

    def am_partition(self, a, *x, **k):
        self.check_writable(a)
        self.write(a, mk('unk', ('partition', self.I.count('unk')), 'A'))

    def am_resize(self, a, *x, **k):
        raise Unsupported('ndarray.resize')

    def am_setflags(self, a, write=None, align=None, uic=None):
        if write is not None:
            self.set_writeable(a, self.I.truth(write))

    def am_view(self, a, *x, **k):
        if x or k:
            raise Unsupported('ndarray.view')
        return self.view(a, self.cur(a), a.shape, ('idx', (FULL,)))

    def am_tolist(self, a):
        I = self.I
        if a.shape is None:
            raise Unsupported('tolist')
        if not a.shape:
            return self.pysort(self.wrap(self.cur(a), (), a.dtype))
        src = I.iterate(a)

        def conv(x):
            return self.am_tolist(x) if isinstance(x, NdArr) else self.pysort(x)
        if isinstance(src, SymSeq):
            return I.new(Lst([SymSeq(src.length, lambda i: conv(src.get(i)))]))
        return I.new(Lst([conv(x) for x in src]))

    def pysort(self, x):
        """numpy scalar -> python scalar"""
        return self.resort(x, x.sort.lower()) if isinstance(x, Term) and x.sort in 'FIB' else x

    def am_item(self, a, *i):
        if not i:
            if a.shape is not None:
                n = self.size(a.shape)
                if not self.same_dim_fork(n, 1):
                    self.I.throw('ValueError', 'can only convert an array of size 1 to a Python scalar')
                return self.pysort(self.wrap(self.t_getitem(self.cur(a), (0,) * len(a.shape)) if a.shape else self.cur(a), (), a.dtype))
            raise Unsupported('item')
        return self.pysort(self.array_getitem(a, i if len(i) > 1 else i[0]))

    def am_tobytes(self, a, *x):
        return mk('ext', ('tobytes', (self.cur(a),), None), 'o')

    am_tostring = am_tobytes

    def am_byteswap(self, a, *x):
        raise Unsupported('byteswap')

    def am_newbyteorder(self, a, *x):
        raise Unsupported('newbyteorder')


class PyConst:
    """constant object of an external library"""
    __slots__ = ('obj',)

    def __init__(self, obj):
        self.obj = obj


class CtxV:
    """context manager without effect on values"""
    __slots__ = ('kind', 'data')

    def __init__(self, kind, data=None):
        self.kind, self.data = kind, data
