"""Standard library and third-party functions (everything that is neither the repository, a builtin nor numpy)."""
import inspect
import itertools
import math
import operator

import numpy as np

from .terms import (Term, mk, P, padd, is_const, isint, INF, NUM)
from .values import *
from .npm import kind
from .npcalls import PyConst, CtxV

from .values import MISSING
IMPURE = ('random.', 'time.', 'os.', 'sys.std', 'datetime.', 'uuid.', 'secrets.', 'subprocess.', 'socket.', 'tempfile.', 'pathlib.', 'io.', 'shutil.', 'pickle.',
          'locale.', 'matplotlib.rc', 'matplotlib.use', 'matplotlib.pyplot.rc', 'matplotlib.pyplot.style.', 'matplotlib.pyplot.switch_backend', 'matplotlib.pyplot.ion', 'matplotlib.pyplot.ioff',
          'matplotlib.style.')
MATH1 = {'sin', 'cos', 'tan', 'exp', 'log', 'log2', 'log10', 'sinh', 'cosh', 'tanh', 'expm1', 'log1p', 'degrees', 'radians'}
MATHMAP = {'acos': 'arccos', 'asin': 'arcsin', 'atan': 'arctan'}
OPS = {'add': 'add', 'sub': 'sub', 'mul': 'mul', 'truediv': 'div', 'floordiv': 'floordiv', 'mod': 'mod', 'pow': 'pow', 'matmul': 'matmul',
       'and_': 'and_', 'or_': 'or_', 'xor': 'xor', 'lshift': 'lshift', 'rshift': 'rshift'}
CMPS = {'lt', 'le', 'gt', 'ge', 'eq', 'ne'}
SIGS = {  # parameter names and defaults of the library functions the repository uses
    'scipy.interpolate.interp1d': [('x',), ('y',), ('kind', 'linear'), ('axis', -1), ('copy', True), ('bounds_error', None), ('fill_value', float('nan')), ('assume_sorted', False)],
    'scipy.interpolate.CubicSpline': [('x',), ('y',), ('axis', 0), ('bc_type', 'not-a-knot'), ('extrapolate', None)],
    'scipy.interpolate.CubicHermiteSpline': [('x',), ('y',), ('dydx',), ('axis', 0), ('extrapolate', None)],
    'scipy.interpolate.Akima1DInterpolator': [('x',), ('y',), ('axis', 0)],
    'scipy.interpolate.PchipInterpolator': [('x',), ('y',), ('axis', 0), ('extrapolate', None)],
    'scipy.interpolate.UnivariateSpline': [('x',), ('y',), ('w', None), ('bbox', (None, None)), ('k', 3), ('s', None), ('ext', 0), ('check_finite', False)],
    'csaps.CubicSmoothingSpline': [('xdata',), ('ydata',), ('weights', None), ('smooth', None), ('axis', -1), ('normalizedsmooth', False)],
    'scipy.signal.savgol_filter': [('x',), ('window_length',), ('polyorder',), ('deriv', 0), ('delta', 1.0), ('axis', -1), ('mode', 'interp'), ('cval', 0.0)],
    'scipy.ndimage.convolve1d': [('input',), ('weights',), ('axis', -1), ('output', None), ('mode', 'reflect'), ('cval', 0.0), ('origin', 0)],
    'scipy.signal.windows.get_window': [('window',), ('Nx',), ('fftbins', True)],
}
METRICS = {'braycurtis', 'canberra', 'chebyshev', 'cityblock', 'correlation', 'cosine', 'jensenshannon', 'mahalanobis', 'minkowski', 'seuclidean', 'sqeuclidean', 'wminkowski', 'hamming'}


class Libs:
    def __init__(self, models):
        self.M = models
        self.I = models.I

    # ------------------------------------------------------------ attributes
    def attr(self, p):
        M = self.M
        n = p.split('.')[-1]
        if p.startswith('numpy.'):
            if p in ('numpy.pi', 'numpy.e', 'numpy.inf', 'numpy.nan', 'numpy.Inf', 'numpy.NaN', 'numpy.NAN', 'numpy.infty', 'numpy.euler_gamma'):
                return {'pi': math.pi, 'e': math.e, 'euler_gamma': 0.5772156649015329}.get(n, float('nan') if n.lower() == 'nan' else INF)
            if n == 'newaxis':
                return None
            if n == 'LinAlgError':
                return M.excs['LinAlgError']
            if n == 'AxisError':
                return M.excs['AxisError']
            if n in ('VisibleDeprecationWarning', 'ComplexWarning', 'RankWarning'):
                return M.excs['UserWarning']
            return MISSING
        if p.startswith('math.') and n in ('pi', 'e', 'inf', 'nan', 'tau'):
            return getattr(math, n)
        if p == 'enum.Enum':
            return M.enum
        if p == 'enum.IntEnum':
            return M.intenum
        if p in ('collections.abc.Sequence', 'typing.Sequence') and p.startswith('collections'):
            return M.seq
        if p in ('typing.TYPE_CHECKING', 'typing_extensions.TYPE_CHECKING'):
            return False
        if p.startswith('builtins.') and n in M.builtins:
            return M.builtins[n]
        if p.startswith('operator.') and p.count('.') == 1:
            return self.operator(n)
        if n in ('__name__', '__qualname__'):
            return p.split('.')[-2]
        if n == '__doc__':
            return ''
        if n == '__version__':
            return '0'
        return MISSING

    def operator(self, n):
        I, M = self.I, self.M
        n0 = n.strip('_') if n.startswith('__') else n
        n0 = {'and': 'and_', 'or': 'or_', 'not': 'not_'}.get(n0, n0)
        if n0 in OPS:
            return Native(n, lambda a, b: I.binop(OPS[n0], a, b))
        if n0 in CMPS:
            return Native(n, lambda a, b: I.cmp(n0, a, b))
        if n0.startswith('i') and n0[1:] in OPS:
            return Native(n, lambda a, b: I.inplace(OPS[n0[1:]], a, b))
        one = {'neg': lambda a: I.unop('neg', a), 'pos': lambda a: I.unop('pos_', a), 'invert': lambda a: I.unop('invert', a), 'not_': I.not_,
               'truth': I.truth, 'abs': M.bi_abs, 'index': M.bi_int_conv}
        if n0 in one:
            return Native(n, one[n0])
        if n0 == 'getitem':
            return Native(n, I.getitem)
        if n0 == 'setitem':
            return Native(n, I.setitem)
        if n0 == 'contains':
            return Native(n, I.contains)
        if n0 == 'is_':
            return Native(n, I.is_)
        if n0 == 'is_not':
            return Native(n, lambda a, b: I.not_(I.is_(a, b)))
        if n0 == 'itemgetter':
            return Native(n, lambda *k: Native('getter', lambda o: I.getitem(o, k[0]) if len(k) == 1 else tuple(I.getitem(o, x) for x in k)))
        if n0 == 'attrgetter':
            def ag(*names):
                def one_(o, nm):
                    for part in nm.split('.'):
                        o = I.getattr(o, part)
                    return o
                return Native('getter', lambda o: one_(o, names[0]) if len(names) == 1 else tuple(one_(o, x) for x in names))
            return Native(n, ag)
        if n0 == 'methodcaller':
            return Native(n, lambda nm, *a, **k: Native('caller', lambda o: I.call(I.getattr(o, nm), list(a), k)))
        return MISSING

    # ------------------------------------------------------------ calls
    def call(self, p, args, kw):
        I, M = self.I, self.M
        n = p.split('.')[-1]
        top = p.split('.')[0]
        h = getattr(self, 'f_' + p.replace('.', '_'), None)
        if h is not None:
            try:
                sig = inspect.signature(h)
                sig.bind(*args, **kw)
            except TypeError as e:
                I.throw('TypeError', str(e))
            return h(*args, **kw)
        if top == 'math':
            return self.math(n, args, kw)
        if top == 'itertools':
            return self.itertools(n, args, kw)
        if top in ('typing', 'typing_extensions'):
            return self.typing(n, args, kw)
        if p.startswith('scipy.spatial.distance.') and n in METRICS | {'euclidean'}:
            return self.metric(n, args, kw)
        if p in SIGS:
            return self.known(p, args, kw)
        if p.startswith(IMPURE) or top in ('random', 'time', 'uuid', 'secrets'):
            I.event('impure', p)
            return mk('unk', (p, I.count('unk')), 'o')
        I.event('extcall', p, tuple(args), dict(kw))
        return mk('ext', (p, (tuple(M.reify(a) for a in args), tuple(sorted((k, M.reify(v)) for k, v in kw.items()))), None), 'o')

    def canon(self, p, args, kw):
        """argument binding independent of how the call spells it"""
        I = self.I
        sig = SIGS[p]
        vals = {}
        for s, a in zip(sig, args):
            vals[s[0]] = a
        if len(args) > len(sig):
            I.throw('TypeError', 'too many arguments')
        names = {s[0] for s in sig}
        for k, v in kw.items():
            if k not in names:
                I.throw('TypeError', f'unexpected keyword {k}')
            if k in vals:
                I.throw('TypeError', f'multiple values for {k}')
            vals[k] = v
        for s in sig:
            if len(s) == 1 and s[0] not in vals:
                I.throw('TypeError', f'missing argument {s[0]}')
        return vals

    def same_default(self, v, d):
        if isinstance(d, float) and d != d:
            return isinstance(v, float) and v != v
        if isinstance(d, tuple):
            return isinstance(v, (tuple, Lst)) and list(v.items if isinstance(v, Lst) else v) == list(d)
        return not isinstance(v, (NdArr, Term)) and type(v) is type(d) and v == d

    def key(self, p, vals):
        M = self.M
        out = []
        for s in SIGS[p]:
            v = vals.get(s[0], MISSING)
            if v is MISSING or s[0] in ('copy', 'check_finite') or (len(s) == 2 and self.same_default(v, s[1])):
                continue
            if s[0] == 'axis' and isinstance(v, int) and v < 0:
                arr = vals.get('y', vals.get('ydata', vals.get('x', vals.get('input'))))
                if isinstance(arr, NdArr) and arr.shape is not None:
                    v += len(arr.shape)
                    if len(s) == 2 and v == s[1]:
                        continue
            out.append((s[0], M.reify(M.asarray(v)) if isinstance(v, (Lst,)) and s[0] in ('x', 'y') else M.reify(v)))
        return tuple(out)

    def known(self, p, args, kw):
        I, M = self.I, self.M
        vals = self.canon(p, args, kw)
        if p == 'scipy.signal.windows.get_window':
            n = vals.get('Nx')
            if isinstance(n, (str, tuple, Lst, Dct)) or n is None or isinstance(n, float):
                I.throw('TypeError', 'the length of a window is not an integer')
            w = mk('ext', (p, self.key(p, vals), (M.reify(vals['Nx']),)), 'A')
            return M.arr(w, (vals['Nx'],), 'float64')
        I.event('extcall', p, tuple(args), dict(kw))
        src = [k for k in ('y', 'ydata', 'x', 'input') if k in vals and (k != 'x' or p.endswith('savgol_filter'))][0]
        for k in (src, 'x', 'xdata', 'dydx', 'w', 'weights'):
            if isinstance(vals.get(k), (Lst, tuple)):
                vals[k] = M.asarray(vals[k])
        y = vals[src]
        axis = vals.get('axis', dict((s[0], s[1]) for s in SIGS[p] if len(s) == 2).get('axis', 0))
        if p.startswith('scipy.interpolate.') or p.startswith('csaps.'):
            return self.interpolant(p, vals, src, axis)
        y = M.asarray(y)
        if y.shape is None:
            return M.arr(mk('ext', (p, self.key(p, vals), None), 'A'), None, 'float64')
        dt = 'float64' if y.dtype != 'float32' else 'float32'
        if p.endswith('convolve1d'):
            out = vals.pop('output', None)
            if isinstance(out, NdArr):
                raise Unsupported('convolve1d into an array')
            out = M.to_dtype(out) if out is not None else y.dtype
            r = self.filtered(p, M.astype(y, 'float64') if y.dtype != 'float64' else y, vals, src, axis, 'float64')
            return r if out == 'float64' else M.astype(r, out)
        return self.filtered(p, y, vals, src, axis, dt)

    def filtered(self, p, y, vals, src, axis, dt):
        M = self.M
        vals = dict(vals)
        vals[src] = y
        cols = self.columns(y, axis)
        if cols is not None:
            one = []
            for c in cols:
                v = dict(vals, axis=0)
                v[src] = c
                one.append(M.arr(mk('ext', (p, self.key(p, v), tuple(c.shape)), 'A'), c.shape, dt))
            return self.join(one, axis, len(y.shape))
        return M.arr(mk('ext', (p, self.key(p, vals), tuple(y.shape)), 'A'), y.shape, dt)

    def columns(self, y, axis):
        """the vectors along the axis of a matrix with a known number of them: libraries treat each on its own"""
        if not isinstance(y, NdArr) or y.shape is None or len(y.shape) != 2 or not isinstance(axis, int):
            return None
        m = y.shape[1 - axis % 2]
        if not isinstance(m, int) or not 0 < m <= 8:
            return None
        full = SliceV(None, None, None)
        return [self.I.getitem(y, (full, j) if axis % 2 == 0 else (j, full)) for j in range(m)]

    def join(self, parts, axis, n):
        M = self.M
        if n == 1:
            return parts[0]
        if not isinstance(parts[0], NdArr):
            return M.asarray(self.I.new(Lst(parts)))
        return M.np_stack(self.I.new(Lst(parts)), axis=1 if axis % 2 == 0 else 0)

    def interpolant(self, p, vals, src, axis):
        I, M = self.I, self.M
        y = vals[src]
        cols = self.columns(y, axis)
        dcols = self.columns(vals['dydx'], axis) if 'dydx' in vals else None
        t = mk('ext', (p, self.key(p, vals), None), 'o')
        if cols is None or ('dydx' in vals and (dcols is None or len(dcols) != len(cols))):
            cols, keys = None, [self.key(p, vals)]
        else:
            keys = []
            for j, c in enumerate(cols):
                v = dict(vals, axis=0)
                v[src] = c
                if dcols:
                    v['dydx'] = dcols[j]
                keys.append(self.key(p, dict((k, x) for k, x in v.items() if k != 'axis')))
        if cols is None and isinstance(y, NdArr) and y.shape is not None and len(y.shape) == 1:
            keys = [self.key(p, dict((k, x) for k, x in vals.items() if k != 'axis'))]

        def evaluate(a, k):
            names = {'UnivariateSpline': ['x', 'nu', 'ext'], 'csaps': ['x', 'nu', 'extrapolate']}.get(p.split('.')[-1], ['x', 'nu', 'extrapolate'])
            full = dict(zip(names, a))
            full.update(k)
            g = full.pop('x', full.pop('xi', None))
            if isinstance(g, (Lst, tuple)):
                g = M.asarray(g)
            full = {kk: v for kk, v in full.items() if not (kk == 'nu' and v == 0 and not isinstance(v, bool)) and v is not None}
            gs = g.shape if isinstance(g, NdArr) else ()
            ys = y.shape if isinstance(y, NdArr) else None
            extra = tuple(sorted((q, M.reify(v)) for q, v in full.items()))
            if gs is None or ys is None:
                return M.arr(mk('ext', ('call', (t, M.reify(g), extra), None), 'A'), None, 'float64')
            if cols is None and len(ys) > 1:
                ax = axis % len(ys)
                shape = tuple(ys[:ax]) + tuple(gs) + tuple(ys[ax + 1:])
                return M.arr(mk('ext', ('call', (t, M.reify(g), extra), shape), 'A'), shape, 'float64')
            out = []
            for key in keys:
                kk = (mk('ext', (p, key, None), 'o'), M.reify(g), extra)
                kd = dict(key)
                if p.endswith('.interp1d') and not extra and set(kd) == {'x', 'y'}:
                    kk = (kd['x'], kd['y'], M.reify(g))
                    out.append(M.arr(mk('ext', ('interp1d linear', kk, tuple(gs)), 'A'), tuple(gs), 'float64') if gs else mk('ext', ('interp1d linear', kk, 'float'), 'F'))
                    continue
                if gs:
                    out.append(M.arr(mk('ext', ('call', kk, tuple(gs)), 'A'), tuple(gs), 'float64'))
                else:
                    out.append(mk('ext', ('call', kk, 'float'), 'F'))
            return self.join(out, axis, len(ys)) if len(gs) < 2 else M.arr(mk('ext', ('call', (t, M.reify(g), extra), None), 'A'), None, 'float64')
        I.opaque_shapes[t] = evaluate
        if p.endswith('CubicSmoothingSpline'):
            I.opaque_attrs[t] = {'smooth': mk('ext', ('attr.smooth', keys[0], 'float'), 'f')}
        return t

    # ------------------------------------------------------------ functools & co
    def f_functools_wraps(self, wrapped, assigned=None, updated=None):
        def deco(g):
            if isinstance(g, Fn):
                for k in ('__name__', '__qualname__', '__doc__', '__module__'):
                    v = wrapped.attrs.get(k) if isinstance(wrapped, Fn) else None
                    if v is None and isinstance(wrapped, Fn) and k in ('__name__', '__qualname__'):
                        v = wrapped.name if k == '__name__' else wrapped.qualname
                    if v is not None:
                        g.attrs[k] = v
                if isinstance(wrapped, Fn):
                    for k, v in wrapped.attrs.items():
                        g.attrs.setdefault(k, v)
            return g
        return Native('wraps', deco)

    def f_functools_update_wrapper(self, wrapper, wrapped, *a):
        return self.f_functools_wraps(wrapped).f(wrapper)

    def f_functools_partial(self, fn, *args, **kw):
        if not self.M.bi_callable(fn):
            self.I.throw('TypeError', 'the first argument must be callable')
        return Partial(fn, args, kw)

    def f_functools_lru_cache(self, maxsize=128, typed=False):
        if isinstance(maxsize, Fn):
            return self.I.new(Lru(maxsize))
        return Native('lru_cache', lambda f: self.I.new(Lru(f)))

    def f_functools_cache(self, f):
        return self.I.new(Lru(f))

    def f_functools_reduce(self, f, it, *init):
        I = self.I
        parts = I.iterate_seq(it)
        if any(isinstance(x, (Each, SymSeq)) for x in parts):
            raise Unsupported('reduce of a symbolic sequence')
        parts = list(init) + parts
        if not parts:
            I.throw('TypeError', 'reduce() of empty sequence with no initial value')
        r = parts[0]
        for x in parts[1:]:
            r = I.call(f, [r, x], {})
        return r

    def f_functools_cached_property(self, f):
        return CachedProp(f, None, 'functools')

    def f_functools_cmp_to_key(self, f):
        raise Unsupported('cmp_to_key')

    def f_functools_singledispatch(self, f):
        raise Unsupported('singledispatch')

    def f_cached_property_cached_property(self, f):
        name = f.attrs.get('__name__', f.name) if isinstance(f, Fn) else None
        return CachedProp(f, name, 'cached_property')

    f_cached_property_threaded_cached_property = f_cached_property_cached_property

    def f_abc_abstractmethod(self, f):
        g = f
        while isinstance(g, (Prop, StaticM, ClassM)):
            g = g.fget if isinstance(g, Prop) else g.fn
        if isinstance(g, Fn):
            g.attrs['__isabstractmethod__'] = True
        return f

    def f_enum_auto(self):
        return CtxV('auto')

    def f_enum_unique(self, c):
        return c

    def f_contextlib_suppress(self, *excs):
        return CtxV('suppress', excs)

    def f_contextlib_nullcontext(self, v=None):
        return CtxV('nullcontext', v)

    def f_contextlib_contextmanager(self, f):
        raise Unsupported('contextmanager')

    def f_warnings_warn(self, message, category=None, stacklevel=1, source=None):
        I, M = self.I, self.M
        if category is None:
            category = message.cls if isinstance(message, Inst) and message.cls.kind == 'exc' else M.excs['UserWarning']
        for c in I.warnctx:
            if c.data.get('ignore'):
                I.event('warnignored', category)
                return None
            if c.data.get('error'):
                raise AbsRaise(I.new(Inst(category, {'args': (message,)})), I.site)
        I.event('warn', category, M.reify(message))

    def f_warnings_catch_warnings(self, **kw):
        return CtxV('catch_warnings', dict(kw))

    def f_warnings_simplefilter(self, action, category=None, **kw):
        ctx = self.I.warnctx
        if not ctx:
            self.I.event('impure', 'warnings.simplefilter')
        elif action == 'ignore':
            ctx[-1].data['ignore'] = True
        elif action == 'error':
            ctx[-1].data['error'] = True

    def f_warnings_filterwarnings(self, action, message='', category=None, module='', lineno=0, append=False):
        self.f_warnings_simplefilter(action)

    def f_copy_copy(self, o):
        I = self.I
        if isinstance(o, Inst):
            f, _ = o.cls.lookup('__copy__')
            if f is not None:
                return I.call(I.bind(f, o, o.cls), [], {})
            if o.cls.kind in ('enum',):
                return o
            return I.new(Inst(o.cls, dict(o.attrs)))
        if isinstance(o, NdArr):
            return self.M.array_copy(o)
        if isinstance(o, Lst):
            return I.new(Lst(o.items))
        if isinstance(o, Dct):
            return I.new(Dct(o.d))
        return o

    def f_copy_deepcopy(self, o, memo=None):
        I = self.I
        if isinstance(o, Inst):
            f, _ = o.cls.lookup('__deepcopy__')
            if f is not None:
                return I.call(I.bind(f, o, o.cls), [I.new(Dct())], {})
            if o.cls.kind == 'enum':
                return o
            return I.new(Inst(o.cls, {k: self.f_copy_deepcopy(v) for k, v in o.attrs.items()}))
        if isinstance(o, NdArr):
            return self.M.array_copy(o)
        if isinstance(o, Lst):
            return I.new(Lst([x if isinstance(x, (Each, SymSeq)) else self.f_copy_deepcopy(x) for x in o.items]))
        if isinstance(o, Dct):
            return I.new(Dct({h: (k, self.f_copy_deepcopy(v)) for h, (k, v) in o.d.items()}))
        if isinstance(o, tuple):
            return tuple(self.f_copy_deepcopy(x) for x in o)
        return o

    def f_textwrap_indent(self, text, prefix, predicate=None):
        return mk('fstr', ('indent', self.M.reify(text), self.M.reify(prefix)), 's')

    def f_textwrap_dedent(self, text):
        return text if isinstance(text, str) else mk('fstr', ('dedent', self.M.reify(text)), 's')

    def f_collections_namedtuple(self, name, fields, defaults=None, **kw):
        I, M = self.I, self.M
        fs = fields.replace(',', ' ').split() if isinstance(fields, str) else I.concrete_list(fields)
        c = I.new(Cls(name, [M.types['tuple']], {}, None))
        c.kind, c.fields = 'namedtuple', fs
        c.extra = I.concrete_list(defaults) if defaults is not None else []
        return c

    def f_collections_OrderedDict(self, *a, **k):
        return self.M.builtin_type(self.M.types['dict'], list(a), k)

    def f_collections_deque(self, it=(), maxlen=None):
        return self.I.new(Lst(self.I.iterate_seq(it)))

    def f_collections_defaultdict(self, *a, **k):
        raise Unsupported('defaultdict')

    f_collections_Counter = f_collections_defaultdict

    def f_inspect_signature(self, *a, **k):
        raise Unsupported('inspect.signature')

    # ------------------------------------------------------------ typing
    def typing(self, n, args, kw):
        I, M = self.I, self.M
        if n == 'cast':
            return args[1]
        if n in ('overload', 'final', 'no_type_check', 'runtime_checkable', 'runtime'):
            return args[0]
        if n == 'NewType':
            return Native(args[0], lambda v: v)
        if n == 'NamedTuple':
            fs = [x[0] for x in I.concrete_list(args[1])] if len(args) > 1 else list(kw)
            c = I.new(Cls(args[0], [M.types['tuple']], {}, None))
            c.kind, c.fields, c.extra = 'namedtuple', fs, []
            return c
        if n == 'get_type_hints':
            return I.new(Dct())
        return Ext('typing.' + n)

    # ------------------------------------------------------------ math / itertools
    def math(self, n, args, kw):
        I, M = self.I, self.M
        xs = []
        for a in args:
            s = M.to_scalar(a, n)
            a = I.num(a if s is None else s)
            if isinstance(a, Inst):
                a = M.bi_float_conv(a)
            xs.append(a)
        if all(is_const(x) and isinstance(x, (int, float)) for x in xs) and not kw:
            try:
                return getattr(math, n)(*xs)
            except (ValueError, OverflowError) as e:
                I.throw(type(e).__name__, str(e))
        if n in ('fsum', 'prod'):
            return M.bi_sum(args[0]) if n == 'fsum' else self.f_functools_reduce(self.operator('mul'), args[0], 1)
        if n == 'dist':
            d = [I.binop('sub', a, b) for a, b in zip(I.concrete_list(args[0]), I.concrete_list(args[1]))]
            return mk('sqrt', (self.sumsq(d),), 'f')
        for x in xs:
            if not (isinstance(x, (int, float)) or (isinstance(x, Term) and x.sort in NUM)):
                I.throw('TypeError', 'must be real number')
        if n == 'hypot':
            return mk('sqrt', (self.sumsq(xs),), 'f')
        if n == 'sqrt':
            if not I.truth(I.cmp('ge', xs[0], 0)):
                I.throw('ValueError', 'math domain error')
            return mk('sqrt', (xs[0],), 'f')
        if n == 'fabs':
            return mk('abs', (xs[0],), 'f')
        if n == 'pow':
            return mk('pow', tuple(xs), 'f')
        if n in ('isnan', 'isinf', 'isfinite'):
            return mk(n, (xs[0],), 'b')
        if n in ('floor', 'ceil', 'trunc'):
            if xs[0].sort in ('i', 'I'):
                return xs[0]
            return mk('int', (mk('np', (n, (xs[0],), ()), 'f'),), 'i')
        if n == 'isclose':
            rt = kw.get('rel_tol', 1e-9)
            at = kw.get('abs_tol', 0.0)
            return mk('np', ('mathisclose', (xs[0], xs[1], M.reify(rt), M.reify(at)), ()), 'b') if False else self.isclose(xs[0], xs[1], rt, at)
        if n == 'atan2':
            return mk('np', ('arctan2', tuple(xs), ()), 'f')
        if n == 'copysign':
            return mk('np', ('copysign', tuple(xs), ()), 'f')
        if n in ('acos', 'asin') :
            return mk('np', (MATHMAP[n], tuple(xs), ()), 'f')
        if n in MATH1 or n in MATHMAP:
            return mk('np', (MATHMAP.get(n, n), tuple(xs), ()), 'f')
        raise Unsupported(f'math.{n}')

    def isclose(self, a, b, rt, at):
        I, M = self.I, self.M
        if I.truth(I.cmp('eq', a, b)):
            return True
        d = M.bi_abs(I.binop('sub', a, b))
        m = mk('max', (M.bi_abs(a), M.bi_abs(b)), 'f')
        return mk('le', (d, mk('max', (I.binop('mul', rt, m), M.reify(at)), 'f')), 'b')

    def sumsq(self, xs):
        I = self.I
        r = 0
        for x in xs:
            r = I.binop('add', r, I.binop('mul', x, x))
        return r

    def itertools(self, n, args, kw):
        I, M = self.I, self.M
        if n == 'chain':
            return I.new(Iter([x for a in args for x in I.iterate_seq(a)]))
        if n == 'from_iterable':
            out = []
            for a in I.concrete_list(args[0]):
                out.extend(I.iterate_seq(a))
            return I.new(Iter(out))
        if n == 'starmap':
            return I.new(Iter([I.call(args[0], I.concrete_list(x), {}) for x in I.concrete_list(args[1])]))
        if n == 'repeat':
            if len(args) == 2 and isinstance(args[1], int):
                return I.new(Iter([args[0]] * args[1]))
            if len(args) == 2:
                return I.new(Iter([SymSeq(args[1], lambda i: args[0])]))
            raise Unsupported('infinite repeat')
        if n in ('count', 'cycle'):
            raise Unsupported('infinite iterator')
        if n == 'product' and len(args) == 2 and not kw:
            ps = [I.iterate_seq(a) for a in args]
            if any(isinstance(x, (Each, SymSeq)) for p in ps for x in p):
                if all(len(p) == 1 and isinstance(p[0], SymSeq) for p in ps):
                    a, b = ps[0][0], ps[1][0]
                    m = M.size((a.length, b.length))
                    return I.new(Iter([SymSeq(m, lambda k: (a.get(I.binop('floordiv', k, b.length)), b.get(I.binop('mod', k, b.length))))]))
                raise Unsupported('product of symbolic sequences')
        ls = [I.concrete_list(a) if not isinstance(a, int) and a is not None else a for a in args]
        if n in ('combinations', 'permutations', 'combinations_with_replacement'):
            return I.new(Iter([tuple(x) for x in getattr(itertools, n)(*ls)]))
        if n == 'product':
            return I.new(Iter([tuple(x) for x in itertools.product(*ls, **kw)]))
        if n == 'islice':
            return I.new(Iter(list(itertools.islice(*ls))))
        if n == 'zip_longest':
            return I.new(Iter([tuple(x) for x in itertools.zip_longest(*ls, **kw)]))
        if n == 'tee':
            return tuple(I.new(Iter(list(ls[0]))) for _ in range(ls[1] if len(ls) > 1 else 2))
        if n == 'compress':
            return I.new(Iter([x for x, s in zip(*ls) if I.truth(s)]))
        if n == 'accumulate':
            out = []
            for x in ls[0]:
                out.append(x if not out else (I.call(args[1], [out[-1], x], {}) if len(args) > 1 else I.binop('add', out[-1], x)))
            return I.new(Iter(out))
        if n in ('takewhile', 'dropwhile', 'filterfalse'):
            f = lambda x: I.truth(I.call(args[0], [x], {}))
            seq = I.concrete_list(args[1])
            if n == 'filterfalse':
                return I.new(Iter([x for x in seq if not f(x)]))
            k = 0
            while k < len(seq) and f(seq[k]):
                k += 1
            return I.new(Iter(seq[:k] if n == 'takewhile' else seq[k:]))
        if n == 'pairwise':
            return I.new(Iter(list(zip(ls[0], ls[0][1:]))))
        raise Unsupported(f'itertools.{n}')

    # ------------------------------------------------------------ scipy / networkx
    def metric(self, n, args, kw):
        I, M = self.I, self.M
        if len(args) < 2:
            kw = dict(kw)
            args = list(args) + [kw.pop(k) for k in ('u', 'v')[len(args):] if k in kw]
        if len(args) < 2:
            I.throw('TypeError', 'missing argument')
        u, v = M.asarray(args[0]), M.asarray(args[1])
        if n == 'euclidean' and len(args) == 2 and not kw:
            d = M.array_binop('sub', u, v)
            return mk('sqrt', (M.term_of(M.np_reduce('sum', M.array_binop('mul', d, d))),), 'F')
        names = {'minkowski': ['p', 'w'], 'wminkowski': ['p', 'w'], 'mahalanobis': ['VI'], 'seuclidean': ['V'], 'jensenshannon': ['base']}.get(n, ['w'])
        k = dict(zip(names, args[2:]))
        for a in kw:
            if a not in names and a not in ('w', 'centered', 'axis', 'keepdims'):
                I.throw('TypeError', f'unexpected keyword {a}')
        k.update(kw)
        k = {a: M.term_of(M.asarray(b)) if isinstance(b, (Lst, tuple)) else M.reify(b) for a, b in k.items() if b is not None}
        return mk('sp', ('scipy.spatial.distance.' + n, (M.cur(u), M.cur(v)), tuple(sorted(k.items()))), 'F')

    def f_scipy_special_fresnel(self, z):
        M = self.M
        t = mk('sp', ('scipy.special.fresnel', (M.term_of(M.asarray(z)) if not isinstance(z, Term) else z,), ()), 'A')
        a = M.asarray(z)
        if not a.shape:
            return (mk('proj', (t, 0), 'F'), mk('proj', (t, 1), 'F'))
        return (M.arr(mk('proj', (t, 0), 'A'), a.shape, 'float64'), M.arr(mk('proj', (t, 1), 'A'), a.shape, 'float64'))

    def f_scipy_spatial_distance_pdist(self, X, metric='euclidean', **kw):
        M = self.M
        a = M.asarray(X)
        t = mk('sp', ('scipy.spatial.distance.pdist', (M.cur(a), M.reify(metric)), ()), 'A')
        n = a.shape[0] if a.shape else None
        m = n * (n - 1) // 2 if isinstance(n, int) else mk('shape', (t, 0), 'i')
        return M.arr(t, (m,), 'float64')

    def f_scipy_spatial_distance_squareform(self, X, force='no', checks=True):
        M = self.M
        a = M.asarray(X)
        t = mk('sp', ('scipy.spatial.distance.squareform', (M.cur(a),), ()), 'A')
        m = a.shape[0] if a.shape else None
        if isinstance(m, int):
            n = next(k for k in range(1, 200) if k * (k - 1) // 2 >= m)
            return M.arr(t, (n, n), 'float64')
        s = mk('shape', (t, 0), 'i')
        return M.arr(t, (s, s), 'float64')

    def f_networkx_Graph(self, *a, **k):
        I, M = self.I, self.M
        g = I.new(Inst(Cls('Graph', [M.obj], {}, builtin=True)))
        nodes, edges = [], []

        def add_node(x, **k):
            if x not in nodes:
                nodes.append(x)

        def add_edge(x, y, **k):
            if isinstance(x, Term) or isinstance(y, Term):
                raise Unsupported('symbolic graph nodes')
            add_node(x)
            add_node(y)
            edges.append((x, y))

        def many(f):
            def g_(it, **k):
                for e in I.concrete_list(it):
                    f(*(I.concrete_list(e) if f is add_edge else [e]))
            return Native('add_from', g_)
        g.attrs.update({'add_node': Native('add_node', add_node), 'add_edge': Native('add_edge', add_edge), 'add_edges_from': many(add_edge),
                        'add_nodes_from': many(add_node), '_nodes': nodes, '_edges': edges})
        if a:
            I.call(g.attrs['add_edges_from'], [a[0]], {})
        return g

    def f_networkx_connected_components(self, g):
        I = self.I
        nodes, edges = g.attrs['_nodes'], g.attrs['_edges']
        comp = {x: {x} for x in nodes}
        for a, b in edges:
            if comp[a] is not comp[b]:
                u = comp[a] | comp[b]
                for x in u:
                    comp[x] = u
        seen, out = set(), []
        for x in nodes:
            if x not in seen:
                seen |= comp[x]
                out.append(I.new(SetV(sorted(comp[x]))))
        return I.new(Iter(out))
