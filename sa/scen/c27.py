import copy
import skcurve
from skcurve import (Axis, get_interpolator, get_smooth_method, get_intersect_method, interp_methods, smooth_methods, intersect_methods,
                     default_intersect_method, set_default_intersect_method, register_interpolator, register_smooth_method,
                     register_intersect_method, InterpolatorBase, UniformInterpolationGrid, UniformExtrapolationGrid,
                     PreservedSpeedInterpolationGrid, InterpolationGrid, known_metrics, get_metric, isequal, allequal, dot1d,
                     NOT_INTERSECTED, IntersectionType, SegmentsIntersection)
from skcurve import curves

METHOD = type(get_intersect_method('exact')).__mro__[1]
SCALARS = ['size', 'ndim', 'dtype', 'is2d', 'is3d', 'isspatial', 'isplane', 'isparametric', 'arclen']
ARRAYS = ['data', 't', 'chordlen', 'cumarclen', 'firstderiv', 'secondderiv', 'thirddenv', 'tangent', 'normal', 'binormal', 'speed',
          'frenet1', 'frenet2', 'frenet3', 'curvature', 'torsion']
ARRAYS[6] = 'thirdderiv'


def pure(k, what):
    """nothing that existed before has been written and nothing outside has been read"""
    e = effects(k)
    fact(len(e) == 0, what + ' changes no module state and reads nothing but its arguments', '; '.join(e))


def s_curve_properties():
    c = curve(nmin=0, par=True) if choose(True, False) else curve(nmin=0)
    k = mark()
    a = choose(*(SCALARS + ARRAYS))
    outcome(getattr, c, a)
    pure(k, 'Curve.' + a)


def s_curve_point_properties():
    c = curve(nmin=4)
    k = mark()
    p = c[2]
    a = choose('data', 't', 'idx', 'curve', 'cumarclen', 'firstderiv', 'secondderiv', 'thirdderiv', 'tangent', 'normal', 'binormal', 'speed',
               'frenet1', 'frenet2', 'frenet3', 'curvature', 'torsion', 'norm', 'subcurve', 'repr', 'copy', 'distance')
    if a == 'norm':
        p.norm()
    elif a == 'subcurve':
        p.subcurve(c[0])
    elif a == 'repr':
        repr(p)
    elif a == 'copy':
        copy.copy(p)
        copy.deepcopy(p)
    elif a == 'distance':
        p.distance(c[1])
    else:
        outcome(getattr, p, a)
    pure(k, 'CurvePoint.' + a)


def s_curve_methods():
    c, d = curve('c', nmin=3), curve('d', nmin=1)
    p = point('p', 2)
    k = mark()
    a = choose('repr', 'len', 'bool', 'item', 'slice', 'contains', 'eq', 'add', 'copy', 'deepcopy', 'index', 'count', 'segments', 'segment',
               'reverse', 'coorientplane', 'insert', 'append', 'delete', 'values', 'insertdim', 'appenddim', 'deletedim', 'unique', 'drop',
               'nonsingular', 'iter')
    f = {'repr': lambda: repr(c), 'len': lambda: len(c), 'bool': lambda: bool(c), 'item': lambda: c[1], 'slice': lambda: c[1:],
         'contains': lambda: p in c, 'eq': lambda: c == d, 'add': lambda: c + d, 'copy': lambda: copy.copy(c), 'deepcopy': lambda: copy.deepcopy(c),
         'index': lambda: c.index(p), 'count': lambda: c.count(p), 'segments': lambda: c.segments, 'segment': lambda: c.segments[0].chordlen,
         'reverse': lambda: c.reverse(), 'coorientplane': lambda: c.coorientplane(), 'insert': lambda: c.insert(1, p),
         'append': lambda: c.append(d), 'delete': lambda: c.delete(1), 'values': lambda: c.values(Axis.X), 'insertdim': lambda: c.insertdim(0),
         'appenddim': lambda: c.appenddim(), 'deletedim': lambda: c.deletedim(0), 'unique': lambda: c.unique(),
         'drop': lambda: c.drop(c.curvature > 1), 'nonsingular': lambda: c.nonsingular(), 'iter': lambda: [x for x in c]}
    outcome(f[a])
    pure(k, 'Curve ' + a)


def s_point_methods():
    k = mark()
    p, q = point('p', 3), point('q', 3)
    a = choose('repr', 'len', 'eq', 'arith', 'item', 'copy', 'norm', 'distance', 'metric', 'new')
    f = {'repr': lambda: repr(p), 'len': lambda: len(p), 'eq': lambda: p == q, 'item': lambda: p[0], 'copy': lambda: copy.copy(p),
         'arith': lambda: ((p + q) * 2 - q / 3, p @ q, 1 - p, p // 2), 'norm': lambda: p.norm(), 'distance': lambda: p.distance(q),
         'metric': lambda: p.distance(q, metric='minkowski', p=3), 'new': lambda: Point([1, 2], dtype='float32')}
    outcome(f[a])
    pure(k, 'Point ' + a)


def s_segment_methods():
    k = mark()
    s, r, p = segment('s', 3), segment('r', 3), point('p', 3)
    a = choose('repr', 'eq', 'data', 'singular', 'seglen', 'dot', 'direction', 'point', 'points', 't', 'ts', 'angle', 'parallel', 'collinear',
               'coplanar', 'overlap', 'exact', 'almost', 'distance', 'shortest', 'shortest_point', 'to_curve', 'reverse')
    f = {'repr': lambda: repr(s), 'eq': lambda: s == r, 'data': lambda: s.data, 'singular': lambda: s.singular, 'seglen': lambda: s.seglen,
         'dot': lambda: s.dot, 'direction': lambda: s.direction, 'point': lambda: s.point(0.5), 'points': lambda: s.point([0.5, 1.0]),
         't': lambda: s.t(p), 'ts': lambda: s.t([p, p]), 'angle': lambda: s.angle(r), 'parallel': lambda: s.parallel(r),
         'collinear': lambda: s.collinear(r), 'coplanar': lambda: s.coplanar(r), 'overlap': lambda: s.overlap(r),
         'exact': lambda: s.intersect(r), 'almost': lambda: s.intersect(r, 'almost'), 'distance': lambda: s.distance(r),
         'shortest': lambda: s.shortest_segment(r), 'shortest_point': lambda: s.shortest_segment(p), 'to_curve': lambda: s.to_curve(),
         'reverse': lambda: s.reverse()}
    outcome(f[a])
    pure(k, 'Segment ' + a)


def s_interpolation():
    c = curve(nmin=5, dim=2)
    k = mark()
    m = choose('linear', 'cubic', 'hermite', 'akima', 'pchip', 'spline', 'csaps')
    g = choose('number', 'array', 'uniform', 'extra', 'speed')
    spec = {'number': lambda: 10, 'array': lambda: incr('g', nat('m', 2)), 'uniform': lambda: UniformInterpolationGrid(0.1, kind='length'),
            'extra': lambda: UniformExtrapolationGrid(UniformInterpolationGrid(10), before=1, after=2),
            'speed': lambda: PreservedSpeedInterpolationGrid(10)}[g]()
    outcome(c.interpolate, spec, m)
    pure(k, 'interpolation ' + m + ' ' + g)


def s_interpolator_object():
    c = curve(nmin=5, dim=2)
    k = mark()
    m = choose('linear', 'cubic', 'hermite', 'akima', 'pchip', 'spline', 'csaps')
    f = get_interpolator(m, c)
    outcome(f, 10)
    outcome(f, 12)
    f.curve
    pure(k, 'interpolator ' + m)


def s_smoothing():
    c = curve(nmin=5, dim=2)
    k = mark()
    m = choose('savgol', 'window')
    kw = {'window_length': 3, 'polyorder': 1} if m == 'savgol' else {'window_size': 3, 'window_type': choose('hann', 'boxcar')}
    outcome(c.smooth, m, **kw)
    outcome(get_smooth_method(m), c, **kw)
    pure(k, 'smoothing ' + m)


def s_intersection():
    m = choose(None, 'exact', 'almost')
    c, d, s = curve('c', nmin=2, dim=2), curve('d', 2, dim=2, n=None if m == 'almost' else 2), segment('s', 2)
    k = mark()
    o = choose('self', 'curve', 'segment', 'object')
    if o == 'self':
        st, r = outcome(c.intersect, None, m)
    elif o == 'curve':
        st, r = outcome(c.intersect, d, m)
    elif o == 'segment':
        st, r = outcome(c.intersect, s, m)
    else:
        st, r = outcome(c.intersect, d, get_intersect_method(m or 'exact'))
    if st == 'ok':
        for x in r:
            bool(x), x.intersect_type, x.segment1, x.segment2, x.intersect_point, x.intersect_segment, repr(x)
    pure(k, 'intersection ' + str(m) + ' ' + o)


def s_listings():
    k = mark()
    a = choose('interp', 'smooth', 'intersect', 'metrics', 'get_metric', 'default', 'get')
    f = {'interp': interp_methods, 'smooth': smooth_methods, 'intersect': intersect_methods, 'metrics': known_metrics,
         'get_metric': lambda: get_metric('cityblock'), 'default': default_intersect_method,
         'get': lambda: (get_intersect_method('exact'), get_smooth_method('savgol'))}
    r = f[a]()
    if isinstance(r, list):
        r.append('intruder')
    pure(k, 'listing ' + a)


def s_unknown_names():
    k = mark()
    c = curve(nmin=2, dim=2)
    a = choose('interp', 'smooth', 'intersect', 'metric', 'default')
    f = {'interp': lambda: c.interpolate(5, 'no-such'), 'smooth': lambda: c.smooth('no-such'), 'intersect': lambda: c.intersect(method='no-such'),
         'metric': lambda: get_metric('no-such'), 'default': lambda: set_default_intersect_method('no-such')}
    outcome(f[a])
    pure(k, 'unknown name ' + a)


def s_failed_registration():
    k = mark()
    a = choose('interp', 'smooth', 'intersect', 'class', 'default')

    class Mine(METHOD):
        def _intersect_segments(self, segment1, segment2):
            return NOT_INTERSECTED

        def _intersect_curves(self, curve1, curve2):
            return []
    f = {'interp': lambda: register_interpolator('linear')(InterpolatorBase), 'smooth': lambda: register_smooth_method('savgol')(len),
         'intersect': lambda: register_intersect_method('exact')(Mine), 'class': lambda: register_intersect_method('mine')(int),
         'default': lambda: register_intersect_method('exact', default=True)(Mine)}
    st, r = outcome(f[a])
    same(st, 'raise', 'registration of a taken name or a foreign class fails')
    pure(k, 'failed registration ' + a)


def s_helpers():
    x, y = arr('x', (nat('n', 1), 2), 'float64'), arr('y', (nat('n', 1), 2), 'float64')
    k = mark()
    a = choose('isequal', 'allequal', 'dot1d')
    outcome({'isequal': isequal, 'allequal': allequal, 'dot1d': dot1d}[a], x, y)
    pure(k, a)


def s_predefined_curves():
    k = mark()
    n = choose('arc', 'lemniscate_of_bernoulli', 'archimedean_spiral', 'euler_spiral', 'lissajous', 'helix', 'irregular_helix')
    if not hasattr(curves, n):
        skip()
    outcome(getattr(curves, n))
    pure(k, 'predefined curves')


# ------------------------------------------------------------------ histories

def s_property_order():
    """reading other quantities first does not change a quantity"""
    dim = choose(2, 3, 4)
    d, par = arr('data', (nat('N', 4), dim), 'float64'), choose(True, False)
    t = incr('t', len(d))
    c, f = (Curve(d, tdata=t), Curve(d, tdata=t)) if par else (Curve(d), Curve(d))
    names = ARRAYS
    one = [getattr(c, a) for a in names]
    two = [getattr(f, a) for a in names[::-1]][::-1]
    again = [getattr(c, a) for a in names]
    for i, a in enumerate(names):
        same(two[i], one[i], a + ' does not depend on what was read before')
        same(again[i], one[i], a + ' stays the same')


def s_short_property_order():
    n = choose(0, 1, 2, 3)
    d = arr('data', (n, 2), 'float64')
    c, f = Curve(d), Curve(d)
    names = ['t', 'chordlen', 'cumarclen', 'firstderiv', 'secondderiv', 'tangent', 'speed', 'arclen']
    one = [getattr(c, a) for a in names]
    two = [getattr(f, a) for a in names[::-1]][::-1]
    for i, a in enumerate(names):
        same(two[i], one[i], a + ' of a short curve does not depend on what was read before')


def s_operations_after_others():
    """the result of an operation does not depend on earlier operations with the same curve"""
    d = arr('data', (nat('N', 4), 2), 'float64')
    par = choose(True, False)
    t = incr('t', len(d))
    c, f = (Curve(d, tdata=t), Curve(d, tdata=t)) if par else (Curve(d), Curve(d))
    p = point('p', 2)
    ops = {'reverse': lambda c: c.reverse(), 'slice': lambda c: c[1:-1], 'insert': lambda c: c.insert(1, p), 'delete': lambda c: c.delete(1),
           'append': lambda c: c.append(p), 'add': lambda c: c + Curve(d), 'deletedim': lambda c: c.insertdim(1).deletedim(1),
           'appenddim': lambda c: c.appenddim(), 'coorient': lambda c: c.coorientplane(), 'copy': lambda c: copy.copy(c),
           'smooth': lambda c: c.smooth('savgol', window_length=3, polyorder=1), 'interp': lambda c: c.interpolate(10, 'linear')}
    a, b = choose(*ops), choose('quantities', 'reverse', 'slice', 'insert', 'interp', 'points')
    if b == 'quantities':
        [getattr(c, x) for x in ARRAYS]
    elif b == 'points':
        [(x.curvature, x.t) for x in c]
        c.segments
    else:
        outcome(ops[b], c)
    x, y = outcome(ops[a], c), outcome(ops[a], f)
    what = a + ' after ' + b
    same(x[0], y[0], what + ': outcome')
    assume(x[0] == 'ok' and y[0] == 'ok')
    r, q = x[1], y[1]
    same(r.data, q.data, what + ': coordinates')
    same(r.t, q.t, what + ': parameters')
    same(r.cumarclen, q.cumarclen, what + ': arc length')
    same(r.isparametric, q.isparametric, what + ': parametric')


def s_exact_method_reused():
    e = choose('default', 1e-3)
    make = lambda: get_intersect_method('exact') if e == 'default' else get_intersect_method('exact', feps=e)
    m = make()
    a, b, x, y = segment('a', 2), segment('b', 2), segment('x', 2), segment('y', 2)
    outcome(m, a, b)
    r, q = outcome(m, x, y), outcome(make(), x, y)
    intersections(r, q, 'exact method object used before')


def intersections(r, q, what):
    same(r[0], q[0], what + ': outcome')
    assume(r[0] == 'ok' and q[0] == 'ok')
    r, q = r[1], q[1]
    same(r.intersect_type is q.intersect_type, True, what + ': type')
    if bool(r) and bool(q):
        same(r.intersect_point.data, q.intersect_point.data, what + ': point')
        same(r.intersect_segment.data, q.intersect_segment.data, what + ': segment')


def s_almost_method_reused():
    tol, corr = real('tol', 'pos'), choose(False, True)
    make = lambda: get_intersect_method('almost', dist_tol=tol, correct_overlap=corr)
    m = make()
    a, b, x, y = segment('a', 2), segment('b', 2), segment('x', 2), segment('y', 2)
    outcome(m, a, b)
    r, q = outcome(m, x, y), outcome(make(), x, y)
    intersections(r, q, 'almost method object used before')


def numbers(r):
    return np.array([int(x.segment1.idx) for x in r]), np.array([int(x.segment2.idx) for x in r])


def reused(make, what):
    m = make()
    a, b, c, d = curve('a', 2, dim=2, par=False), curve('b', 2, dim=2, par=False), curve('c', 2, dim=2, par=False), curve('d', 2, dim=2, par=False)
    h = choose('curves', 'self', 'same first', 'longer')
    if h == 'curves':
        m(a, b)
    elif h == 'self':
        m(c, c)
    elif h == 'longer':
        m(c.append(a), d.append(b))
    else:
        m(c, b)
    r, q = m(c, d), make()(c, d)
    what = what + ' method object used before for ' + h
    same(len(r), len(q), what + ': number of intersections')
    (i, j), (k, l) = numbers(r), numbers(q)
    same(i, k, what + ': first segments')
    same(j, l, what + ': second segments')
    for x in r:
        same(x.segment1.curve is c, True, what + ': first curve')
        same(x.segment2.curve is d, True, what + ': second curve')


def s_exact_method_reused_for_curves():
    p = point('hit', 2)

    class Mine(type(get_intersect_method('exact'))):
        def _intersect_segments(self, segment1, segment2):
            return IntersectionType.EXACT(p)
    reused(Mine, 'exact')


def s_almost_method_reused_for_curves():
    reused(lambda: get_intersect_method('almost'), 'almost')


def s_almost_options_kept():
    """the options of a method object are those it was made with, whatever it was used for"""
    concretise()
    kw = choose({'remove_extra': True}, {'remove_extra': True, 'extra_tol': 0.3}, {'dist_tol': 0.3})
    m = get_intersect_method('almost', **kw)
    c = Curve(np.array([[0.0, 0.0], [2.0, 0.0]]))
    d = Curve(np.array([[1.0, -1.0], [1.0, 0.0], [1.0, 1.0]]))
    if choose(True, False):
        st, r = outcome(m, c, Curve(np.array([[50.0, 50.0], [60.0, 50.0]])))
    else:
        st, r = outcome(m, c, Curve(np.zeros((0, 2))))
    st, r = outcome(m, c, d)
    st2, q = outcome(get_intersect_method('almost', **kw), c, d)
    same(st, st2, 'outcome of a method object used before')
    assume(st == 'ok' and st2 == 'ok')
    same(len(r), len(q), 'number of intersections with a method object used before')


def s_self_intersection_after_others():
    p = point('hit', 2)

    class Mine(type(get_intersect_method('exact'))):
        def _intersect_segments(self, segment1, segment2):
            return IntersectionType.EXACT(p)
    make = Mine if choose(True, False) else (lambda: get_intersect_method('almost'))
    m = make()
    a, c = curve('a', 2, dim=2, par=False), curve('c', 2, dim=2, par=False)
    m(c, a)
    r, q = m(c, c), make()(c, c)
    same(len(r), len(q), 'number of self-intersections with a method object used before')
    (i, j), (k, l) = numbers(r), numbers(q)
    same(i, k, 'self-intersections with a method object used before: first segments')
    same(j, l, 'self-intersections with a method object used before: second segments')


def s_default_method_after_named():
    """a call with another method or options does not change later calls"""
    a, b = segment('a', 2), segment('b', 2)
    h = choose('almost', 'options', 'object', 'failure')
    before = default_intersect_method()
    q = outcome(a.intersect, b)
    if h == 'almost':
        outcome(a.intersect, b, 'almost')
    elif h == 'options':
        outcome(a.intersect, b, 'exact', feps=0.5)
    elif h == 'object':
        outcome(a.intersect, b, get_intersect_method('almost', dist_tol=1.0))
    else:
        outcome(a.intersect, b, 'no-such')
    r = outcome(a.intersect, b)
    same(default_intersect_method(), before, 'the default method is only changed by its setter')
    intersections(r, q, 'default method after ' + h)


def fill():
    return real('fill', 'pos')


GRIDS = {'points': lambda: UniformInterpolationGrid(nat('p', 2)), 'length': lambda: UniformInterpolationGrid(fill(), kind='length'),
         'extra': lambda: UniformExtrapolationGrid(UniformInterpolationGrid(nat('p', 2)), before=nat('b', 0), after=nat('a', 0)),
         'extra length': lambda: UniformExtrapolationGrid(UniformInterpolationGrid(fill(), kind='length'), before=real('bl', 'pos'), after=real('al', 'pos'), kind='length'),
         'speed': lambda: PreservedSpeedInterpolationGrid(nat('p', 2)), 'fast': lambda: PreservedSpeedInterpolationGrid(200)}


def s_grid_reused():
    n = choose(*GRIDS)
    g = GRIDS[n]()
    c, d = curve('c', nmin=2, dim=2, par=choose(True, False)), curve('d', nmin=2, dim=2, par=False)
    h = choose('other', 'same', 'reverse', 'failed')
    if h == 'failed':
        outcome(g, None)
    else:
        outcome(g, d if h == 'other' else c if h == 'same' else c.reverse())
    r, q = outcome(g, c), outcome(GRIDS[n](), c)
    same(r[0], q[0], 'grid ' + n + ' used before for ' + h + ': outcome')
    assume(r[0] == 'ok' and q[0] == 'ok')
    same(r[1], q[1], 'grid ' + n + ' used before for ' + h)


def s_interpolator_reused():
    m = choose('linear', 'cubic', 'hermite', 'akima', 'pchip', 'spline', 'csaps')
    c = curve('c', nmin=5, dim=2)
    g, h = incr('g', nat('m', 2)), incr('h', nat('k', 2))
    f = get_interpolator(m, c)
    outcome(f, h)
    r, q = outcome(f, g), outcome(get_interpolator(m, c), g)
    same(r[0], q[0], m + ' interpolator used before: outcome')
    assume(r[0] == 'ok' and q[0] == 'ok')
    same(value(r[1]), value(q[1]), m + ' interpolator used before: values')


def s_interpolation_history():
    """options of an earlier call do not leak into later ones"""
    m = choose('linear', 'cubic', 'hermite', 'pchip', 'spline', 'csaps')
    c, d = curve('c', nmin=5, dim=2), curve('d', nmin=5, dim=2)
    g = gridvalues()
    kw = {'linear': {'extrapolate': False}, 'cubic': {'bc_type': 'clamped'}, 'hermite': {'extrapolate': False}, 'pchip': {'extrapolate': False},
          'spline': {'k': 1, 'smooth': 0.5}, 'csaps': {'smooth': 0.5}}[m]
    q = c.interpolate(g, m)
    outcome(d.interpolate, g, m, **kw)
    outcome(c.interpolate, g, m, **kw)
    r = c.interpolate(g, m)
    same(r.data, q.data, m + ' interpolation after one with other options')
    same(r.t, q.t, m + ' interpolation after one with other options')


def s_smoothing_history():
    m = choose('savgol', 'window')
    c, d = curve('c', nmin=5, dim=2), curve('d', nmin=5, dim=2)
    kw = {'window_length': 3, 'polyorder': 1} if m == 'savgol' else {'window_size': 3}
    kw2 = {'window_length': 5, 'polyorder': 2, 'mode': 'nearest'} if m == 'savgol' else {'window_size': 5, 'window_type': 'boxcar', 'mode': 'nearest'}
    q = c.smooth(m, **kw)
    outcome(d.smooth, m, **kw)
    outcome(c.smooth, m, **kw2)
    same(c.smooth(m, **kw).data, q.data, m + ' smoothing after one with other options')


def s_points_of_several_curves():
    """points and segments of one curve are not affected by those of another one"""
    c, d = curve('c', nmin=4, dim=2), curve('d', nmin=4, dim=2)
    a = choose('curvature', 'tangent', 'cumarclen', 'speed', 't', 'frenet2', 'firstderiv')
    f = copy.deepcopy(c)
    d[1], d.segments[0].chordlen, getattr(d[1], a), getattr(c[2], a)
    same(getattr(c[1], a), getattr(f[1], a), a + ' of a point after access to other points')


def s_metric_history():
    p, q = point('p', 3), point('q', 3)
    w = p.distance(q)
    m = choose('cityblock', 'chebyshev', 'minkowski', 'cosine')
    outcome(p.distance, q, metric=m)
    outcome(q.distance, p, metric='minkowski', p=1)
    same(p.distance(q), w, 'the default metric after another one')


def s_registration_keeps_others():
    """registering a method leaves the other methods alone"""
    c = curve('c', nmin=5, dim=2)
    g = gridvalues()
    q = c.interpolate(g, 'linear')
    w = c.smooth('savgol', window_length=3, polyorder=1)

    @register_interpolator('mine')
    class Mine(InterpolatorBase):
        def _interpolate(self, grid):
            return np.zeros((len(grid), 2))

    @register_smooth_method('mine')
    def mine(curve):
        return curve.data
    outcome(c.interpolate, g, 'mine')
    same(c.interpolate(g, 'linear').data, q.data, 'another interpolation method after a registration')
    same(c.smooth('savgol', window_length=3, polyorder=1).data, w.data, 'another smoothing method after a registration')
