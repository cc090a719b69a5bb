"""a failed operation leaves everything as it was"""
import skcurve
from skcurve import (InterpolatorBase, interp_methods, get_interpolator, register_interpolator, smooth_methods, get_smooth_method,
                     register_smooth_method, intersect_methods, get_intersect_method, default_intersect_method, UniformInterpolationGrid,
                     UniformExtrapolationGrid, PreservedSpeedInterpolationGrid, InterpolationGrid,
                     set_default_intersect_method, register_intersect_method)
from skcurve._intersect import IntersectionMethodBase, NOT_INTERSECTED, intersect

QUANT = ['data', 'chordlen', 'arclen', 'cumarclen', 'tangent', 'speed', 'frenet1', 'curvature', 'normal']


def untouched(k, what):
    e = effects(k)
    same(len(e), 0, 'a failed ' + what + ' changes nothing that existed before' + ('' if not len(e) else ': ' + '; '.join(e)))


def registries():
    return (list(interp_methods()), list(smooth_methods()), list(intersect_methods()), default_intersect_method())


def same_registries(r, what):
    q = registries()
    same(q[0], r[0], 'interpolation methods after a failed ' + what)
    same(q[1], r[1], 'smoothing methods after a failed ' + what)
    same(q[2], r[2], 'intersection methods after a failed ' + what)
    same(q[3], r[3], 'default intersection method after a failed ' + what)


def state(c):
    return (value(c.data), value(c.t) if c.isparametric else None, c.isparametric, c.size, c.ndim, c.dtype)


def same_state(c, s, what):
    same(c.data, s[0], 'points after a failed ' + what)
    same(c.isparametric, s[2], 'kind of the curve after a failed ' + what)
    same(c.size, s[3], 'number of points after a failed ' + what)
    same(c.ndim, s[4], 'dimension after a failed ' + what)
    same(c.dtype, s[5], 'type of the coordinates after a failed ' + what)
    if c.isparametric and s[2]:
        same(c.t, s[1], 'parameter values after a failed ' + what)


class NotAMethod:
    pass


class Fine(IntersectionMethodBase):
    def _intersect_segments(self, segment1, segment2):
        return NOT_INTERSECTED

    def _intersect_curves(self, curve1, curve2):
        return []


class Spare(InterpolatorBase):
    def _interpolate(self, grid):
        return np.zeros((len(grid), self.curve.ndim))


def apply(reg, obj, *a, **kw):
    reg(*a, **kw)(obj)


def noop(curve, **kw):
    return curve


def s_registration():
    """refused registrations"""
    what = choose('interp taken', 'interp class', 'smooth taken', 'inter taken', 'inter taken default', 'inter class', 'inter class default', 'inter class taken default',
                  'inter not a class', 'interp not a class')
    before = registries()
    if what == 'interp taken':
        st, r = outcome(apply, register_interpolator, Spare, choose('linear', 'csaps', 'cubic'))
    elif what == 'interp class':
        st, r = outcome(apply, register_interpolator, NotAMethod, 'c40-new')
    elif what == 'interp not a class':
        st, r = outcome(apply, register_interpolator, 17, 'c40-new')
    elif what == 'smooth taken':
        st, r = outcome(apply, register_smooth_method, noop, choose('savgol', 'window'))
    elif what == 'inter taken':
        st, r = outcome(apply, register_intersect_method, Fine, choose('exact', 'almost'))
    elif what == 'inter taken default':
        st, r = outcome(apply, register_intersect_method, Fine, choose('exact', 'almost'), default=True)
    elif what == 'inter class':
        st, r = outcome(apply, register_intersect_method, NotAMethod, 'c40-new')
    elif what == 'inter class default':
        st, r = outcome(apply, register_intersect_method, NotAMethod, 'c40-new', default=True)
    elif what == 'inter class taken default':
        st, r = outcome(apply, register_intersect_method, NotAMethod, 'almost', default=True)
    else:
        st, r = outcome(apply, register_intersect_method, 17, 'c40-new', default=True)
    same(st, 'raise', 'registration is refused: ' + what)
    assume(st == 'raise')
    same_registries(before, 'registration: ' + what)


def s_registration_later():
    """a refused registration leaves the name free and the taken one with its owner"""
    what = choose('interp', 'inter')
    if what == 'interp':
        st, r = outcome(apply, register_interpolator, NotAMethod, 'c40-free')
        assume(st == 'raise')
        raises(get_interpolator, NameError, 'the refused name is unknown', 'c40-free', curve(nmin=4, dim=2))
        st, r = outcome(apply, register_interpolator, Spare, 'c40-free')
        same(st, 'ok', 'the refused name is still free')
        same(typename(get_interpolator('c40-free', curve(nmin=4, dim=2))), 'Spare', 'the later registration counts')
    else:
        dflt = default_intersect_method()
        st, r = outcome(apply, register_intersect_method, NotAMethod, 'c40-free', default=choose(True, False))
        assume(st == 'raise')
        raises(get_intersect_method, NameError, 'the refused name is unknown', 'c40-free')
        same(default_intersect_method(), dflt, 'default method')
        st, r = outcome(apply, register_intersect_method, Fine, 'c40-free')
        same(st, 'ok', 'the refused name is still free')
        same(typename(get_intersect_method('c40-free')), 'Fine', 'the later registration counts')
        same(default_intersect_method(), dflt, 'default method')


def s_taken_owner():
    m = choose('exact', 'almost')
    a = typename(get_intersect_method(m))
    st, r = outcome(apply, register_intersect_method, Fine, m, default=choose(True, False))
    assume(st == 'raise')
    same(typename(get_intersect_method(m)), a, 'owner of a taken name')
    c = curve(n=4, dim=2)
    n = choose('linear', 'spline')
    b = typename(get_interpolator(n, c))
    st, r = outcome(apply, register_interpolator, Spare, n)
    assume(st == 'raise')
    same(typename(get_interpolator(n, c)), b, 'owner of a taken name')
    g = choose('savgol', 'window')
    f = get_smooth_method(g)
    st, r = outcome(apply, register_smooth_method, noop, g)
    assume(st == 'raise')
    same(is_same(get_smooth_method(g), f), True, 'owner of a taken name')


def s_lookup():
    """unknown names"""
    what = choose('default', 'default none', 'inter', 'interp', 'smooth', 'intersect', 'interpolate', 'curve smooth', 'segment')
    name = choose('no-such-method', '', 'Exact')
    c = curve(n=4, dim=2)
    s = state(c)
    before = registries()
    if what == 'default':
        st, r = outcome(set_default_intersect_method, name)
    elif what == 'default none':
        st, r = outcome(set_default_intersect_method, None)
    elif what == 'inter':
        st, r = outcome(get_intersect_method, name)
    elif what == 'interp':
        st, r = outcome(get_interpolator, name, c)
    elif what == 'smooth':
        st, r = outcome(get_smooth_method, name)
    elif what == 'intersect':
        st, r = outcome(c.intersect, c, method=name)
    elif what == 'interpolate':
        st, r = outcome(c.interpolate, 5, method=name)
    elif what == 'curve smooth':
        st, r = outcome(c.smooth, method=name)
    else:
        st, r = outcome(segment('a').intersect, segment('b'), method=name)
    same(st, 'raise', 'an unknown name is refused: ' + what)
    assume(st == 'raise')
    same_registries(before, 'lookup: ' + what)
    same_state(c, s, 'lookup: ' + what)


def s_bad_options():
    """options a method does not take, or of the wrong kind"""
    what = choose('exact option', 'almost option', 'almost value', 'interp option', 'interp weights', 'smooth window', 'smooth option', 'window type')
    c = curve(n=5, dim=2, par=choose(False, 'incr'))
    s = state(c)
    before = registries()
    k = mark()
    if what == 'exact option':
        st, r = outcome(get_intersect_method, 'exact', nonsense=1)
    elif what == 'almost option':
        st, r = outcome(get_intersect_method, 'almost', nonsense=1)
    elif what == 'almost value':
        st, r = outcome(get_intersect_method, 'almost', almost_tol='a')
    elif what == 'interp option':
        st, r = outcome(c.interpolate, 7, method='linear', nonsense=1)
    elif what == 'interp weights':
        st, r = outcome(c.interpolate, 7, method='spline', w=[1.0, 2.0])
    elif what == 'smooth window':
        st, r = outcome(c.smooth, 'savgol', window_length=4, polyorder=2)
    elif what == 'smooth option':
        st, r = outcome(c.smooth, 'window', window_size=3, nonsense=1)
    else:
        st, r = outcome(c.smooth, 'window', window_size=3, window='no-such-window')
    if st != 'raise':
        skip()
    untouched(k, 'call with bad options: ' + what)
    same_registries(before, 'call with bad options: ' + what)
    same_state(c, s, 'call with bad options: ' + what)


def s_grids():
    """invalid grids"""
    c = curve(n=4, dim=2, par='incr')
    s = state(c)
    g = choose([[0.0, 1.0], [2.0, 3.0]], [3.0, 2.0, 1.0], [0.0, 0.0, 1.0], [1.0, 1.0], 'abc', None, 1, 0, -3, 1.5, ['a', 'b'], {'a': 1})
    arrayed = choose(False, True)
    if arrayed:
        if not isinstance(g, list) or g == ['a', 'b']:
            skip()
        g = np.array(g)
        was = value(g)
    elif isinstance(g, list):
        was = list(g)
    else:
        was = g
    k = mark()
    st, r = outcome(c.interpolate, g, method=choose('linear', 'cubic'))
    assume(st == 'raise')
    untouched(k, 'interpolation')
    same_state(c, s, 'interpolation')
    if arrayed:
        same(g, was, 'grid handed in')
        same(g.flags.writeable, True, 'grid handed in stays writeable')
    elif isinstance(g, list):
        same(g, was, 'grid handed in')


def s_grid_objects():
    """grid objects built or used in vain keep their settings"""
    what = choose('fill', 'kind', 'float', 'extra kind', 'extra float', 'too few')
    c = curve(n=1, dim=2)
    k = mark()
    if what == 'fill':
        st, r = outcome(UniformInterpolationGrid, choose(1, 0, -1))
    elif what == 'kind':
        st, r = outcome(UniformInterpolationGrid, 5, kind='area')
    elif what == 'float':
        st, r = outcome(UniformInterpolationGrid, 2.5)
    elif what == 'extra kind':
        st, r = outcome(UniformExtrapolationGrid, UniformInterpolationGrid(5), before=1, after=1, kind='area')
    elif what == 'extra float':
        st, r = outcome(UniformExtrapolationGrid, UniformInterpolationGrid(5), before=1.5, after=1)
    else:
        st, r = outcome(UniformInterpolationGrid(5), c)
    assume(st == 'raise')
    untouched(k, 'use of a grid: ' + what)
    d = curve('d', n=3, dim=2, par='incr')
    same(UniformInterpolationGrid(5)(d), np.linspace(d.t[0], d.t[-1], 5), 'a later valid grid')


def s_grid_reuse():
    """a grid object used in vain on one curve works on the next as if it had not"""
    g = choose('uniform', 'extra', 'speed')

    def make():
        u = UniformInterpolationGrid(6)
        if g == 'uniform':
            return u
        if g == 'extra':
            return UniformExtrapolationGrid(u, before=1, after=2)
        return PreservedSpeedInterpolationGrid(6)
    o, fresh = make(), make()
    st, r = outcome(o, curve('b', n=1, dim=2, par='incr'))
    assume(st == 'raise')
    d = Curve(np.array([[0.0, 0.0], [1.0, 2.0], [3.0, 1.0], [4.0, 5.0]]), tdata=np.array([0.0, 1.0, 2.5, 4.0]))
    same(o(d), fresh(d), 'grid after a use that failed')


def failing_edit(c, what):
    bad = point('w', 4)
    if what == 'insert dimension':
        return outcome(c.insert, 0, bad)
    if what == 'append dimension':
        return outcome(c.append, bad)
    if what == 'append curve':
        return outcome(c.append, curve('o', n=2, dim=4, par=False))
    if what == 'insert kind':
        return outcome(c.insert, 0, 5)
    if what == 'insert index':
        return outcome(c.insert, 99, point('v', 2))
    if what == 'delete index':
        return outcome(c.delete, 99)
    if what == 'insertdim axis':
        return outcome(c.insertdim, 9, np.zeros(4))
    if what == 'insertdim size':
        return outcome(c.insertdim, 1, np.zeros(7))
    if what == 'appenddim size':
        return outcome(c.appenddim, np.zeros(7))
    if what == 'deletedim':
        return outcome(c.deletedim, 0)
    if what == 'drop':
        return outcome(c.drop, 5)
    if what == 'drop shape':
        return outcome(c.drop, lambda d: np.zeros((4, 2)))
    if what == 'values axis':
        return outcome(c.values, choose(7, 'x'))
    if what == 'index':
        return outcome(lambda: c[99])
    if what == 'index kind':
        return outcome(lambda: c[None])
    if what == 'coorientplane':
        return outcome(c.coorientplane, c, axis1=0, axis2=9)
    if what == 'index of':
        return outcome(c.index, Point([1e17, 1e17]))
    if what == 'add':
        return outcome(lambda: c + 5)
    if what == 'point metric':
        return outcome(c[0].distance, c[1], 'no-such-metric')
    if what == 'point subcurve':
        return outcome(c[0].subcurve, 3)
    return outcome(c[0].subcurve, curve('z', n=3, dim=2, par=False)[1])


EDITS = ['insert dimension', 'append dimension', 'append curve', 'insert kind', 'insert index', 'delete index', 'insertdim axis', 'insertdim size', 'appenddim size',
         'deletedim', 'drop', 'drop shape', 'values axis', 'index', 'index kind', 'coorientplane', 'index of', 'add', 'point metric', 'point subcurve', 'foreign subcurve']


def s_edits():
    """refused edits leave the curve and what it has computed already"""
    what = choose(*EDITS)
    q = choose('chordlen', 'tangent', 'cumarclen')
    c = curve(n=4, dim=2, par=choose(False, 'incr'))
    s = state(c)
    v = value(getattr(c, q))
    k = mark()
    st, r = failing_edit(c, what)
    if st != 'raise':
        skip()
    untouched(k, 'edit: ' + what)
    same_state(c, s, 'edit: ' + what)
    same(getattr(c, q), v, q + ' after a failed edit: ' + what)
    same(frozen(c.data), True, 'data stay read-only after a failed edit: ' + what)


def s_edits_first():
    """quantities computed after the failure"""
    what = choose(*EDITS)
    a = arr('a', (4, 2))
    c = Curve(a)
    st, r = failing_edit(c, what)
    if st != 'raise':
        skip()
    q = choose('chordlen', 'tangent', 'cumarclen', 't')
    same(getattr(c, q), getattr(Curve(a), q), q + ' after a failed edit: ' + what)


def s_construction():
    """refused construction leaves the arrays and lists handed in"""
    what = choose('tdata size', 'tdata dim', 'one-dim', 'dtype', 'ndmin', 'point dtype', 'segment dim', 'segment kind', 'point of curve')
    a, t = arr('a', (4, 2)), arr('t', (5,))
    va, vt = value(a), value(t)
    k = mark()
    if what == 'tdata size':
        st, r = outcome(Curve, a, tdata=t)
    elif what == 'tdata dim':
        st, r = outcome(Curve, a, tdata=a)
    elif what == 'one-dim':
        st, r = outcome(Curve, t)
    elif what == 'dtype':
        st, r = outcome(Curve, a, dtype='U3')
    elif what == 'ndmin':
        st, r = outcome(Curve, a, ndmin=1)
    elif what == 'point dtype':
        st, r = outcome(Point, t, dtype='U3')
    elif what == 'point of curve':
        st, r = outcome(Point, a)
    elif what == 'segment dim':
        st, r = outcome(Segment, Point(t), Point(a[0]))
    else:
        st, r = outcome(Segment, Point(t), 5)
    assume(st == 'raise')
    untouched(k, 'construction: ' + what)
    same(a, va, 'array handed in')
    same(t, vt, 'array handed in')
    same(a.flags.writeable, True, 'array handed in stays writeable')
    same(t.flags.writeable, True, 'array handed in stays writeable')


def s_points():
    """refused operations of points and segments"""
    what = choose('index', 'distance', 'metric', 'subtract', 'segment distance', 'segment angle', 'segment collinear', 'segment intersect', 'segment parallel')
    p = point('p', 2)
    s = segment('s', 2)
    vp, v1, v2 = value(p.data), value(s.p1.data), value(s.p2.data)
    k = mark()
    if what == 'index':
        st, r = outcome(lambda: p[5])
    elif what == 'distance':
        st, r = outcome(p.distance, 5)
    elif what == 'metric':
        st, r = outcome(p.distance, Point([0.0, 1.0]), 'no-such-metric')
    elif what == 'subtract':
        st, r = outcome(lambda: p - 'a')
    elif what == 'segment distance':
        st, r = outcome(s.distance, 5)
    elif what == 'segment angle':
        st, r = outcome(s.angle, 5)
    elif what == 'segment collinear':
        st, r = outcome(s.collinear, 5)
    elif what == 'segment intersect':
        st, r = outcome(s.intersect, segment('z', 3))
    else:
        st, r = outcome(s.parallel, 5)
    assume(st == 'raise')
    untouched(k, 'operation: ' + what)
    same(p.data, vp, 'coordinates after a failed operation')
    same(s.p1.data, v1, 'first point after a failed operation')
    same(s.p2.data, v2, 'second point after a failed operation')


class Failing(IntersectionMethodBase):
    """an intersection method that gives up"""
    def __init__(self, depth=3):
        self.depth = depth

    def _intersect_segments(self, segment1, segment2):
        raise ArithmeticError('no')

    def _intersect_curves(self, curve1, curve2):
        raise ArithmeticError('no')


def s_method_fails():
    """a method object that raises"""
    m = Failing()
    c, d = curve('c', n=3, dim=2), curve('d', n=3, dim=2, par=False)
    sg = segment('s')
    s, e = state(c), state(d)
    before = registries()
    x, y = choose((c, d), (c, None), (c, sg), (sg, c), (sg, segment('z')))
    k = mark()
    st, r = outcome(x.intersect, y, method=m)
    same(st, 'raise', 'the failure of the method is reported')
    assume(st == 'raise')
    untouched(k, 'intersection')
    same_registries(before, 'intersection')
    same_state(c, s, 'intersection')
    same_state(d, e, 'intersection')
    same(m.depth, 3, 'option of the method object')
    same(len(attrs(m)), 1, 'attributes of the method object')


class Vain(InterpolatorBase):
    """an interpolator that gives up"""
    def __init__(self, curve, **params):
        super().__init__(curve)
        self.params = params

    def _interpolate(self, grid):
        raise ArithmeticError('no')


def s_interpolator_fails():
    c = curve('c', n=4, dim=2, par='incr')
    s = state(c)
    it = Vain(c, level=2)
    k = mark()
    st, r = outcome(it, 5)
    same(st, 'raise', 'the failure of the interpolator is reported')
    assume(st == 'raise')
    untouched(k, 'interpolation')
    same_state(c, s, 'interpolation')
    same(is_same(it.curve, c), True, 'curve of the interpolator')
    same(it.params, {'level': 2}, 'options of the interpolator')
    st, r = outcome(it, [2.0, 1.0])
    same(st, 'raise', 'an invalid grid is refused')
    same(is_same(it.curve, c), True, 'curve of the interpolator')


def s_interpolator_reuse():
    """an interpolator object asked for an invalid grid interpolates a valid one afterwards"""
    c = Curve(np.array([[0.0, 0.0], [1.0, 2.0], [3.0, 1.0], [4.0, 5.0]]), tdata=np.array([0.0, 1.0, 2.5, 4.0]))
    m = choose('linear', 'cubic', 'hermite')
    it, fresh = get_interpolator(m, c), get_interpolator(m, c)
    st, r = outcome(it, choose([2.0, 1.0], [[0.0, 1.0]], 'ab', None, 1))
    assume(st == 'raise')
    g = np.array([0.0, 0.5, 3.0, 4.0])
    same(it(g).data, fresh(g).data, 'interpolated points after a failure')


class Calls:
    def __init__(self):
        self.n = 0


def s_smoothing_fails():
    """a smoothing method that raises, and its options"""
    def vain(curve, **params):
        raise ArithmeticError('no')
    st, r = outcome(apply, register_smooth_method, vain, 'c40-vain')
    assume(st == 'ok')
    c = curve('c', n=4, dim=2)
    s = state(c)
    opts = {'a': 1, 'b': [1, 2]}
    before = registries()
    k = mark()
    st, r = outcome(lambda: c.smooth('c40-vain', **opts))
    same(st, 'raise', 'the failure of the smoothing is reported')
    assume(st == 'raise')
    untouched(k, 'smoothing')
    same_registries(before, 'smoothing')
    same_state(c, s, 'smoothing')
    same(opts, {'a': 1, 'b': [1, 2]}, 'options handed in')


def s_metric_fails():
    """a metric that raises"""
    def vain(a, b):
        raise ArithmeticError('no')
    p, q = point('p', 2), point('q', 2)
    vp, vq = value(p.data), value(q.data)
    k = mark()
    st, r = outcome(p.distance, q, vain)
    same(st, 'raise', 'the failure of the metric is reported')
    assume(st == 'raise')
    untouched(k, 'distance')
    same(p.data, vp, 'coordinates')
    same(q.data, vq, 'coordinates')
    same(p.distance(q), dist(p.data, q.data), 'a later distance')


def s_filter_fails():
    """a drop checker that raises"""
    def vain(d):
        raise ArithmeticError('no')
    c = curve('c', n=4, dim=2)
    s = state(c)
    k = mark()
    st, r = outcome(c.drop, vain)
    same(st, 'raise', 'the failure of the checker is reported')
    assume(st == 'raise')
    untouched(k, 'drop')
    same_state(c, s, 'drop')
