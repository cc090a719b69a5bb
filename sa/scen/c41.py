"""an option that is left out has its documented default, in every call"""
from skcurve import (get_interpolator, get_intersect_method, default_intersect_method, UniformInterpolationGrid, UniformExtrapolationGrid, PreservedSpeedInterpolationGrid)
from skcurve import curves

EPS = float(np.finfo(np.float64).eps)


def agree(a, b, what):
    """both calls do the same"""
    x, y = outcome(a), outcome(b)
    same(x[0], y[0], what + ': both succeed or both fail')
    assume(x[0] == y[0] == 'ok')
    u, v = x[1], y[1]
    same(typename(u), typename(v), what + ': kind of the result')
    if isinstance(u, (Curve, Point)):
        same(u.data, v.data, what)
        same(u.dtype, v.dtype, what + ': type')
        if isinstance(u, Curve):
            same(u.isparametric, v.isparametric, what + ': parametric or not')
            if u.isparametric and v.isparametric:
                same(u.t, v.t, what + ': parameter values')
    else:
        same(u, v, what)


def repeat(plain, other, full, what):
    """before and after a call with other options"""
    agree(plain, full, what)
    outcome(other)
    agree(plain, full, what + ' after a call with other options')


def s_point_distance():
    p, q = point('p', 3), point('q', 3)
    repeat(lambda: p.distance(q), lambda: p.distance(q, choose('cityblock', 'cosine', 'sqeuclidean')), lambda: p.distance(q, metric='euclidean'), 'distance without a metric is the euclidean one')
    repeat(lambda: p.distance(q, 'minkowski'), lambda: p.distance(q, 'minkowski', p=1), lambda: p.distance(q, 'minkowski', p=2), 'minkowski distance without an order is of order two')
    agree(lambda: p.distance(q, 'cityblock'), lambda: p.distance(q, metric='cityblock'), 'metric by position')


def s_point_type():
    a = arr('a', (3,), choose('float64', 'int64', 'float32'))
    agree(lambda: Point(a), lambda: Point(a, dtype='float64'), 'a point without a type')
    agree(lambda: Point(list(a)), lambda: Point(list(a), dtype=np.float64), 'a point of a list without a type')


def s_curve_type():
    a = arr('a', (3, 2), choose('float64', 'int64', 'float32'))
    agree(lambda: Curve(a), lambda: Curve(a, axis=0, ndmin=2, dtype=a.dtype), 'a curve of an array')
    agree(lambda: Curve([list(x) for x in a]), lambda: Curve([list(x) for x in a], axis=1, ndmin=2, dtype=np.float64), 'a curve of a list')
    agree(lambda: Curve(a), lambda: Curve(a, tdata=None, axis=None, ndmin=None, dtype=None), 'a curve without options')


def s_subcurve():
    c = curve('c', n=5, dim=2)
    i, j = choose(0, 1, 2), choose(2, 3, 4)
    repeat(lambda: c[i].subcurve(c[j]), lambda: c[i].subcurve(c[j], endpoint=False), lambda: c[i].subcurve(c[j], endpoint=True), 'sub-curve without the option has the end point')
    agree(lambda: c[i].subcurve(c[j], False), lambda: c[i].subcurve(c[j], endpoint=False), 'end point by position')


def s_segment():
    dim = choose(2, 3)
    s, r = segment('s', dim), segment('r', dim)
    p = point('p', dim)
    what = choose('t', 'angle', 'parallel', 'collinear', 'coplanar', 'overlap')
    if what == 't':
        agree(lambda: s.t(p), lambda: s.t(p, tol=None), 'parameter of a point without a tolerance')
        agree(lambda: s.t(p, 0.5), lambda: s.t(p, tol=0.5), 'tolerance by position')
    elif what == 'angle':
        repeat(lambda: s.angle(r), lambda: s.angle(r, ndigits=2), lambda: s.angle(r, ndigits=None), 'angle without a number of digits is not rounded')
        agree(lambda: s.angle(r, 2), lambda: s.angle(r, ndigits=2), 'number of digits by position')
    elif what == 'parallel':
        repeat(lambda: s.parallel(r), lambda: s.parallel(r, tol=1.0), lambda: s.parallel(r, tol=EPS), 'parallel without a tolerance')
        agree(lambda: s.parallel(r, 0.5), lambda: s.parallel(r, tol=0.5), 'tolerance by position')
    elif what == 'collinear':
        o = choose(p, r)
        repeat(lambda: s.collinear(o), lambda: s.collinear(o, tol=1.0), lambda: s.collinear(o, tol=None), 'collinear without a tolerance')
        agree(lambda: s.collinear(o, 0.5), lambda: s.collinear(o, tol=0.5), 'tolerance by position')
    elif what == 'coplanar':
        o = choose(p, r)
        repeat(lambda: s.coplanar(o), lambda: s.coplanar(o, tol=1.0), lambda: s.coplanar(o, tol=None), 'coplanar without a tolerance')
        agree(lambda: s.coplanar(o, 0.5), lambda: s.coplanar(o, tol=0.5), 'tolerance by position')
    else:
        repeat(lambda: s.overlap(r), lambda: s.overlap(r, check_collinear=True), lambda: s.overlap(r, check_collinear=False), 'overlap without the check of collinearity')
        agree(lambda: s.overlap(r, True), lambda: s.overlap(r, check_collinear=True), 'check by position')


def s_curve_index():
    c = curve('c', n=4, dim=2)
    p = point('p', 2)
    repeat(lambda: c.index(p), lambda: c.index(p, 1, 3), lambda: c.index(p, start=None, end=None), 'index without an interval')
    agree(lambda: c.index(p, 1), lambda: c.index(p, start=1, end=None), 'index from a start')


def s_coorientplane():
    c = curve('c', n=3, dim=3)
    repeat(lambda: c.coorientplane(), lambda: c.coorientplane(1, 2), lambda: c.coorientplane(axis1=0, axis2=1), 'orientation without axes')
    agree(lambda: c.coorientplane(1), lambda: c.coorientplane(1, 1), 'orientation with one axis')
    agree(lambda: c.coorientplane(axis2=2), lambda: c.coorientplane(0, 2), 'orientation with one axis')


def s_insertdim():
    c = curve('c', n=3, dim=2, dtype=choose('float64', 'int64'))
    z = np.zeros(3, dtype=c.dtype)
    repeat(lambda: c.appenddim(), lambda: c.appenddim(np.array([1.0, 2.0, 3.0])), lambda: c.appenddim(z), 'a dimension without values is zero')
    repeat(lambda: c.insertdim(1), lambda: c.insertdim(1, np.array([1.0, 2.0, 3.0])), lambda: c.insertdim(1, values=z), 'a dimension without values is zero')
    agree(lambda: c.insertdim(0), lambda: c.insertdim(0, None), 'a dimension without values')


def s_grids():
    c = curve('c', n=4, dim=2, par='incr')
    what = choose('uniform', 'extra', 'extra before', 'speed')
    u = UniformInterpolationGrid(6)
    if what == 'uniform':
        repeat(lambda: UniformInterpolationGrid(6)(c), lambda: UniformInterpolationGrid(0.5, kind='length')(c), lambda: UniformInterpolationGrid(6, kind='point')(c), 'uniform grid counts points')
        agree(lambda: UniformInterpolationGrid(6, 'point')(c), lambda: UniformInterpolationGrid(fill=6, kind='point')(c), 'kind by position')
    elif what == 'extra':
        repeat(lambda: UniformExtrapolationGrid(u)(c), lambda: UniformExtrapolationGrid(u, 1, 2)(c), lambda: UniformExtrapolationGrid(u, before=0, after=0, kind='point')(c), 'extrapolation grid adds nothing')
    elif what == 'extra before':
        agree(lambda: UniformExtrapolationGrid(u, 2)(c), lambda: UniformExtrapolationGrid(u, before=2, after=0, kind='point')(c), 'extrapolation grid with points before')
        agree(lambda: UniformExtrapolationGrid(u, after=2)(c), lambda: UniformExtrapolationGrid(u, 0, 2, 'point')(c), 'extrapolation grid with points after')
    else:
        d = curve('d', n=4, dim=2, par=choose(False, 'incr'))
        agree(lambda: PreservedSpeedInterpolationGrid(5)(d), lambda: PreservedSpeedInterpolationGrid(pcount=5, interp_kind='linear')(d), 'speed grid interpolates linearly')


INTERP = {
    'linear': ({'extrapolate': True}, {'extrapolate': False}),
    'cubic': ({'bc_type': 'natural', 'extrapolate': None}, {'bc_type': 'clamped', 'extrapolate': False}),
    'hermite': ({'extrapolate': None}, {'extrapolate': False}),
    'pchip': ({'extrapolate': None}, {'extrapolate': False}),
    'spline': ({'k': 3, 'smooth': 0.0, 'weights': None, 'extrapolate': 0}, {'k': 2, 'smooth': 1.0, 'extrapolate': 1}),
    'csaps': ({'smooth': 1.0, 'weights': None}, {'smooth': 0.5}),
}


def s_interpolation():
    """each option alone and all together"""
    m = choose(*INTERP)
    full, other = INTERP[m]
    c = curve('c', n=6, dim=2, par='incr')
    g = np.array([0.0, 0.5, 1.5, 3.0])
    agree(lambda: c.interpolate(g, m), lambda: c.interpolate(g, method=m, **full), m + ' interpolation without options')
    outcome(lambda: c.interpolate(g, m, **other))
    agree(lambda: c.interpolate(g, m), lambda: c.interpolate(g, m, **full), m + ' interpolation without options after a call with other ones')
    for k in full:
        agree(lambda: c.interpolate(g, m), lambda: c.interpolate(g, m, **{k: full[k]}), m + ' interpolation with the default of ' + k)


def s_interpolation_one_option():
    """an option given alone leaves the others at their defaults"""
    m = choose(*INTERP)
    full, other = INTERP[m]
    c = curve('c', n=6, dim=2, par='incr')
    g = np.array([0.0, 0.5, 1.5, 3.0])
    for k in other:
        a = dict(full)
        a[k] = other[k]
        agree(lambda: c.interpolate(g, m, **{k: other[k]}), lambda: c.interpolate(g, m, **a), m + ' interpolation with ' + k)


def s_interpolator_object():
    m = choose(*INTERP)
    full, other = INTERP[m]
    c = curve('c', n=6, dim=2, par='incr')
    g = np.array([0.0, 0.5, 1.5, 3.0])
    a, o, b = get_interpolator(m, c), outcome(get_interpolator, m, c, **other), get_interpolator(m, c, **full)
    agree(lambda: a(g), lambda: b(g), m + ' interpolator without options')


def s_smoothing():
    c = curve('c', n=7, dim=2)
    what = choose('savgol', 'window')
    if what == 'savgol':
        full, other, base = {'deriv': 0, 'delta': 1.0, 'mode': 'interp', 'cval': 0.0}, {'deriv': 1, 'delta': 2.0, 'mode': 'constant', 'cval': 3.0}, {'window_length': 5, 'polyorder': 2}
    else:
        full, other, base = {'window_type': 'hann', 'mode': 'reflect', 'cval': 0.0}, {'window_type': 'hamming', 'mode': 'constant', 'cval': 3.0}, {'window_size': 5}
    agree(lambda: c.smooth(what, **base), lambda: c.smooth(what, **base, **full), what + ' smoothing without options')
    outcome(lambda: c.smooth(what, **base, **other))
    agree(lambda: c.smooth(what, **base), lambda: c.smooth(what, **base, **full), what + ' smoothing without options after a call with other ones')
    for k in full:
        a = dict(full)
        a[k] = other[k]
        agree(lambda: c.smooth(what, **base, **{k: other[k]}), lambda: c.smooth(what, **base, **a), what + ' smoothing with ' + k)


def found(r):
    """what an intersection of segments reports"""
    return (bool(r), r.intersect_type, r.intersect_point.data if r.intersect_point is not None else None)


def agree_found(a, b, what):
    x, y = outcome(a), outcome(b)
    same(x[0], y[0], what + ': both succeed or both fail')
    assume(x[0] == y[0] == 'ok')
    u, v = x[1], y[1]
    same(bool(u), bool(v), what + ': intersected')
    assume(bool(u) == bool(v))
    same(u.intersect_type is v.intersect_type, True, what + ': type')
    assume(u.intersect_type is v.intersect_type)
    if u:
        same(u.intersect_point.data, v.intersect_point.data, what + ': point')


def s_segments_method():
    """without a method: the exact one"""
    s, r = segment('s', 2), segment('r', 2)
    agree_found(lambda: s.intersect(r), lambda: s.intersect(r, method='exact'), 'intersection without a method')
    outcome(lambda: s.intersect(r, method='almost'))
    agree_found(lambda: s.intersect(r), lambda: s.intersect(r, method=None), 'intersection without a method after a call with one')
    same(default_intersect_method(), 'exact', 'default method')


def s_segments_options():
    m = choose('exact', 'almost')
    full, other = ({'feps': EPS}, {'feps': 0.5}) if m == 'exact' else ({'dist_tol': 1e-5, 'remove_extra': False, 'extra_tol': 1e-3, 'correct_overlap': False, 'parallel_tol': EPS},
                                                                      {'dist_tol': 0.5, 'extra_tol': 0.5, 'parallel_tol': 0.5})
    s, r = segment('s', 2), segment('r', 2)
    agree_found(lambda: s.intersect(r, m), lambda: s.intersect(r, m, **full), m + ' intersection without options')
    outcome(lambda: s.intersect(r, m, **other))
    agree_found(lambda: s.intersect(r, m), lambda: s.intersect(r, m, **full), m + ' intersection without options after a call with other ones')


def s_segments_objects():
    m = choose('exact', 'almost')
    full, other = ({'feps': EPS}, {'feps': 0.5}) if m == 'exact' else ({'dist_tol': 1e-5, 'parallel_tol': EPS}, {'dist_tol': 0.5, 'parallel_tol': 0.5})
    s, r = segment('s', 2), segment('r', 2)
    o = get_intersect_method(m)
    outcome(get_intersect_method, m, **other)
    agree_found(lambda: s.intersect(r, o), lambda: s.intersect(r, get_intersect_method(m, **full)), m + ' method object without options')


def agree_list(a, b, what):
    x, y = outcome(a), outcome(b)
    same(x[0], y[0], what + ': both succeed or both fail')
    assume(x[0] == y[0] == 'ok')
    same(len(x[1]), len(y[1]), what + ': number of intersections')
    assume(len(x[1]) == len(y[1]))
    for u, v in zip(x[1], y[1]):
        same(u.intersect_type is v.intersect_type, True, what + ': type')
        same(u.intersect_point.data, v.intersect_point.data, what + ': point')


def s_curves_options():
    """given curves that touch twice or once, depending on the tolerance"""
    gap = choose(0.5e-6, 0.5e-5, 2e-5, 1e-3)
    c = Curve(np.array([[0.0, 0.0], [1.0, 0.0], [1.0, 1.0]]))
    d = Curve(np.array([[1.0 - gap, -1.0], [1.0 - gap, 2.0]]))
    concretise()
    full = {'dist_tol': 1e-5, 'remove_extra': False, 'extra_tol': 1e-3, 'correct_overlap': False, 'parallel_tol': EPS}
    agree_list(lambda: c.intersect(d, 'almost'), lambda: c.intersect(d, 'almost', **full), 'almost intersection of curves without options')


def s_curves_options_later():
    gap = choose(0.5e-5, 2e-5, 1e-3)
    c = Curve(np.array([[0.0, 0.0], [1.0, 0.0]]))
    d = Curve(np.array([[0.5, gap], [0.5, 1.0]]))
    concretise()
    outcome(lambda: c.intersect(d, 'almost', dist_tol=0.5, extra_tol=0.5, correct_overlap=True, parallel_tol=0.5))
    st, r = outcome(c.intersect, d, 'almost')
    same(st, 'ok', 'almost intersection')
    assume(st == 'ok')
    same(len(r), 1 if gap < 1e-5 else 0, 'almost intersection of curves at a distance of ' + str(gap) + ' after a call with other options')


def s_extra_tolerance():
    gap = choose(0.0, 0.9e-3, 1.1e-3, 3e-3, 0.1)
    c = Curve(np.array([[0.0, 0.0], [1.0, 0.0], [1.0, 1.0]]))
    d = Curve(np.array([[1.0 - gap, 0.0], [1.0 - gap, 2.0]]))
    concretise()
    q = c.intersect(d, 'almost', dist_tol=0.2)
    same(len(q), 2, 'nothing is removed without being asked for')
    r = c.intersect(d, 'almost', dist_tol=0.2, remove_extra=True)
    same(len(r), 1 if gap / 2 < 1e-3 else 2, 'intersection points at a distance of about ' + str(gap / 2))


def s_extra_tolerance_later():
    gap = choose(3e-3, 0.1)
    c = Curve(np.array([[0.0, 0.0], [1.0, 0.0], [1.0, 1.0]]))
    d = Curve(np.array([[1.0 - gap, 0.0], [1.0 - gap, 2.0]]))
    outcome(get_intersect_method, 'almost', remove_extra=True, extra_tol=0.5)
    concretise()
    r = c.intersect(d, 'almost', dist_tol=0.2, remove_extra=True)
    same(len(r), 2, 'intersection points at a distance of about ' + str(gap / 2) + ' after other options')


def s_distance_tolerance():
    gap = choose(0.5e-6, 0.9e-5, 1.1e-5, 1e-4, 1e-3)
    s = Segment(Point([0.0, 0.0]), Point([1.0, 0.0]))
    r = Segment(Point([0.5, gap]), Point([0.5, 1.0]))
    if choose(True, False):
        outcome(lambda: s.intersect(r, 'almost', dist_tol=0.5))
        outcome(lambda: get_intersect_method('almost', dist_tol=0.5))
    same(bool(s.intersect(r, 'almost')), gap < 1e-5, 'almost intersection at a distance of ' + str(gap))
    same(bool(s.intersect(r, 'almost', dist_tol=1e-5)), gap < 1e-5, 'almost intersection at a distance of ' + str(gap))
    same(bool(s.intersect(r, get_intersect_method('almost'))), gap < 1e-5, 'almost method object at a distance of ' + str(gap))


def s_parallel_tolerance():
    """nearly parallel segments"""
    e = choose(1e-3, 1e-5, 1e-6, 1e-7, 1e-9)
    s = Segment(Point([0.0, 0.0]), Point([1.0, 0.0]))
    r = Segment(Point([0.0, 0.0]), Point([1.0, e]))
    if choose(True, False):
        outcome(lambda: s.parallel(r, tol=0.5))
        outcome(lambda: s.intersect(r, 'almost', correct_overlap=True, parallel_tol=0.5))
    same(bool(s.parallel(r)), e < 1e-8, 'parallel segments with a slope of ' + str(e))
    same(bool(s.parallel(r, EPS)), e < 1e-8, 'parallel segments with a slope of ' + str(e))
    q = s.intersect(r, 'almost', correct_overlap=True)
    p = s.intersect(r, 'almost', correct_overlap=True, parallel_tol=EPS)
    same(q.intersect_type is p.intersect_type, True, 'correction of overlaps for a slope of ' + str(e))


def s_angle_digits():
    s = Segment(Point([0.0, 0.0]), Point([1.0, 0.0]))
    r = Segment(Point([0.0, 0.0]), Point([3.0, 1.0]))
    outcome(lambda: s.angle(r, ndigits=1))
    agree(lambda: s.angle(r), lambda: s.angle(r, ndigits=None), 'an angle without a number of digits is not rounded')


def s_curves_method():
    c = Curve(np.array([[0.0, 0.0], [2.0, 2.0]]))
    d = Curve(np.array([[0.0, 2.0], [2.0, choose(0.0, 1.5, 3.0)]]))
    concretise()
    agree_list(lambda: c.intersect(d), lambda: c.intersect(d, method='exact'), 'intersection of curves without a method')


def s_self_intersection():
    c = Curve(np.array([[0.0, 0.0], [2.0, 2.0], [2.0, 0.0], [0.0, 2.0]]))
    concretise()
    agree_list(lambda: c.intersect(), lambda: c.intersect(other=None, method='exact'), 'self-intersection without a method')
    same(len(c.intersect()), 1, 'self-intersection without arguments')


SHAPES = {
    'arc': {'t_start': 0.0, 't_stop': np.pi * 2, 'p_count': 49, 'r': 1.0, 'c': 0.0},
    'lemniscate_of_bernoulli': {'t_start': 0.0, 't_stop': np.pi * 2, 'p_count': 101, 'c': 1.0},
    'archimedean_spiral': {'t_start': 0.0, 't_stop': 5 * np.pi, 'p_count': 200, 'a': 1.5, 'b': -2.4},
    'euler_spiral': {'t_start': -3 * np.pi / 2, 't_stop': 3 * np.pi / 2, 'p_count': 1000},
    'lissajous': {'t_start': 0.0, 't_stop': 2 * np.pi, 'p_count': 101, 'a_ampl': 1.0, 'b_ampl': 1.0, 'a': 3.0, 'b': 2.0, 'd': 0.0},
    'helix': {'t_start': -3 * np.pi, 't_stop': 3 * np.pi, 'p_count': 100, 'a': 1.0, 'b': 1.0},
    'irregular_helix': {'t_start': -4 * np.pi, 't_stop': 4 * np.pi, 'z_start': -2.0, 'z_stop': 2.0, 'p_count': 100},
}


def s_shapes():
    n = choose(*SHAPES)
    f, full = getattr(curves, n), SHAPES[n]
    agree(lambda: f(), lambda: f(**full), n + ' without arguments')
    outcome(lambda: f(p_count=5))
    agree(lambda: f(), lambda: f(*full.values()), n + ' without arguments, after another call')
    for k in full:
        a = dict(full)
        a[k] = full[k] + 3 if k == 'p_count' else full[k] + 0.25
        agree(lambda: f(**{k: a[k]}), lambda: f(**a), n + ' with ' + k)
