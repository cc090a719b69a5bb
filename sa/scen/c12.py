from skcurve import DifferentialGeometryWarning as DGW


def norms(v):
    return np.sqrt(np.sum(v * v, axis=1))


SRC = {'frenet1': 'tangent', 'frenet2': 'normal', 'frenet3': 'binormal'}


def s_divisor():
    """numerically zero norms are replaced by one, the others are kept"""
    c = curve(nmin=3, dim=choose(2, 3, 4), par=False, hint=choose('', 'nan'))
    q = choose('frenet1', 'frenet2', 'frenet3')
    v = getattr(c, SRC[q])
    n = norms(v)
    z = np.isclose(n, 0.0)
    k = mark()
    got = getattr(c, q)
    same(got, v / np.where(z, 1.0, n)[:, np.newaxis], q + ' with numerically zero norms replaced by one')
    bad = truth(np.any(z))
    same(warned(k, DGW), bad, 'a warning is issued exactly when some norm of ' + SRC[q] + ' vanishes')
    same(getattr(c, SRC[q]), v, q + ' leaves ' + SRC[q])


def s_only_geometry_warning():
    c = curve(nmin=3, dim=2, par=False)
    k = mark()
    c.frenet1
    for w in warnings_since(k):
        same(issubclass(w, DGW), True, 'only differential geometry warnings')


def s_all_zero():
    """coinciding points: no derivative vanishes into NaN"""
    n = choose(1, 2, 3, 5)
    c = Curve(np.zeros((n, choose(2, 3, 4))))
    for q in ('frenet1', 'frenet2', 'frenet3'):
        k = mark()
        got = getattr(c, q)
        same(got, np.zeros(c.data.shape), q + ' of coinciding points')
        same(warned(k, DGW), True, q + ' of coinciding points warns')


def s_straight():
    """points equally spaced on a line: well defined first, undefined second and third Frenet vectors"""
    c = Curve(np.array([[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [2.0, 0.0, 0.0], [3.0, 0.0, 0.0]]))
    k = mark()
    e = c.frenet1
    same(warned(k, None), False, 'no warning for a regular curve')
    same(e, np.array([[1.0, 0.0, 0.0]] * 4), 'first Frenet vector of a line')
    k = mark()
    same(c.frenet2, np.zeros((4, 3)), 'second Frenet vector of a line')
    same(warned(k, DGW), True, 'second Frenet vectors of a line are not well defined')
    k = mark()
    same(c.frenet3, np.zeros((4, 3)), 'third Frenet vector of a line')
    same(warned(k, DGW), True, 'third Frenet vectors of a line are not well defined')


def s_regular():
    """no warning and no replacement when no norm vanishes"""
    c = curve(nmin=3, dim=2, par=False)
    v = c.tangent
    n = norms(v)
    assume(not np.any(np.isclose(n, 0.0)))
    k = mark()
    got = c.frenet1
    same(warned(k, None), False, 'no warning for a regular curve')
    same(got, v / n[:, np.newaxis], 'first Frenet vector of a regular curve')


def s_point_frame():
    """a curve point reports the safe vectors"""
    c = curve(nmin=3, dim=2, par=False)
    i = pt(c, 'i')
    v = c.tangent
    n = norms(v)
    got = c[i].frenet1
    same(got, (v / np.where(np.isclose(n, 0.0), 1.0, n)[:, np.newaxis])[i], 'first Frenet vector of a point')


def s_two_points():
    c = curve(n=2, dim=choose(2, 3, 4), par=False, dtype=choose('float64', 'int64'))
    d = c.data
    step = d[1] - d[0]
    k = mark()
    got = c.firstderiv
    same(got.shape, d.shape, 'shape of the derivative of two points')
    same(got, np.array([step, step]), 'derivative of two points is their difference')
    same(warned(k, DGW), True, 'a warning for a first-order edge')
    k = mark()
    got = c.secondderiv
    same(got, np.zeros(d.shape), 'second derivative of two points')
    same(warned(k, DGW), True, 'a warning for a first-order edge of the second derivative')
    same(c.thirdderiv, np.zeros(d.shape), 'third derivative of two points')


def s_one_point():
    c = curve(n=1, dim=choose(2, 3, 4), par=choose(False, True))
    for q in ('firstderiv', 'secondderiv', 'thirdderiv'):
        k = mark()
        got = getattr(c, q)
        same(got, np.zeros(c.data.shape), q + ' of one point')
        same(warned(k, DGW), True, q + ' of one point warns')
    same(c.tangent, np.zeros(c.data.shape), 'tangent of one point')
    same(c.speed, np.zeros(1), 'speed of one point')


def s_empty():
    c = Curve(np.zeros((0, choose(2, 3, 4))))
    for q in ('firstderiv', 'secondderiv', 'thirdderiv'):
        same(getattr(c, q).shape, c.data.shape, q + ' of an empty curve')


def s_enough_points():
    """three points are enough"""
    c = curve(nmin=3, dim=choose(2, 3, 4), dtype=choose('float64', 'int64'))
    q = choose('firstderiv', 'secondderiv', 'thirdderiv', 'speed')
    k = mark()
    getattr(c, q)
    same(warned(k, None), False, 'no warning for three points and more')


def s_sources_untouched():
    """computing a quantity leaves the quantities it is derived from"""
    c = curve(nmin=3, dim=choose(2, 3, 4), par=False)
    names = ('data', 'firstderiv', 'secondderiv', 'thirdderiv', 'normal', 'binormal', 'speed')
    last = choose('frenet1', 'frenet2', 'frenet3', 'curvature', 'torsion')
    c.binormal
    before = [value(getattr(c, q)) for q in names]
    getattr(c, last)
    for k in range(len(names)):
        same(getattr(c, names[k]), before[k], last + ' leaves ' + names[k])


def s_nonsingular():
    """zero-length steps and NaN points are dropped, in that order, the others are kept"""
    n = nat('n', 2)
    dim = choose(2, 3, 4)
    c = curve(n=n, dim=dim)
    d = c.data
    fin = ~np.any(np.isnan(d) | np.isinf(d), axis=1)
    assume(np.all(fin))
    step = np.sqrt(np.sum(np.diff(d, axis=0) ** 2, axis=1))
    keep = np.hstack([True, ~np.isclose(step, 0.0)])
    r = c.nonsingular()
    same(r.data, d[keep], 'points of nonsingular')
    if c.isparametric:
        same(r.t, c.t[keep], 'parameters of nonsingular')


def s_nonsingular_empty():
    c = Curve(np.zeros((0, 2)))
    r = c.nonsingular()
    same(r.size, 0, 'nonsingular of an empty curve')


def s_integer_types():
    """points of an integer curve are singular when those of the same floating point curve are"""
    dim = choose(2, 3)
    c, f = twins(n=choose(2, 3, 4), dim=dim, par=False)
    g, h = c.nonsingular(), f.nonsingular()
    same(g.size, h.size, 'number of points')
    same(g.data, h.data, 'points of the nonsingular curve')
    k = mark()
    c.frenet1
    a = warned(k, None)
    k = mark()
    f.frenet1
    same(a, warned(k, None), 'warnings')


def s_missing_coordinates():
    """only norms that are numerically zero are replaced; unknown ones stay unknown"""
    x = choose(float('nan'), float('inf'))
    c = Curve(np.array([[0.0, 0.0], [0.0, 0.0], [0.0, 0.0], [x, 0.0], [1.0, 1.0], [2.0, 3.0]]))
    k = mark()
    f = c.frenet1
    same(warned(k, DGW), True, 'a vanishing direction warns')
    n = norms(c.tangent)
    same(f, c.tangent / np.where(np.isclose(n, 0.0), 1.0, n)[:, np.newaxis], 'first Frenet vectors of a curve with missing coordinates')
