def grad(a):
    return np.gradient(a, axis=0, edge_order=2)


def dots(a, b):
    return np.sum(a * b, axis=1)[:, np.newaxis]


def norms(v):
    return np.sqrt(np.sum(v * v, axis=1))


def unit(v):
    n = norms(v)
    return v / np.where(np.isclose(n, 0.0), 1.0, n)[:, np.newaxis]


def any_curve(nmin=3):
    kind = choose('2d', '3d', '4d', 'int', 'parametric')
    if kind == '2d':
        return curve(nmin=nmin, dim=2, par=False)
    if kind == '3d':
        return curve(nmin=nmin, dim=3, par=False)
    if kind == '4d':
        return curve(nmin=nmin, dim=4, par=False)
    if kind == 'int':
        return curve(nmin=nmin, dim=choose(2, 3, 4), par=False, dtype='int64')
    return curve(nmin=nmin, dim=choose(2, 3, 4), par=True)


def s_derivatives():
    c = any_curve()
    d = c.data
    d1 = grad(d)
    d2 = grad(d1)
    same(c.firstderiv, d1, 'first derivative')
    same(c.secondderiv, d2, 'second derivative')
    same(c.thirdderiv, grad(d2), 'third derivative')
    same(c.tangent, d1, 'tangent')
    same(c.speed, norms(d1), 'speed')


def s_first_asked():
    """each quantity asked on its own, before anything else"""
    c = any_curve()
    d = c.data
    q = choose('secondderiv', 'thirdderiv', 'tangent', 'speed')
    d1 = grad(d)
    got = getattr(c, q)
    if q == 'secondderiv':
        same(got, grad(d1), q)
    elif q == 'thirdderiv':
        same(got, grad(grad(d1)), q)
    elif q == 'tangent':
        same(got, d1, q)
    else:
        same(got, norms(d1), q)


def s_interior():
    c = curve(nmin=3, dim=choose(2, 3, 4), par=False)
    d = c.data
    i = nat('i', 1)
    assume(i < c.size - 1)
    same(c.firstderiv[i], (d[i + 1] - d[i - 1]) / 2.0, 'first derivative is the central difference')
    same(c.firstderiv[0], (-3.0 * d[0] + 4.0 * d[1] - d[2]) / 2.0, 'first derivative at the start is of second order')
    n = c.size
    same(c.firstderiv[n - 1], (3.0 * d[n - 1] - 4.0 * d[n - 2] + d[n - 3]) / 2.0, 'first derivative at the end is of second order')


def s_frenet1():
    c = any_curve()
    same(c.frenet1, unit(c.tangent), 'first Frenet vector')


def s_normal():
    c = any_curve()
    e = c.frenet1
    s = c.secondderiv
    same(c.normal, s - dots(s, e) * e, 'normal')


def s_frenet2():
    c = any_curve()
    same(c.frenet2, unit(c.normal), 'second Frenet vector')


def s_binormal():
    c = any_curve()
    e1, e2, t = c.frenet1, c.frenet2, c.thirdderiv
    same(c.binormal, t - dots(t, e1) * e1 - dots(t, e2) * e2, 'binormal')


def s_frenet3():
    c = any_curve()
    same(c.frenet3, unit(c.binormal), 'third Frenet vector')


def s_chain():
    """from the coordinates, on a fresh curve each"""
    c = curve(nmin=3, dim=choose(2, 3, 4), par=False)
    d1 = grad(c.data)
    e1 = unit(d1)
    q = choose('frenet1', 'normal', 'frenet2')
    got = getattr(c, q)
    if q == 'frenet1':
        same(got, e1, 'first Frenet vector from the coordinates')
        return
    d2 = grad(d1)
    nv = d2 - dots(d2, e1) * e1
    same(got, nv if q == 'normal' else unit(nv), q + ' from the coordinates')


def s_order_of_queries():
    """asking later quantities first gives the same values"""
    c = curve(nmin=3, dim=3, par=False)
    e = Curve(c)
    first = choose('frenet3', 'torsion', 'curvature', 'binormal')
    getattr(c, first)
    for q in ('firstderiv', 'secondderiv', 'thirdderiv', 'tangent', 'speed', 'normal', 'frenet1', 'frenet2', 'binormal'):
        same(getattr(c, q), getattr(e, q), q + ' after ' + first)


def s_selected():
    """quantities of a selection are those of a curve built from the selected points"""
    c = curve(nmin=6, dim=2, par=False)
    s = choose('tail', 'reverse')
    r = c[2:] if s == 'tail' else c.reverse()
    same(r.firstderiv, grad(r.data), 'first derivative of a ' + s)
    same(r.secondderiv, grad(grad(r.data)), 'second derivative of a ' + s)


def s_integer_types():
    """derivatives and Frenet vectors do not depend on the type of the coordinates"""
    c, f = twins(nmin=3, dim=choose(2, 3, 4))
    q = choose('firstderiv', 'secondderiv', 'thirdderiv', 'tangent', 'normal', 'binormal', 'speed', 'frenet1', 'frenet2', 'frenet3')
    same(getattr(c, q), getattr(f, q), q + ' of an integer curve')
