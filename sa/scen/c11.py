def grad(a):
    return np.gradient(a, axis=0, edge_order=2)


def norms(v):
    return np.sqrt(np.sum(v * v, axis=1))


def dims():
    k = choose('float', 'int', 'parametric')
    return {'par': k == 'parametric', 'dtype': 'int64' if k == 'int' else 'float64'}


def s_plane():
    c = curve(nmin=3, dim=2, **dims())
    a, b = c.firstderiv, c.secondderiv
    want = (a[:, 0] * b[:, 1] - a[:, 1] * b[:, 0]) / (a[:, 0] ** 2 + a[:, 1] ** 2) ** 1.5
    same(c.curvature, want, 'signed curvature of a plane curve')


def s_plane_from_coordinates():
    c = curve(nmin=3, dim=2, par=False)
    got = c.curvature
    a = grad(c.data)
    b = grad(a)
    want = (a[:, 0] * b[:, 1] - a[:, 1] * b[:, 0]) / (a[:, 0] ** 2 + a[:, 1] ** 2) ** 1.5
    same(got, want, 'signed curvature from the coordinates')


def s_plane_point():
    c = curve(nmin=3, dim=2, par=False)
    i = pt(c, 'i')
    a, b = c.firstderiv[i], c.secondderiv[i]
    want = (a[0] * b[1] - a[1] * b[0]) / (a[0] ** 2 + a[1] ** 2) ** 1.5
    same(c.curvature[i], want, 'signed curvature at each point')


def s_space():
    c = curve(nmin=3, dim=choose(3, 4), **dims())
    want = norms(grad(c.frenet1)) / c.speed
    same(c.curvature, want, 'curvature of a spatial curve')


def s_space_first():
    c = curve(nmin=3, dim=3, par=False)
    got = c.curvature
    same(got, norms(grad(c.frenet1)) / c.speed, 'curvature asked first')


def s_torsion():
    c = curve(nmin=3, dim=choose(2, 3, 4), **dims())
    want = np.sum(grad(c.frenet2) * c.frenet3, axis=1) / c.speed
    same(c.torsion, want, 'torsion')


def s_torsion_first():
    c = curve(nmin=3, dim=3, par=False)
    got = c.torsion
    same(got, np.sum(grad(c.frenet2) * c.frenet3, axis=1) / c.speed, 'torsion asked first')


def s_torsion_point():
    c = curve(nmin=3, dim=3, par=False)
    i = pt(c, 'i')
    g = grad(c.frenet2)
    same(c.torsion[i], np.sum(g[i] * c.frenet3[i]) / c.speed[i], 'torsion at each point')


def s_shapes():
    c = curve(nmin=3, dim=choose(2, 3, 4))
    same(c.curvature.shape, (c.size,), 'one curvature per point')
    same(c.torsion.shape, (c.size,), 'one torsion per point')


def s_small():
    """curves of one or two points: the same formulas with the gradients of such curves"""
    n = choose(1, 2)
    c = curve(n=n, dim=choose(2, 3, 4), par=False)
    same(len(c.curvature), n, 'one curvature per point')
    if c.ndim == 2:
        a, b = c.firstderiv, c.secondderiv
        same(c.curvature, (a[:, 0] * b[:, 1] - a[:, 1] * b[:, 0]) / (a[:, 0] ** 2 + a[:, 1] ** 2) ** 1.5, 'signed curvature of a short curve')


def s_integer_types():
    """curvature and torsion do not depend on the type of the coordinates"""
    c, f = twins(nmin=3, dim=choose(2, 3, 4))
    q = choose('curvature', 'torsion')
    same(getattr(c, q), getattr(f, q), q + ' of an integer curve')
