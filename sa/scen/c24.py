def seg(dim=None, name='s'):
    if dim is None:
        dim = choose(2, 3, 4)
    a, b = arr(name + 'a', (dim,)), arr(name + 'b', (dim,))
    return Segment(Point(a), Point(b)), a, b


def s_accessors():
    s, a, b = seg()
    same(s.p1.data, a, 'first end point')
    same(s.p2.data, b, 'second end point')
    same(s.data, np.vstack((a, b)), 'data are the end points in order')
    same(s.ndim, len(a), 'dimension')
    same(s.direction.data, b - a, 'direction from the first to the second end point')
    same(s.seglen, dist(a, b), 'length')
    same(s.dot, np.sum(a * b), 'dot product of the end points')
    assume(np.sum((b - a) ** 2) > 0.001)
    same(s.distance(Point(b)), 0.0, 'distance to own end point')


def s_int_accessors():
    dim = choose(2, 3, 4)
    a, b = arr('a', (dim,), 'int64'), arr('b', (dim,), 'int64')
    s = Segment(Point(a, dtype='int64'), Point(b, dtype='int64'))
    same(s.data, np.vstack((a, b)), 'data of an integer segment')
    same(s.direction.data, b - a, 'direction of an integer segment')
    same(s.seglen, dist(a, b), 'length of an integer segment')
    t = real('t')
    same(s.point(t).data, a + (b - a) * t, 'point of an integer segment')


def s_reverse():
    s, a, b = seg()
    r = s.reverse()
    same(classname(r), 'Segment', 'reversed segment is a segment')
    same(r.p1.data, b, 'reversed first end point')
    same(r.p2.data, a, 'reversed second end point')
    same(s.p1.data, a, 'original unchanged')


def s_to_curve():
    s, a, b = seg()
    c = s.to_curve()
    same(classname(c), 'Curve', 'curve')
    same(c.data, np.vstack((a, b)), 'curve of the end points')
    same(c.isparametric, False, 'curve is not parametric')


def s_singular():
    s, a, b = seg()
    same(bool(s.singular), bool(np.all(np.isclose(a, b))), 'singular exactly if the end points are equal')


def s_curve_segment():
    """the segments of a curve have the same geometry"""
    c = curve(nmin=2)
    i = nat('i', 0)
    assume(i < c.size - 1)
    s = c.segments[i]
    a, b = c.data[i], c.data[i + 1]
    same(s.data, np.vstack((a, b)), 'data of a curve segment')
    same(s.direction.data, b - a, 'direction of a curve segment')
    same(s.seglen, dist(a, b), 'length of a curve segment')
    t = real('t')
    same(s.point(t).data, a + t * (b - a), 'point of a curve segment')
    r = s.reverse()
    same(r.p1.data, b, 'reversed curve segment starts at its second point')
    same(r.p2.data, a, 'reversed curve segment ends at its first point')
    same(s.to_curve().data, np.vstack((a, b)), 'curve of a curve segment')


def s_point_scalar():
    s, a, b = seg()
    t = choose('float', 'numpy', 'int', 'zero', 'one')
    if t == 'float':
        t = real('t')
    elif t == 'numpy':
        t = npreal('t')
    elif t == 'int':
        t = nat('t', -5, 5)
    else:
        t = 0.0 if t == 'zero' else 1.0
    p = s.point(t)
    same(isinstance(p, Point), True, 'a point')
    same(p.data, a + t * (b - a), 'p1 + t (p2 - p1)')


def s_point_sequence():
    s, a, b = seg()
    how = choose('array', 'intarray', 'list', 'tuple', 'one')
    if how == 'array':
        n = nat('n', 0)
        t = arr('t', (n,))
    elif how == 'intarray':
        n = nat('n', 0)
        t = arr('t', (n,), 'int64')
    elif how == 'list':
        n = 3
        t = [real('t0'), real('t1'), real('t2')]
    elif how == 'tuple':
        n = 2
        t = (real('t0'), real('t1'))
    else:
        n = 1
        t = [real('t0')]
    ps = s.point(t)
    same(len(ps), n, 'one point per parameter')
    if how == 'array' or how == 'intarray':
        i = nat('i', 0)
        assume(i < n)
        same(ps[i].data, a + t[i] * (b - a), 'p1 + t_i (p2 - p1)')
        same(isinstance(ps[i], Point), True, 'a point')
    else:
        for i in range(n):
            same(ps[i].data, a + t[i] * (b - a), 'p1 + t_i (p2 - p1)')


def s_point_matrix():
    s, a, b = seg(2)
    raises(s.point, ValueError, 'matrix of parameters is refused', arr('t', (nat('n', 1), 2)))


def s_nearest():
    s, a, b = seg()
    x = arr('x', (len(a),))
    d = b - a
    assume(np.sum(d * d) > 0.001)
    q = s.shortest_segment(Point(x))
    t = np.sum((x - a) * d) / np.sum(d * d)
    t = min(max(t, 0.0), 1.0)
    same(q.p1.data, a + t * d, 'nearest point is at the clamped projection')
    same(q.p2.data, x, 'shortest segment ends at the point')
    same(s.distance(Point(x)), dist(a + t * d, x), 'distance to a point')


def s_nearest_cases():
    s, a, b = seg()
    x = arr('x', (len(a),))
    d = b - a
    c1 = np.sum((x - a) * d)
    c2 = np.sum(d * d)
    case = choose('before', 'after', 'inside')
    if case == 'before':
        assume(c1 < -0.01)
        want = a
    elif case == 'after':
        assume(c1 > c2 + 0.01)
        want = b
    else:
        assume(c1 > 0.01)
        assume(c1 < c2 - 0.01)
        want = a + c1 / c2 * d
    same(s.shortest_segment(Point(x)).p1.data, want, 'nearest point, projection ' + case)


def s_nearest_scales():
    """short and long segments away from the origin"""
    r = choose(0.001, 1.0, 64.0, 4096.0)
    a = np.array([1.0, -2.0])
    d = np.array([0.75, 0.5]) * r
    f = np.array([-0.5, 0.75]) * r
    s = Segment(Point(a), Point(a + d))
    for t in (0.125, 0.25, 0.5, 0.75, 0.875):
        same(s.shortest_segment(Point(a + t * d)).p1.data, a + t * d, 'nearest point to a point of the segment')
        same(s.shortest_segment(Point(a + t * d + f)).p1.data, a + t * d, 'nearest point to a point beside the segment')
    for t in (-3.0, -0.25, 0.0):
        same(s.shortest_segment(Point(a + t * d + f)).p1.data, a, 'nearest point to a point before the segment')
    for t in (1.0, 1.25, 3.0):
        same(s.shortest_segment(Point(a + t * d - f)).p1.data, a + d, 'nearest point to a point behind the segment')


def s_nearest_singular():
    dim = choose(2, 3, 4)
    a = arr('a', (dim,))
    x = arr('x', (dim,))
    s = Segment(Point(a), Point(a))
    q = s.shortest_segment(Point(x))
    same(q.p1.data, a, 'nearest point of a singular segment')
    same(q.p2.data, x, 'shortest segment ends at the point')


def s_angle():
    s, a, b = seg()
    r, p, q = seg(len(a), 'r')
    u, v = b - a, q - p
    n = np.sqrt(np.sum(u * u)) * np.sqrt(np.sum(v * v))
    assume(n > 0.001)
    m = mark()
    got = s.angle(r)
    c = np.sum(u * v) / n
    same(got, np.arccos(np.clip(c, -1.0, 1.0)), 'angle is the arccosine of the normalised dot product')
    same(warned(m, UserWarning), False, 'no warning for regular segments')
    same(r.angle(s), got, 'angle does not depend on the order')


def s_angle_parallel():
    """rounding must not take the cosine out of [-1, 1]"""
    s, a, b = seg()
    k = real('k')
    p = arr('p', (len(a),))
    r = Segment(Point(p), Point(p + k * (b - a)))
    n = np.sqrt(np.sum((b - a) ** 2))
    assume(n > 0.1)
    case = choose('co', 'counter')
    if case == 'co':
        assume(k > 0.1)
        same(s.angle(r) < 0.001, True, 'angle of co-directed segments')
    else:
        assume(k < -0.1)
        same(s.angle(r) > 3.14, True, 'angle of counter-directed segments')


def s_angle_ndigits():
    s, a, b = seg(2)
    r, p, q = seg(2, 'r')
    u, v = b - a, q - p
    n = np.sqrt(np.sum(u * u)) * np.sqrt(np.sum(v * v))
    assume(n > 0.001)
    c = np.sum(u * v) / n
    same(s.angle(r, ndigits=2), np.arccos(np.clip(round(c, 2), -1.0, 1.0)), 'angle with rounded cosine')


def s_angle_singular():
    dim = choose(2, 3, 4)
    a = arr('a', (dim,))
    s = Segment(Point(a), Point(a))
    r, p, q = seg(dim, 'r')
    which = choose('first', 'second', 'both')
    m = mark()
    if which == 'first':
        got = s.angle(r)
    elif which == 'second':
        got = r.angle(s)
    else:
        got = s.angle(s)
    same(np.isnan(got), True, 'angle of a singular segment is NaN')
    same(warned(m, UserWarning), True, 'warning for a singular segment')


def s_angle_type():
    s, a, b = seg(2)
    raises(s.angle, TypeError, 'angle to an object that is no segment', choose(Point(a), 1.0, None))


def s_parallel():
    s, a, b = seg()
    r, p, q = seg(len(a), 'r')
    u, v = b - a, q - p
    d = np.sum(u * u) * np.sum(v * v) - np.sum(u * v) ** 2
    tol = real('tol', 'tol')
    assume(tol > 0.0)
    same(bool(s.parallel(r, tol=tol)), bool(d < tol), 'parallel exactly if the Gram determinant is below the tolerance')
    same(bool(s.parallel(r, tol=tol)), bool(r.parallel(s, tol=tol)), 'parallelism does not depend on the order')


def s_parallel_default():
    s, a, b = seg()
    k = real('k')
    p = arr('p', (len(a),))
    r = Segment(Point(p), Point(p + k * (b - a)))
    case = choose('parallel', 'perpendicular')
    if case == 'perpendicular':
        u = b - a
        assume(np.sum(u * u) > 0.1)
        if len(a) == 2:
            v = np.array([-u[1], u[0]])
        else:
            v = np.array([-u[1], u[0]] + [0.0] * (len(a) - 2))
            assume(u[0] ** 2 + u[1] ** 2 > 0.1)
        r = Segment(Point(p), Point(p + v))
        same(bool(s.parallel(r)), False, 'perpendicular segments are not parallel')


def s_t_not_collinear():
    s, a, b = seg(2)
    u = b - a
    assume(np.sum(u * u) > 0.1)
    k = real('k')
    assume(k > 0.1)
    p = Point(a + k * np.array([-u[1], u[0]]))
    m = mark()
    t = s.t(p)
    same(np.isnan(t), True, 'parameter of a point off the line is NaN')
    same(warned(m, UserWarning), True, 'warning for a point off the line')


def s_t_collinear():
    s, a, b = seg(2)
    u = b - a
    assume(np.sum(u * u) > 0.1)
    k = real('k')
    m = mark()
    t = s.t(Point(a + k * u))
    same(t, k, 'parameter of a point on the line')


def s_t_many():
    s, a, b = seg(2)
    u = b - a
    assume(np.sum(u * u) > 0.1)
    k, l = real('k'), real('l')
    assume(l > 0.1)
    on = Point(a + k * u)
    off = Point(a + l * np.array([-u[1], u[0]]))
    on2 = Point(a + l * u)
    order = choose('xoy', 'oxy', 'xyo', 'xo', 'ox', 'o', 'x', 'xoo', 'oxo')
    ps = [{'x': on, 'o': off, 'y': on2}[x] for x in order]
    t = s.t(tuple(ps) if choose(False, True) else ps)
    same(t.shape, (len(order),), 'a sequence of points gives a vector of parameters')
    same(len(t), len(order), 'one parameter per point')
    for i in range(len(order)):
        if order[i] == 'o':
            same(np.isnan(t[i]), True, 'parameter of a point off the line')
        else:
            same(t[i], k if order[i] == 'x' else l, 'parameter of a point on the line')


def s_t_tolerance():
    """the tolerance given decides what is on the line"""
    dim = choose(2, 3)
    o, d, e = [arr(x, (dim,), 'float64', 'exact') for x in ('o', 'd', 'e')]
    assume(np.sum(d * d) > 0.5)
    assume(np.sum(e * e) > 0.5)
    assume(np.sum(d * d) * np.sum(e * e) - np.sum(d * e) ** 2 > 0.05 * np.sum(d * d) * np.sum(e * e))
    s = Segment(Point(o), Point(o + d))
    q = Point(o + 0.5 * d + 1e-7 * e)
    many = choose(False, True)
    if many:
        q = [Point(o), q]
    strict, loose = s.t(q), s.t(q, tol=1e-4)
    if many:
        strict, loose = strict[1], loose[1]
    same(np.isnan(strict), True, 'a point near the line is off it exactly')
    same(np.isnan(loose), False, 'a point near the line is on it with a tolerance')
    tight = s.t(q, 1e-10)
    same(np.isnan(tight[1] if many else tight), True, 'a point near the line is off it with a small tolerance')


def s_point_many_axes():
    s, a, b = seg()
    t = arr('t', choose((2, 2), (1, 3), (0, 2), (2, 1, 2)))
    raises(s.point, ValueError, 'parameters with more than one axis', t)


def s_mixed_types():
    """a segment between an integer and a float point"""
    dim = choose(2, 3)
    n, b = arr('n', (dim,), 'int64'), arr('b', (dim,))
    first = choose(True, False)
    i, f = Point(n, dtype='int64'), Point(b)
    s = Segment(i, f) if first else Segment(f, i)
    p, q = (n * 1.0, b) if first else (b, n * 1.0)
    same(s.direction.data, q - p, 'direction of a segment of mixed types')
    same(s.seglen, dist(p, q), 'length of a segment of mixed types')
    same(s.dot, np.sum(p * q), 'dot product of the end points of mixed types')
    same(s.data, np.vstack((p, q)), 'data of a segment of mixed types')
    t = real('t')
    same(s.point(t).data, p + (q - p) * t, 'point of a segment of mixed types')
    same(s.point([t])[0].data, p + (q - p) * t, 'points of a segment of mixed types')
    same(s.to_curve().data, np.vstack((p, q)), 'curve of a segment of mixed types')
    same(s.reverse().data, np.vstack((q, p)), 'reversed segment of mixed types')
