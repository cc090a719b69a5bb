def s_point_ok():
    dim = choose(0, 1, 2, 3, 5)
    how = choose('array', 'int array', 'list', 'tuple', 'point', 'dtype')
    if how == 'array':
        a = arr('a', (dim,))
        p = Point(a)
    elif how == 'int array':
        a = arr('a', (dim,), 'int64')
        p = Point(a)
        same(p.dtype, np.dtype('float64'), 'default dtype of a point')
    elif how == 'list':
        a = [real('a' + str(k)) for k in range(dim)]
        p = Point(a)
    elif how == 'tuple':
        a = tuple([real('a' + str(k)) for k in range(dim)])
        p = Point(a)
    elif how == 'point':
        a = arr('a', (dim,))
        p = Point(Point(a))
    else:
        a = arr('a', (dim,))
        t = choose('float32', 'int64', 'float64', 'complex128')
        p = Point(a, dtype=t)
        same(p.dtype, np.dtype(t), 'requested dtype of a point')
        if t != 'complex128':
            same(p.data, a.astype(t), 'converted coordinates')
        return
    if dim:
        same(p.data, np.asarray(a), 'coordinates of a point')
    same(p.ndim, dim, 'dimension of a point')
    same(len(p), dim, 'length of a point')
    same(bool(p), dim > 0, 'a point is true if it has coordinates')


def s_point_axes():
    n, m = nat('n', 1), nat('m', 1)
    how = choose('matrix', 'nested', 'column', 'cube')
    if how == 'matrix':
        a = arr('a', (n, m))
    elif how == 'nested':
        a = [[real('x'), real('y')], [real('z'), real('w')]]
    elif how == 'column':
        a = arr('a', (3, 1))
    else:
        a = arr('a', (n, m, 2))
    raises(Point, ValueError, 'point data with more than one axis', a)


def s_point_dtype():
    a = arr('a', (2,))
    raises(Point, ValueError, 'non-numeric dtype of a point', a, dtype=choose('bool', 'object', 'str', bool, object, str))


def s_curve_dtype():
    a = arr('a', (nat('n', 1), 2))
    raises(Curve, ValueError, 'non-numeric dtype of a curve', a, dtype=choose('bool', 'object', 'str', bool, object, str))


def s_curve_dtype_data():
    t = choose('bool', 'object')
    raises(Curve, ValueError, 'data of a non-numeric dtype', arr('a', (nat('n', 1), 2), t))


def s_curve_ndmin():
    n = nat('n', 0)
    k = choose(1, 0, -1)
    raises(Curve, ValueError, 'minimum dimension below 2', arr('a', (n, 2)), ndmin=k)
    raises(Curve, ValueError, 'minimum dimension below 2 without data', [], ndmin=k)


def s_curve_one_dim():
    n = nat('n', 1)
    how = choose('column', 'vector', 'list', 'ndmin')
    if how == 'column':
        raises(Curve, ValueError, 'points of one coordinate', arr('a', (n, 1)))
    elif how == 'vector':
        raises(Curve, ValueError, 'a vector is no curve', arr('a', (n,)))
    elif how == 'list':
        raises(Curve, ValueError, 'one coordinate vector', [arr('a', (n,))])
    else:
        raises(Curve, ValueError, 'points of one coordinate with a minimum dimension', arr('a', (n, 1)), ndmin=2)


def s_tdata_axes():
    n = nat('n', 2)
    a = arr('a', (n, 2))
    how = choose('matrix', 'column', 'scalar')
    t = arr('t', (n, 1)) if how == 'column' else (arr('t', (1, n)) if how == 'matrix' else 1.0)
    raises(Curve, ValueError, 'parameter vector with more than one axis', a, tdata=t)


def s_tdata_size():
    n, k = nat('n', 0), nat('k', 0)
    assume(n != k)
    a = arr('a', (n, choose(2, 3, 4)))
    raises(Curve, ValueError, 'parameter vector of another length', a, tdata=arr('t', (k,)))


def s_tdata_size_one():
    """off by one, and lengths mistaken for the number of coordinates"""
    n = nat('n', 3)
    a = arr('a', (n, 2))
    raises(Curve, ValueError, 'one value too few', a, tdata=arr('t', (n - 1,)))
    raises(Curve, ValueError, 'one value too many', a, tdata=arr('t', (n + 1,)))
    raises(Curve, ValueError, 'as many values as numbers', a, tdata=arr('t', (2 * n,)))
    raises(Curve, ValueError, 'a single value', a, tdata=arr('t', (1,)))
    raises(Curve, ValueError, 'no value', a, tdata=[])


def s_tdata_list_data():
    """coordinate vectors: the parameter vector belongs to the points, not to the vectors"""
    n = nat('n', 3)
    x, y = arr('x', (n,)), arr('y', (n,))
    raises(Curve, ValueError, 'as many values as coordinates', [x, y], tdata=arr('t', (2,)))
    t = arr('t', (n,))
    c = Curve([x, y], tdata=t)
    same(c.t, t, 'one value per point is accepted')


def s_segment_types():
    p = point('p', 2)
    o = choose('list', 'tuple', 'array', 'number', 'none', 'curve')
    if o == 'list':
        o = [1.0, 2.0]
    elif o == 'tuple':
        o = (1.0, 2.0)
    elif o == 'array':
        o = arr('o', (2,))
    elif o == 'number':
        o = 1.0
    elif o == 'none':
        o = None
    else:
        o = curve('c', 2, 2, False)
    raises(Segment, TypeError, 'second end is no point', p, o)
    raises(Segment, TypeError, 'first end is no point', o, p)
    raises(Segment, TypeError, 'both ends are no points', o, o)


def s_segment_dims():
    a, b = choose((2, 3), (3, 2), (1, 2), (2, 1), (1, 3), (4, 3))
    raises(Segment, ValueError, 'ends of different dimensions', point('p', a), point('q', b))
    raises(Segment, ValueError, 'empty first end', Point([]), point('q', b))
    raises(Segment, ValueError, 'empty second end', point('p', a), Point([]))
    t, u = choose('float64', 'int64', 'float32'), choose('float64', 'int64')
    raises(Segment, ValueError, 'empty ends', Point([], dtype=t), Point([], dtype=u))
    raises(Segment, ValueError, 'empty end', point('p', a), Point([], dtype=t))
    raises(Segment, ValueError, 'empty end', Point([], dtype=t), point('p', a))


def s_segment_ok():
    dim = choose(1, 2, 3)
    a, b = arr('a', (dim,)), arr('b', (dim,))
    s = Segment(Point(a), Point(b))
    same(s.data, np.vstack((a, b)), 'segment')
    c = curve('c', 2, 2)
    s = Segment(c[0], c[1])
    same(s.data, c.data[:2], 'segment between curve points')


def s_curve_array():
    n = nat('n', 1)
    dim = choose(2, 3, 5)
    t = choose('float64', 'float32', 'int64')
    a = arr('a', (n, dim), t)
    c = Curve(a)
    same(c.data, a, 'rows of an array are points')
    same(c.dtype, np.dtype(t), 'dtype of an array is kept')
    same(c.size, n, 'number of points')
    same(c.ndim, dim, 'dimension')
    same(len(c), n, 'length')
    same(bool(c), True, 'a curve with points is true')
    u = choose('float64', 'float32', 'int64')
    same(Curve(a, dtype=u).dtype, np.dtype(u), 'requested dtype')


def s_curve_axis():
    n = nat('n', 2)
    a = arr('a', (2, n))
    same(Curve(a, axis=1).data, a.T, 'columns of an array are points on request')
    same(Curve(a, axis=-1).data, a.T, 'negative axis')
    b = arr('b', (n, 3))
    same(Curve(b, axis=0).data, b, 'rows of an array are points on request')
    same(Curve(b, axis=-2).data, b, 'negative axis of rows')


def s_curve_axis_flat():
    """plain vectors are no curves"""
    x = choose([1.0, 2.0, 3.0], (1, 2), arr('v', (3,)), [real('r')])
    a = choose(None, 0, 1, -1, -2, 2)
    raises(Curve, ValueError, 'one-dimensional data', x, axis=a)


def s_curve_axis_bad():
    a = arr('a', (nat('n', 2), 2))
    raises(Curve, ValueError, 'axis out of the data', a, axis=choose(2, 3, -3, -4))


def s_curve_lists():
    n = nat('n', 2)
    x, y, z = arr('x', (n,)), arr('y', (n,)), arr('z', (n,))
    how = choose('two', 'three', 'tuple', 'integers')
    if how == 'two':
        c, want = Curve([x, y]), np.stack((x, y), axis=1)
    elif how == 'three':
        c, want = Curve([x, y, z]), np.stack((x, y, z), axis=1)
    elif how == 'tuple':
        c, want = Curve((x, y)), np.stack((x, y), axis=1)
    else:
        i, j = arr('i', (n,), 'int64'), arr('j', (n,), 'int64')
        c, want = Curve([i, j]), np.stack((i, j), axis=1)
    same(c.data, want, 'coordinate vectors')
    same(c.dtype, np.dtype('float64'), 'default dtype of coordinate vectors')


def s_curve_point_lists():
    """points as rows, on request"""
    a, b, d = arr('a', (2,)), arr('b', (2,)), arr('d', (2,))
    c = Curve([a, b, d], axis=0)
    same(c.data, np.stack((a, b, d), axis=0), 'list of points as rows')
    c = Curve([Point(a), Point(b), Point(d)], axis=0)
    same(c.data, np.stack((a, b, d), axis=0), 'list of point objects as rows')


def s_curve_numbers():
    a = [[real('x0'), real('x1'), real('x2')], [real('y0'), real('y1'), real('y2')]]
    c = Curve(a)
    same(c.data, np.asarray(a).T, 'nested lists of numbers')


def s_curve_cube():
    """an array of more axes is flattened around the point axis"""
    n = nat('n', 2)
    a = arr('a', (n, 2, 2))
    c = Curve(a)
    same(c.size, n, 'points along the first axis')
    same(c.ndim, 4, 'remaining axes are coordinates')


def s_pad():
    n = nat('n', 1)
    dim = choose(2, 3, 4)
    k = choose(2, 3, 4)
    t = choose('float64', 'int64')
    a = arr('a', (n, dim), t)
    c = Curve(a, ndmin=k)
    want = a if k <= dim else np.hstack((a, np.zeros((n, k - dim))))
    same(c.data, want, 'added dimensions are zero')
    same(c.ndim, max(k, dim), 'dimension of a padded curve')
    same(c.dtype, np.dtype(t), 'dtype of a padded curve')


def s_pad_lists():
    n = nat('n', 2)
    x, y = arr('x', (n,)), arr('y', (n,))
    c = Curve([x, y], ndmin=3)
    same(c.data, np.stack((x, y, np.zeros(n)), axis=1), 'padded coordinate vectors')


def s_pad_tdata():
    n = nat('n', 1)
    a, t = arr('a', (n, 2)), incr('t', n)
    c = Curve(a, tdata=t, ndmin=3)
    same(c.t, t, 'padded curve keeps the parameter vector')
    same(c.data[:, 2], np.zeros(n), 'added coordinate is zero')
    same(c.data[:, :2], a, 'given coordinates stay first')


def s_empty():
    how = choose('list', 'tuple', 'array', 'lists')
    k = choose(None, 2, 3)
    if how == 'list':
        d = []
    elif how == 'tuple':
        d = ()
    elif how == 'array':
        d = np.array([])
    else:
        d = [[], []]
    c = Curve(d, ndmin=k)
    same(c.size, 0, 'empty curve')
    same(c.ndim, k or 2, 'dimension of an empty curve')
    same(bool(c), False, 'an empty curve is false')
    same(len(c), 0, 'length of an empty curve')


def s_empty_tdata():
    c = Curve(np.zeros((0, 2)), tdata=[])
    same(c.isparametric, True, 'empty parametric curve')
    raises(Curve, ValueError, 'parameter values without points', np.zeros((0, 2)), tdata=arr('t', (nat('k', 1),)))


def s_tdata_ok():
    n = nat('n', 1)
    a = arr('a', (n, choose(2, 3, 4)))
    how = choose('array', 'int array', 'view')
    if how == 'array':
        t = arr('t', (n,))
    elif how == 'int array':
        t = arr('t', (n,), 'int64')
    else:
        t = arr('t', (n, 2))[:, 1]
    c = Curve(a, tdata=t)
    same(c.t, t, 'parameter vector')
    same(c.isparametric, True, 'parametric')


def s_tdata_list():
    a = arr('a', (3, 2))
    t = [real('t0'), real('t1'), real('t2')]
    same(Curve(a, tdata=t).t, np.asarray(t), 'list of parameter values')
    same(Curve(a, tdata=tuple(t)).t, np.asarray(t), 'tuple of parameter values')


def s_pad_not_finite():
    """coordinates that are not finite do not reach the added dimensions"""
    a = np.array([[np.inf, 1.0], [1.0, np.nan], [-np.inf, np.inf], [0.0, 2.0]])
    c = Curve(a, ndmin=4)
    same(c.data[:, 2:], np.zeros((4, 2)), 'added coordinates are zero')
    same(c.data[:, :2], a, 'given coordinates stay first')
    c = Curve([[np.inf, 1.0], [np.nan, 0.0]], ndmin=3)
    same(c.data[:, 2], np.zeros(2), 'added coordinates are zero')


def s_empty_axis():
    """no data have no axes"""
    e = choose([], (), [[]], np.zeros((0, 2)), np.zeros((0,)))
    c = Curve(e, axis=choose(-2, -1, 0, 1))
    same(c.size, 0, 'a curve without data is empty')
