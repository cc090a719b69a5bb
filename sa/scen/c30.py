import copy


def copier():
    return choose(copy.copy, copy.deepcopy)


def s_point():
    dim = choose(0, 1, 2, 3)
    t = choose('float64', 'int64', 'float32')
    a = arr('a', (dim,), t)
    p = Point(a, dtype=t)
    q = copier()(p)
    same(typename(q), 'Point', 'copy of a point is a point')
    same(q.data, a, 'copy of a point has its coordinates')
    same(q.dtype, p.dtype, 'copy of a point has its dtype')
    same(q.ndim, p.ndim, 'copy of a point has its dimension')
    same(is_same(p, q), False, 'copy of a point is another object')


def s_point_of_point():
    a = arr('a', (choose(1, 2, 3),))
    p = Point(a)
    same(Point(p).data, a, 'point of a point')
    c = curve(nmin=1)
    i = pt(c, 'i')
    same(Point(c[i]).data, c.data[i], 'point of a curve point')
    same(typename(Point(c[i])), 'Point', 'point of a curve point is a plain point')


def s_curve_point():
    c = curve(nmin=1)
    i = pt(c, 'i')
    p = c[i]
    q = copier()(p)
    same(typename(q), 'CurvePoint', 'copy of a curve point is a curve point')
    same(q.idx, i, 'copy of a curve point has its index')
    same(is_same(q.curve, c), True, 'copy of a curve point belongs to the same curve')
    same(q.data, c.data[i], 'copy of a curve point has its coordinates')
    same(is_same(p, q), False, 'copy of a curve point is another object')


def s_curve():
    t = choose('float64', 'int64', 'float32')
    c = curve(nmin=1, dim=choose(2, 3, 4), dtype=t)
    q = copier()(c)
    same(typename(q), 'Curve', 'copy of a curve is a curve')
    same(q.data, c.data, 'copy of a curve has its coordinates')
    same(q.dtype, c.dtype, 'copy of a curve has its dtype')
    same(q.ndim, c.ndim, 'copy of a curve has its dimension')
    same(q.size, c.size, 'copy of a curve has its size')
    same(q.isparametric, c.isparametric, 'copy of a curve is parametric if it is')
    same(q.t, c.t, 'copy of a curve has its parameter values')
    same(is_same(c, q), False, 'copy of a curve is another object')
    same(alias(c.data, q.data) and not rootfrozen(q.data), False, 'copy does not share writable memory')


def s_curve_large_dim():
    c = curve(nmin=1, dim=4, par=False)
    q = copier()(c)
    same(q.data, c.data, 'copy of a curve in four dimensions')


def s_empty():
    dim = choose(2, 3, 4)
    n = nat('n', 1)
    t = choose('float64', 'int64')
    full = Curve(arr('d', (n, dim), t))
    how = choose('slice', 'delete', 'mask', 'array', 'index')
    if how == 'slice':
        c = full[:0]
    elif how == 'delete':
        c = Curve(arr('e', (1, dim), t)).delete(0)
    elif how == 'mask':
        c = full[np.zeros(n, dtype=bool)]
    elif how == 'index':
        c = full[np.zeros(0, dtype=int)]
    else:
        c = Curve(np.zeros((0, dim), dtype=t))
    same(c.size, 0, how + ' is empty')
    same(c.ndim, dim, how + ' keeps the dimension')
    same(c.dtype, full.dtype, how + ' keeps the dtype')
    q = choose('copy', 'deepcopy', 'curve', 'reverse', 'concat', 'slice')
    if q == 'copy':
        e = copy.copy(c)
    elif q == 'deepcopy':
        e = copy.deepcopy(c)
    elif q == 'curve':
        e = Curve(c)
    elif q == 'reverse':
        e = c.reverse()
    elif q == 'concat':
        e = c + c
    else:
        e = c[:]
    same(e.size, 0, q + ' of an empty curve is empty')
    same(e.ndim, dim, q + ' of an empty curve keeps the dimension')
    same(e.dtype, c.dtype, q + ' of an empty curve keeps the dtype')
    same((full + c).data, full.data, 'adding an empty curve')
    same((c + full).data, full.data, 'adding to an empty curve')


def s_curve_of_curve():
    t = choose('float64', 'int64', 'float32')
    c = curve(nmin=1, dim=choose(2, 3, 4), dtype=t)
    m = mark()
    q = Curve(c)
    same(warned(m, None), False, 'no warning for a curve of a curve')
    same(q.data, c.data, 'curve of a curve has its coordinates')
    same(q.dtype, c.dtype, 'curve of a curve has its dtype')
    same(q.isparametric, c.isparametric, 'curve of a curve is parametric if it is')
    same(q.t, c.t, 'curve of a curve has its parameter values')


def s_curve_of_curve_tdata():
    c = curve(nmin=1, dim=2)
    u = incr('u', c.size)
    m = mark()
    q = Curve(c, tdata=u)
    same(warned(m, UserWarning), True, 'warning about an ignored parameter vector')
    same(q.isparametric, c.isparametric, 'given parameter vector is ignored')
    same(q.t, c.t, 'parameter values of the source are kept')
    same(q.data, c.data, 'data of the source are kept')


def s_curve_of_curve_axis():
    c = curve(n=choose(2, 3), dim=2)
    ax = choose(0, 1)
    m = mark()
    q = Curve(c, axis=ax)
    same(warned(m, RuntimeWarning), True, 'warning about an ignored axis')
    same(q.data, c.data, 'given axis is ignored')
    same(q.t, c.t, 'parameter values of the source are kept')


def s_curve_of_curve_dtype():
    t = choose('float64', 'int64')
    u = choose('float64', 'float32', 'int64')
    c = curve(nmin=1, dim=2, dtype=t)
    q = Curve(c, dtype=u)
    same(q.dtype, np.dtype(u), 'dtype is overridden')
    same(q.data, c.data.astype(u), 'data are converted')
    same(q.isparametric, c.isparametric, 'conversion keeps the parametrization')
    if c.isparametric:
        same(q.t, c.t, 'conversion keeps the parameter values')


def s_empty_of_empty():
    """a curve from an empty curve keeps its dimension whatever the dtype"""
    dim = choose(2, 3, 4)
    c = Curve(np.zeros((0, dim)), tdata=choose(None, []))
    u = choose('float64', 'float32', 'int64')
    q = choose(Curve(c, dtype=u), Curve(c.data, dtype=u))
    same(q.ndim, dim, 'an empty curve of another dtype keeps the dimension')
    same(q.size, 0, 'an empty curve of another dtype is empty')
    same(q.dtype, np.dtype(u), 'dtype is overridden')
    same(Curve(c, dtype=u).isparametric, c.isparametric, 'conversion keeps the parametrization')
    same(Curve(c, ndmin=2).ndim, dim, 'a smaller minimum dimension changes nothing')
    same(Curve(c, ndmin=5).ndim, 5, 'a minimum dimension adds dimensions')


def s_curve_of_curve_ndmin():
    c = curve(nmin=1, dim=2)
    q = Curve(c, ndmin=3)
    same(q.data, np.hstack((c.data, np.zeros((c.size, 1)))), 'padded curve of a curve')
    same(q.isparametric, c.isparametric, 'padded curve keeps the parametrization')
    same(Curve(curve('e', 1, 3, False), ndmin=2).ndim, 3, 'a larger dimension is kept')


def s_dtype_of_edits():
    t = choose('int64', 'float32', 'float64')
    c = curve(nmin=4, dim=3, dtype=t)
    op = choose('slice', 'list', 'mask', 'reverse', 'concat', 'delete', 'drop', 'unique', 'insertdim', 'appenddim', 'deletedim', 'coorient', 'insert', 'append',
                'subcurve', 'nonsingular', 'curve insert')
    x = Point(arr('x', (3,), t), dtype=t)
    ndim = 3
    if op == 'slice':
        q = c[1:]
    elif op == 'list':
        q = c[[0, 1]]
    elif op == 'mask':
        q = c[arr('m', (c.size,), 'bool')]
    elif op == 'reverse':
        q = c.reverse()
    elif op == 'concat':
        q = c + c
    elif op == 'delete':
        q = c.delete(0)
    elif op == 'drop':
        q = c.drop(lambda d: d[:, 0] > 1)
    elif op == 'unique':
        q = c.unique()
    elif op == 'insertdim':
        q, ndim = c.insertdim(1), 4
    elif op == 'appenddim':
        q, ndim = c.appenddim(), 4
    elif op == 'deletedim':
        q, ndim = c.deletedim(2), 2
    elif op == 'coorient':
        q = c.coorientplane()
    elif op == 'insert':
        q = c.insert(0, x)
    elif op == 'append':
        q = c.append(x)
    elif op == 'curve insert':
        q = c.insert(1, c)
    elif op == 'nonsingular':
        q = c.nonsingular()
    else:
        q = c[0].subcurve(c[2])
    same(q.dtype, np.dtype(t), op + ' keeps the dtype')
    same(q.ndim, ndim, op + ' keeps the dimension')
    same(typename(q), 'Curve', op + ' gives a curve')


def s_coorient_warn():
    c = curve(nmin=3, dim=2)
    m = mark()
    c.coorientplane()
    same(warned(m, None), False, 'co-orienting warns about nothing')


def s_independent():
    """a copy knows nothing of what was asked of the source, and the reverse"""
    c = curve(nmin=3, dim=2, par=False)
    a = c.arclen
    f = c.firstderiv
    q = copier()(c)
    same(q.arclen, a, 'arc length of a copy')
    same(q.firstderiv, f, 'derivative of a copy')
    i = nat('i', 0)
    assume(i < c.size - 1)
    same(is_same(q.segments[i].curve, q), True, 'segments of a copy belong to the copy')
    same(is_same(q[i].curve, q), True, 'points of a copy belong to the copy')


def s_to_curve():
    dim = choose(2, 3, 4)
    s = segment('s', dim)
    same(s.to_curve().ndim, dim, 'curve of a segment has its dimension')


DTYPES = ('int8', 'int16', 'int32', 'uint8', 'uint16', 'uint32', 'uint64', 'float32', 'int64', 'float64')


def s_every_dtype():
    """the dtype of a curve is that of its data and stays it"""
    t = choose(*DTYPES)
    c = Curve(np.array([[1, 2], [3, 4], [7, 1], [3, 2]], dtype=t), tdata=choose(None, [0.0, 1.0, 2.0, 3.0]))
    same(c.dtype, np.dtype(t), 'dtype of a curve of an array')
    u = choose(*DTYPES)
    same(Curve(c, dtype=u).dtype, np.dtype(u), 'dtype is overridden')
    for what, q in (('curve of a curve', Curve(c)), ('copy', copy.copy(c)), ('deep copy', copy.deepcopy(c)), ('slice', c[1:]), ('empty part', c[:0]),
                    ('selection', c[[0, 2]]), ('reversal', c.reverse()), ('unique', c.unique()), ('deletion', c.delete(1)),
                    ('dimension', c.appenddim()), ('sum', c + c), ('part', c[0].subcurve(c[2])), ('nonsingular', c.nonsingular()),
                    ('co-orientation', c.coorientplane()), ('mask', c[np.array([True, False, True, False])]),
                    ('dropping', c.drop(lambda d: d[:, 0] > 5)), ('insertion', c.insert(1, c)), ('appending', c.append(c))):
        same(q.dtype, np.dtype(t), what + ' keeps the dtype')
    p = Point(np.array([1, 2], dtype=t), dtype=t)
    same(p.dtype, np.dtype(t), 'dtype of a point')
    same(choose(copy.copy, copy.deepcopy)(p).dtype, np.dtype(t), 'copy of a point keeps the dtype')
    same(Point(p).dtype, np.dtype('float64'), 'a point has floating point numbers unless told otherwise')
