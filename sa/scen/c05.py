def s_slice():
    c = curve()
    d = value(c.data)
    a = choose(None, 0, 1, -2, 'i')
    b = choose(None, 3, -1, 'j')
    a = nat('a', -3, 6) if a == 'i' else a
    b = nat('b', -3, 6) if b == 'j' else b
    step = choose(None, 2, -1, -2, 3)
    got = c[a:b:step]
    same(typename(got), 'Curve', 'slice is a curve')
    same(got.data, d[a:b:step], 'sliced rows')


def s_slice_one():
    c = curve()
    d = value(c.data)
    same(c[:].data, d, 'full slice')
    same(c[::-1].data, d[::-1], 'reversing slice')
    k = nat('k', 0)
    same(c[:k].data, d[:k], 'first rows')
    same(c[k:].data, d[k:], 'last rows')


def s_indices():
    c = curve(nmin=3)
    d = value(c.data)
    k = nat('k', 1)
    how = choose('array', 'list', 'tuple', 'negative', 'unsorted', 'unsigned', 'short')
    if how == 'array':
        idx = indices('idx', k, c.size)
    elif how == 'list':
        idx = [0, 2, 1]
    elif how == 'tuple':
        idx = (1, 1)
    elif how == 'negative':
        idx = [-1, 0, -2]
    elif how == 'unsigned':
        idx = np.array([2, 0, 1], dtype=choose('uint8', 'uint64'))
    elif how == 'short':
        idx = np.array([1, -1, 0], dtype=choose('int8', 'int16', 'int32'))
    else:
        idx = np.array([2, 0])
    got = c[idx]
    same(typename(got), 'Curve', 'selection is a curve')
    same(got.data, d[np.asarray(idx)], 'selected rows')
    same(got.size, len(idx), 'number of selected rows')


def s_mask():
    c = curve()
    d = value(c.data)
    m = arr('m', (c.size,), 'bool')
    got = c[m]
    same(got.data, d[m], 'rows selected by a mask')


def s_mask_list():
    c = curve(n=3)
    d = value(c.data)
    got = c[[True, False, True]]
    same(got.data, d[[0, 2]], 'rows selected by a list of flags')


def s_point():
    c = curve()
    i = pt(c, 'i')
    same(c[i].data, c.data[i], 'point')
    same(len(c), c.size, 'length')


def s_iterate():
    c = curve(n=3)
    d = c.data
    ps = [p for p in c]
    same(len(ps), 3, 'iteration visits every point')
    for i in range(3):
        same(ps[i].data, d[i], 'iteration order')
    rs = list(reversed(c))
    for i in range(3):
        same(rs[i].data, d[2 - i], 'reversed iteration order')


def s_reverse():
    c = curve(dtype=choose('float64', 'int64'))
    d = value(c.data)
    same(c.reverse().data, d[::-1], 'reversed rows')
    same(c.data, d, 'source unchanged')
    same(c.reverse().reverse().data, d, 'reversed twice')


def s_concat():
    dim = choose(2, 3, 4)
    c, e = curve('c', 0, dim), curve('e', 0, dim)
    d, f = value(c.data), value(e.data)
    got = c + e
    same(typename(got), 'Curve', 'sum is a curve')
    same(got.data, np.vstack((d, f)), 'rows of the first curve, then of the second')
    same(got.size, c.size + e.size, 'size of the sum')


def s_concat_types():
    """no coordinate is rounded to the type of the other curve"""
    dim = choose(2, 3)
    t, u = choose(('int64', 'float64'), ('float64', 'int64'), ('uint8', 'float64'), ('uint8', 'int64'), ('int64', 'uint8'), ('float32', 'float64'))
    c, e = curve('c', 1, dim, dtype=t), curve('e', 1, dim, dtype=u)
    d, f = value(c.data), value(e.data)
    got = c + e
    same(got[:c.size].data.astype('float64'), d.astype('float64'), 'rows of the first curve')
    same(got[c.size:].data.astype('float64'), f.astype('float64'), 'rows of the second curve')
    a, b = Curve(np.array([[1, 2], [3, 4]], dtype=t)), Curve(np.array([[200, 7], [-1 if u == 'int64' else 1, 5]], dtype=u) if u != 'float64' else np.array([[0.5, -2.25], [300.0, 1e-3]]))
    same((a + b).data, np.array([[1, 2], [3, 4]] + ([[200, 7], [-1 if u == 'int64' else 1, 5]] if u != 'float64' else [[0.5, -2.25], [300.0, 1e-3]]), dtype=np.result_type(t, u)), 'literal rows')


def s_concat_add():
    """in-place addition"""
    c, e = curve('c', 1, 2), curve('e', 1, 2)
    d, f = value(c.data), value(e.data)
    r = c
    r += e
    same(r.data, np.vstack((d, f)), 'in-place sum')
    same(c.data, d, 'left operand unchanged')


def s_insert_point():
    c = curve(nmin=1)
    d = value(c.data)
    x = arr('x', (c.ndim,))
    k = choose('zero', 'end', 'middle', 'minus', 'numpy')
    if k == 'zero':
        i = 0
    elif k == 'end':
        i = c.size
    elif k == 'middle':
        i = nat('i', 0)
        assume(i <= c.size)
    elif k == 'numpy':
        i = np.int64(1)
    else:
        i = -1
    got = c.insert(i, Point(x))
    same(typename(got), 'Curve', 'curve')
    same(got.data, np.insert(d, i, x, axis=0), 'point inserted before the index')
    same(got.size, c.size + 1, 'one more point')
    same(c.data, d, 'source unchanged')


def s_insert_rows():
    """row by row"""
    c = curve(nmin=1, par=False)
    d = value(c.data)
    x = arr('x', (c.ndim,))
    i = nat('i', 0)
    assume(i <= c.size)
    got = c.insert(i, Point(x)).data
    same(got[:i], d[:i], 'rows before the index')
    same(got[i], x, 'row at the index')
    same(got[i + 1:], d[i:], 'rows after the index')


def s_insert_curve_point():
    dim = choose(2, 3, 4)
    c, e = curve('c', 1, dim), curve('e', 1, dim)
    d = value(c.data)
    j = pt(e, 'j')
    got = c.insert(0, e[j])
    same(got.data, np.vstack((e.data[j], d)), 'curve point inserted')


def s_insert_curve():
    dim = choose(2, 3, 4)
    c, e = curve('c', 1, dim), curve('e', 1, dim)
    d, f = value(c.data), value(e.data)
    i = nat('i', 0)
    assume(i <= c.size)
    got = c.insert(i, e).data
    same(got[:i], d[:i], 'rows before the index')
    same(got[i:i + e.size], f, 'inserted rows')
    same(got[i + e.size:], d[i:], 'rows after the index')


def s_insert_many():
    """a sub-curve of another curve inserted at several places"""
    c = curve('c', 3, 2, False)
    d = value(c.data)
    f = arr('f', (2, 2))
    got = c.insert([0, 2], Curve(f))
    same(got.data, np.vstack((f[0], d[0], d[1], f[1], d[2:])), 'several insertions')


def s_insert_bad():
    c = curve(nmin=1)
    x = Point(arr('x', (c.ndim,)))
    i = nat('i', 0)
    assume(i > c.size)
    raises(c.insert, IndexError, 'insertion behind the end', i, x)
    raises(c.insert, IndexError, 'insertion before the beginning', -1 - i, x)


def s_append():
    dim = choose(2, 3, 4)
    c = curve('c', 0, dim)
    d = value(c.data)
    what = choose('point', 'curve', 'curvepoint')
    if what == 'point':
        x = arr('x', (dim,))
        got = c.append(Point(x))
        same(got.data, np.vstack((d, x)), 'appended point is last')
    elif what == 'curve':
        e = curve('e', 0, dim)
        got = c.append(e)
        same(got.data, np.vstack((d, e.data)), 'appended rows are last')
    else:
        e = curve('e', 1, dim)
        got = c.append(e[0])
        same(got.data, np.vstack((d, e.data[0])), 'appended curve point is last')
    same(c.data, d, 'source unchanged')


def s_delete():
    c = curve(nmin=3)
    d = value(c.data)
    how = choose('index', 'negative', 'list', 'array', 'slice')
    if how == 'index':
        i = pt(c, 'i')
    elif how == 'negative':
        i = -2
    elif how == 'list':
        i = [0, 2]
    elif how == 'array':
        i = indices('idx', nat('k', 1), c.size)
    else:
        i = slice(1, 3)
    got = c.delete(i)
    same(got.data, np.delete(d, i, axis=0), 'remaining rows')
    same(c.data, d, 'source unchanged')


def s_delete_rows():
    c = curve(nmin=2)
    d = value(c.data)
    i = pt(c, 'i')
    got = c.delete(i).data
    same(got[:i], d[:i], 'rows before the deleted one')
    same(got[i:], d[i + 1:], 'rows after the deleted one')


def s_delete_bad():
    c = curve(nmin=1)
    i = nat('i', 0)
    assume(i >= c.size)
    raises(c.delete, IndexError, 'deletion behind the end', i)


def s_drop():
    c = curve()
    d = value(c.data)
    how = choose('rows', 'matrix', 'column', 'positions')
    if how == 'column':
        m = arr('m', (c.size, 1), 'bool')
        got = c.drop(lambda x: m)
        same(got.data, d[~m[:, 0]], 'points not flagged in a matrix of one column')
    elif how == 'rows':
        m = arr('m', (c.size,), 'bool')
        got = c.drop(lambda x: m)
        same(got.data, d[~m], 'points not flagged')
    elif how == 'matrix':
        m = arr('m', (c.size, c.ndim), 'bool')
        got = c.drop(lambda x: m)
        same(got.data, d[~np.any(m, axis=1)], 'points without a flagged coordinate')
    else:
        idx = indices('idx', nat('k', 1), c.size)
        got = c.drop(lambda x: idx)
        same(got.data, np.delete(d, idx, axis=0), 'points not listed')
    same(c.data, d, 'source unchanged')


def s_drop_arg():
    c = curve()
    f = callable_('isa', lambda x: x > 0.5)
    m = mark()
    got = c.drop(np.isnan)
    same(got.data, c.data[~np.any(np.isnan(c.data), axis=1)], 'points without NaN')
    got = c.drop(lambda x: x[:, 0] > 0.5)
    same(got.data, c.data[~(c.data[:, 0] > 0.5)], 'checker gets the coordinates')
    raises(c.drop, TypeError, 'checker must be callable', 1)
    raises(c.drop, ValueError, 'matrix of numbers is refused', lambda x: x)


def s_unique():
    c = curve(dtype=choose('float64', 'int64'), hint=choose('', 'near'))
    d = value(c.data)
    got = c.unique()
    u, first = np.unique(d, axis=0, return_index=True)
    same(got.data, d[np.sort(first)], 'first occurrences in the original order')
    same(c.data, d, 'source unchanged')


def s_values():
    c = curve()
    d = value(c.data)
    for i in range(c.ndim):
        same(c.values(i), d[:, i], 'coordinate values')
    same(c.values(-1), d[:, -1], 'last coordinate')
    v = list(c.values())
    same(len(v), c.ndim, 'one value vector per dimension')
    for i in range(c.ndim):
        same(v[i], d[:, i], 'coordinate values in order')
    raises(c.values, ValueError, 'axis out of the dimensions', c.ndim)
    raises(c.values, ValueError, 'axis must be an integer', 1.5)


def s_insertdim():
    c = curve(dtype=choose('float64', 'int64'))
    d = value(c.data)
    ax = choose(0, 1, 2)
    how = choose('zeros', 'values', 'scalar')
    if how == 'zeros':
        got = c.insertdim(ax)
        v = np.zeros(c.size, dtype=c.dtype)
    elif how == 'values':
        v = arr('v', (c.size,), c.dtype)
        got = c.insertdim(ax, v)
    else:
        v = 2
        got = c.insertdim(ax, v)
    cols = list(d.T)
    new = v if how != 'scalar' else np.zeros(c.size, dtype=c.dtype) + v
    cols.insert(ax, new)
    same(got.data, np.stack(cols, axis=1), 'dimension inserted at the axis')
    same(got.ndim, c.ndim + 1, 'one more dimension')
    same(c.data, d, 'source unchanged')


def s_appenddim():
    c = curve()
    d = value(c.data)
    v = arr('v', (c.size,))
    same(c.appenddim(v).data, np.hstack((d, v[:, np.newaxis])), 'dimension appended')
    same(c.appenddim().data, np.hstack((d, np.zeros((c.size, 1)))), 'dimension of zeros appended')


def s_insertdim_bad():
    c = curve(par=False)
    raises(c.insertdim, IndexError, 'axis out of bounds', 7)
    raises(c.insertdim, IndexError, 'negative axis out of bounds', -7)


def s_deletedim():
    c = curve(dim=choose(3, 4))
    d = value(c.data)
    ax = choose(0, 1, 2, -1)
    got = c.deletedim(ax)
    same(got.data, np.delete(d, ax, axis=1), 'dimension deleted')
    same(got.ndim, c.ndim - 1, 'one dimension less')
    same(c.data, d, 'source unchanged')
    raises(c.deletedim, IndexError, 'axis out of bounds', 9)


def s_deletedim_plane():
    c = curve(dim=2)
    raises(c.deletedim, ValueError, 'dimensions of a plane curve are kept', choose(0, 1, -1))


def s_coorient():
    """the result is the curve or its reverse, whichever turns positively in the plane"""
    c = curve(nmin=2, dim=choose(2, 3, 4))
    a, b = choose((0, 1), (1, 0), (0, c.ndim - 1), (c.ndim - 1, 0))
    d = value(c.data)
    got = c.coorientplane(a, b) if choose(True, False) else c.coorientplane(axis1=a, axis2=b)
    p, q = d[0], d[-1]
    det = p[a] * q[b] - p[b] * q[a]
    assume(abs(det) > 1e-9 * (abs(p[a] * q[b]) + abs(p[b] * q[a])))
    if det > 0:
        same(got.data, d, 'a curve oriented like the plane is kept')
    else:
        same(got.data, d[::-1], 'a curve oriented against the plane is reversed')


def s_coorient_default():
    c = curve(nmin=2)
    same(c.coorientplane().data, c.coorientplane(0, 1).data, 'the first two axes by default')


def s_coorient_short():
    c = Curve([], ndmin=2) if choose(True, False) else Curve(np.array([[real('x'), real('y')]]))
    got = c.coorientplane()
    same(got.data, c.data, 'nothing to orient')
    same(got.size, c.size, 'size')


def s_subcurve():
    c = curve(nmin=3)
    d = c.data
    i, j = pt(c, 'i'), pt(c, 'j')
    assume(i <= j)
    same(c[i].subcurve(c[j]).data, d[i:j + 1], 'sub-curve with the end point')
    same(c[i].subcurve(c[j], endpoint=False).data, d[i:j], 'sub-curve without the end point')


def s_types():
    c = curve()
    raises(c.insert, TypeError, 'inserted object must be a point or curve', 0, Segment(point('a', c.ndim), point('b', c.ndim)))
    raises(lambda: c['a':], (TypeError, ValueError, IndexError), 'strings do not select')
    raises(lambda: c[None], TypeError, 'None does not select')
    raises(lambda: c[1.5], TypeError, 'a float does not select')
    raises(lambda: c[{}], TypeError, 'a mapping does not select')


def s_bad_selector():
    c = curve(nmin=2)
    raises(lambda: c[np.array([[0, 1]])], IndexError, 'a matrix does not select')
    raises(lambda: c[['a', 'b']], IndexError, 'names do not select')


def s_unique_exact():
    """only exact duplicates are removed"""
    d = np.array([[1e8, 0.0], [1e8 + 1, 0.0], [0.1 + 0.2, 1.0], [0.3, 1.0], [1e-12, 0.0], [0.0, 0.0], [0.3, 1.0]])
    same(Curve(d).unique().data, d[:6], 'points that differ slightly are kept')


def s_not_finite():
    """coordinates that are not finite are data like any other"""
    d = np.array([[np.inf, 1.0], [np.nan, 2.0], [0.0, -np.inf], [3.0, 4.0]])
    c = Curve(d)
    same(c.data, d, 'coordinates are taken as they are')
    same(c.reverse().data, d[::-1], 'reversed')
    same(c[1:3].data, d[1:3], 'slice')
    same((c + c).data, np.vstack((d, d)), 'sum')
    same(c.insert(1, Point([np.nan, np.inf])).data, np.insert(d, 1, [np.nan, np.inf], axis=0), 'insertion')
    same(c.delete(0).data, d[1:], 'deletion')
    same(c.insertdim(1).data, np.insert(d, 1, 0.0, axis=1), 'new dimension')
    same(c.appenddim([1.0, np.nan, 2.0, np.inf]).data[:, 2], np.array([1.0, np.nan, 2.0, np.inf]), 'new dimension with values')
    same(c.drop(lambda x: np.isnan(x)).data, d[[0, 2, 3]], 'dropped')
    same(c.drop(lambda x: ~np.isfinite(x)).data, d[3:], 'dropped')


def s_mask_size():
    """a mask has one flag per point"""
    n = choose(1, 2, 3, 4)
    c = choose(curve(name='c', n=n, dim=2), curve(name='c', n=n, dim=3, par=True))
    m = [[True, False, True, True, False, True][:k] for k in range(1, 7) if k != n]
    m = choose(*m)
    m = np.array(m) if flag('array') else m
    raises(lambda: c[m], IndexError, 'a mask of another size')


def s_mask_none():
    c = curve(name='c', n=3, dim=2)
    got = c[np.array([False, False, False])]
    same(got.size, 0, 'no point is selected')
    same(got.ndim, 2, 'dimension of an empty selection')


def s_unique_large():
    """large integers that differ by one are different points"""
    n = nat('n', 2 ** 60, 2 ** 61)
    c = Curve(np.array([[n, 0], [n + 1, 0], [n, 0], [n + 1, 1]]), dtype='int64')
    same(c.unique().data, np.array([[n, 0], [n + 1, 0], [n + 1, 1]]), 'large integer points that differ are kept')


def s_insertdim_not_finite():
    """a new dimension is zero whatever the coordinates"""
    d = arr('d', (nat('n', 1), 2), 'float64', 'nan')
    c = Curve(d)
    for ax in (0, 1, 2, -1, -2):
        got = c.insertdim(ax)
        same(got.values(ax if ax >= 0 else ax + 2), np.zeros(c.size), 'a new dimension is zero')
    same(c.appenddim().values(2), np.zeros(c.size), 'a new dimension is zero')


def s_drop_one_point():
    """masks of a curve of one point"""
    c = curve('c', n=1)
    d = value(c.data)
    m = choose([True], [False], [[True]], [[False]], [[True] * c.ndim], [[False] * c.ndim])
    got = c.drop(lambda x: m) if choose(True, False) else c.drop(lambda x: np.array(m))
    first = m[0] if isinstance(m[0], bool) else m[0][0]
    same(got.size, 0 if first else 1, 'size of a curve of one point after dropping')
    if not first:
        same(got.data, d, 'the point that is not dropped')
