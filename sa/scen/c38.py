"""points and curves are sequences"""
from skcurve import Axis


def s_point():
    dim = choose(0, 1, 2, 3, 5)
    t = choose('float64', 'int64', 'nan')
    a = arr('a', (dim,), 'float64', 'nan') if t == 'nan' else arr('a', (dim,), t)
    p = Point(a, dtype=a.dtype)
    same(len(p), dim, 'length of a point')
    same(p.ndim, dim, 'dimension of a point')
    same(bool(p), dim > 0, 'truth of a point')
    v = list(p)
    same(len(v), dim, 'one item per coordinate')
    for i in range(dim):
        same(v[i], a[i], 'coordinates in order')
        same(p[i], a[i], 'coordinate by index')
        same(p[i - dim], a[i], 'coordinate by negative index')
    raises(lambda: p[dim], IndexError, 'index out of the dimension')
    raises(lambda: p[-dim - 1], IndexError, 'index out of the dimension')


def s_point_slice():
    dim = choose(3, 4, 5)
    a = arr('a', (dim,))
    p = Point(a)
    sl = choose(slice(0, 2), slice(1, None), slice(None), slice(None, None, -1), slice(-2, None), slice(0, None, 2))
    q = p[sl]
    same(typename(q), 'Point', 'a slice of a point is a point')
    same(q.data, a[sl], 'coordinates of the slice')


def s_point_reversed():
    a = arr('a', (3,))
    v = list(reversed(Point(a)))
    same(len(v), 3, 'reversed coordinates')
    for i in range(3):
        same(v[i], a[2 - i], 'reversed coordinates')


def s_axis():
    same([int(Axis.X), int(Axis.Y), int(Axis.Z)], [0, 1, 2], 'axes')
    c = curve(nmin=1, dim=3)
    p = c[0]
    for k, x in enumerate([Axis.X, Axis.Y, Axis.Z]):
        same(c.values(x), c.data[:, k], 'values along an axis')
        same(p[x], c.data[0, k], 'coordinate along an axis')
    v = list(c.values())
    same(len(v), 3, 'values of all axes')
    for k in range(3):
        same(v[k], c.data[:, k], 'values of all axes in order')
    d = choose(2, 3)
    raises(curve('e', nmin=1, dim=d).values, ValueError, 'axis out of the dimension', d)


def s_curve():
    c = curve(nmin=0, dim=choose(2, 3, 4), dtype=choose('float64', 'int64', 'float32'))
    n = c.data.shape[0]
    same(len(c), n, 'length of a curve')
    same(c.size, n, 'size of a curve')
    same(c.ndim, c.data.shape[1], 'dimension of a curve')
    same(c.dtype, c.data.dtype, 'dtype of a curve')
    same(bool(c), n > 0, 'truth of a curve')


def s_curve_items():
    n = choose(0, 1, 2, 4)
    c = curve(n=n, dim=choose(2, 3))
    v = list(c)
    same(len(v), n, 'one item per point')
    for i in range(n):
        same(typename(v[i]), 'CurvePoint', 'items are curve points')
        same(is_same(v[i].curve, c), True, 'items belong to the curve')
        same(v[i].idx, i, 'items in order')
        same(v[i].data, c.data[i], 'coordinates of the items')
    w = list(reversed(c))
    same(len(w), n, 'one item per point in reverse')
    for i in range(n):
        same(w[i].idx, n - 1 - i, 'items in reverse order')
        same(w[i].data, c.data[n - 1 - i], 'coordinates in reverse order')
    for i, q in enumerate(c):
        same(q.data, c.data[i], 'iteration')


def s_curve_any_item():
    c = curve(nmin=1)
    i = pt(c, 'i')
    same(c[i].data, c.data[i], 'point by index')
    same(c[i - c.size].data, c.data[i], 'point by negative index')
    same(c[i].idx, i, 'index')
    same(c[i - c.size].idx, i, 'index')
    raises(lambda: c[c.size], IndexError, 'index out of the curve')
    raises(lambda: c[-c.size - 1], IndexError, 'index out of the curve')


def s_segments():
    n = choose(0, 1, 2, 4)
    c = curve(n=n, dim=choose(2, 3))
    same(len(c.segments), max(n - 1, 0), 'one segment less than points')
    for i, s in enumerate(c.segments):
        same(typename(s), 'CurveSegment', 'segments of the curve')
        same(is_same(s.curve, c), True, 'segments belong to the curve')
        same(s.idx, i, 'segments in order')
        same(s.p1.data, c.data[i], 'first point of the segment')
        same(s.p2.data, c.data[i + 1], 'second point of the segment')


def s_any_segment():
    c = curve(nmin=2)
    i = nat('i', 0)
    assume(i < c.size - 1)
    s = c.segments[i]
    same(s.idx, i, 'index of the segment')
    same(s.p1.data, c.data[i], 'first point of the segment')
    same(s.p2.data, c.data[i + 1], 'second point of the segment')
    same(s.p1.idx, i, 'index of the first point')
    same(s.p2.idx, i + 1, 'index of the second point')


def s_arrays():
    """points convert to arrays of their coordinates"""
    p = point('p', choose(1, 2, 3))
    same(np.array(p), p.data, 'array of a point')
    same(np.asarray(p.data), p.data, 'array of the coordinates')
    c = curve(n=3, dim=2)
    same(np.array([q.data for q in c]), c.data, 'array of the points of a curve')
    same(np.asarray(c.data), c.data, 'array of a curve')
    same(np.array(c), c.data, 'array of a curve')


def s_unsupported_index():
    c = curve(nmin=1)
    x = choose('a', None, 1.5, (0.5, 'b'))
    st, e = outcome(lambda: c[x])
    same(st, 'raise', 'an index of another kind is refused')
    assume(st == 'raise')
    same(excname(e) in ('TypeError', 'IndexError'), True, 'an index of another kind is refused with TypeError or IndexError')


def s_truth():
    """truth is about the number of items, not their values"""
    x = choose(0.0, np.nan, -1.0)
    same(bool(Point([x, x])), True, 'a point of equal coordinates is true')
    same(bool(Point([x])), True, 'a point of one coordinate is true')
    same(bool(Curve([[x, x], [x, x]])), True, 'a curve of equal points is true')
    same(bool(Curve([[x], [x]])), True, 'a curve of one point is true')
    same(bool(Curve([])), False, 'an empty curve is false')
    same(bool(Curve([], ndmin=3)), False, 'an empty space curve is false')


def s_point_slice_short():
    dim = choose(1, 2, 3)
    a = arr('a', (dim,))
    p = Point(a)
    for i in range(dim):
        q = p[i:i + 1]
        same(len(q), 1, 'a slice of one coordinate has one item')
        same(q[0], a[i], 'the coordinate')
    same(len(p[dim:]), 0, 'an empty slice has no item')
