import operator

HINT = 'near'


def close(a, b):
    if a.dtype.kind == 'i' and b.dtype.kind == 'i':
        return a == b
    return np.isclose(a, b)


def dts():
    return choose('float64', 'int64')


def s_points():
    dim = choose(1, 2, 3)
    t, u = dts(), dts()
    a, b = arr('a', (dim,), t, HINT), arr('b', (dim,), u, HINT)
    p, q = Point(a, dtype=t), Point(b, dtype=u)
    want = bool(np.all(close(a, b)))
    same(bool(p == q), want, 'points are equal exactly if all coordinates are')
    same(bool(p != q), not want, 'inequality is the negation')


def s_points_integer_exact():
    """large integers that differ by one are different"""
    n = nat('n', 10 ** 9)
    a = np.array([n, 0])
    b = np.array([n + 1, 0])
    t = choose('int64', 'uint64', 'uint32', 'int32')
    u = choose(t, 'int64')
    same(Point(a, dtype=t) == Point(b, dtype=u), False, 'large integer points that differ are unequal')
    same(Point(a, dtype=t) == Point(a, dtype=u), True, 'equal integer points')
    c = Curve(np.array([[n, 0], [n + 2, 0], [n + 1, 0]]), dtype=t)
    same(c.index(Point(b, dtype=u)), 2, 'large integer points are found exactly')
    same(c.count(Point(b, dtype=u)), 1, 'large integer points are counted exactly')
    same(bool(Point(np.array([n + 3, 0]), dtype=u) in c), False, 'membership of large integer points is exact')


def s_points_rounding():
    dim = choose(2, 3, 4)
    a = arr('a', (dim,))
    same(Point(a) == Point(a + 1e-12), True, 'coordinates equal within rounding')
    same(Point(a) == Point(a + 1.0), False, 'coordinates that differ')
    same(Point(a) == Point(a), True, 'a point equals itself')


def s_points_close_but_different():
    """coordinates that differ by clearly more than rounding differ, in every float type"""
    dim = choose(2, 3)
    x = nat('x', 1, 1000) * 1.0
    t = choose('float64', 'float32')
    u = choose(t, 'float64')
    k = nat('k', 0, dim - 1)
    a = np.ones(dim) * x
    b = np.array(a)
    b[k] = x * (1 + choose(5e-5, -5e-5, 1e-3))
    p, q = Point(a, dtype=t), Point(b, dtype=u)
    same(p == q, False, 'coordinates that differ by more than rounding')
    same(q == p, False, 'coordinates that differ by more than rounding')
    c = Curve(np.stack((a, b)), dtype=t)
    same(c.count(Point(b, dtype=u)), 1, 'a close but different point is not counted')
    same(c.index(Point(b, dtype=u)), 1, 'a close but different point is not found')
    same(c == Curve(np.stack((b, b)), dtype=u), False, 'curves of close but different points')
    same(Curve(np.stack((a, b)), dtype=t) == Curve(np.stack((a, b)), dtype=t), True, 'curves of equal points')


def s_points_mixed_rounding():
    """an integer point against a float one: within rounding, either way round"""
    n = nat('n', -50, 50)
    p = Point(np.array([n, 3]), dtype='int64')
    q = Point(np.array([n, 3]) + 1e-12)
    same(p == q, True, 'an integer point equals a float one within rounding')
    same(q == p, True, 'a float point equals an integer one within rounding')
    far = Point(np.array([n, 3]) + 0.5)
    same(p == far, False, 'an integer point differs from a float one')
    same(far == p, False, 'a float point differs from an integer one')


def s_one_coordinate():
    dim = choose(2, 3, 4)
    k = choose(0, 1)
    a = arr('a', (dim,))
    b = np.array(a)
    b[k] = a[k] + 0.5
    same(Point(a) == Point(b), False, 'one different coordinate is enough')
    d = arr('d', (nat('n', 2), dim))
    e = np.array(d)
    e[1, k] = d[1, k] + 0.5
    same(Curve(d) == Curve(e), False, 'one different coordinate of a curve is enough')


def s_curve_points():
    c = curve(nmin=1, dim=2, par=False, hint=HINT)
    i = pt(c, 'i')
    x = arr('x', (2,), 'float64', HINT)
    want = bool(np.all(np.isclose(c.data[i], x)))
    same(bool(c[i] == Point(x)), want, 'curve point equals plain point with equal coordinates')
    same(c[i] == c[i], True, 'curve point equals itself')


def s_segments():
    dim = choose(2, 3, 4)
    t = dts()
    a, b, p, q = arr('a', (dim,), t, HINT), arr('b', (dim,), t, HINT), arr('p', (dim,), t, HINT), arr('q', (dim,), t, HINT)
    s = Segment(Point(a, t), Point(b, t))
    r = Segment(Point(p, t), Point(q, t))
    want = bool(np.all(close(a, p))) and bool(np.all(close(b, q)))
    same(bool(s == r), want, 'segments are equal exactly if both ends are')
    same(bool(s != r), not want, 'inequality is the negation')
    if not truth(np.all(close(a, b))):
        same(s == s.reverse(), False, 'a segment differs from its reverse')


def s_segment_dims():
    s = segment('s', 2)
    r = segment('r', 3)
    same(s == r, False, 'segments of different dimensions')
    same(point('p', 2) == point('q', 3), False, 'points of different dimensions')


def s_curves():
    n, m = nat('n', 0), nat('m', 0)
    dim = choose(2, 3, 4)
    t = dts()
    d, e = arr('d', (n, dim), t, HINT), arr('e', (m, dim), t, HINT)
    c, f = Curve(d), Curve(e)
    if truth(n == m):
        same(bool(c == f), bool(np.all(close(d, e))), 'curves of one size are equal exactly if all coordinates are')
    else:
        same(c == f, False, 'curves of different sizes')
        same(c != f, True, 'curves of different sizes are unequal')


def s_curves_prefix():
    c = curve(nmin=2, par=False)
    same(c == c[:1], False, 'a curve differs from its part')
    same(c == Curve(c), True, 'a curve equals its copy')
    same(c == curve('e', 2, 5), False, 'curves of different dimensions')


def s_parametric():
    """the parameter vector does not take part"""
    n = nat('n', 1)
    d = arr('d', (n, 2))
    same(Curve(d, tdata=incr('t', n)) == Curve(d), True, 'equality of curves is about coordinates')


def s_foreign():
    o = choose(1, 1.5, 'a', None, 'list', 'array')
    if o == 'list':
        o = [1.0, 2.0]
    if o == 'array':
        o = {}
    x = choose('point', 'segment', 'curve')
    v = point('p', 2) if x == 'point' else (segment('s', 2) if x == 'segment' else curve('c', 1, 2, False))
    same(v == o, False, x + ' is unequal to an object of another kind')
    same(v != o, True, x + ' differs from an object of another kind')
    same(o == v, False, 'object of another kind is unequal to a ' + x)


def s_kinds():
    p, s, c = point('p', 2), segment('s', 2), curve('c', 1, 2, False)
    same(p == s, False, 'point and segment')
    same(s == p, False, 'segment and point')
    same(p == c, False, 'point and curve')
    same(c == p, False, 'curve and point')
    same(s == c, False, 'segment and curve')
    same(c == s, False, 'curve and segment')


def s_contains_point():
    c = curve(nmin=0, dim=2, par=False, dtype=dts(), hint=HINT)
    t = dts()
    x = arr('x', (2,), t, HINT)
    want = np.any(np.all(close(c.data, x), axis=1))
    same(bool(Point(x, dtype=t) in c), bool(want), 'a point is in the curve exactly if some row equals it')


def s_contains_own():
    c = curve(nmin=1)
    i = pt(c, 'i')
    same(c[i] in c, True, 'curve contains its own point')
    same(Point(c.data[i]) in c, True, 'curve contains a point with the coordinates of a row')
    same(c.count(c[i]) >= 1, True, 'own point is counted')
    same(c.index(c[i]) <= i, True, 'own point is found not behind its index')


def s_contains_foreign():
    c = curve(nmin=1, dim=2, par=False)
    o = choose(1, 1.5, 'a', None, (1.0, 2.0), [1.0, 2.0], 'first', 'array', 'point list')
    if o == 'first':
        o = c.data[0]
    elif o == 'array':
        o = value(c.data)
    elif o == 'point list':
        o = [c[0]]
    same(o in c, False, 'object of another kind is not in a curve')
    same(segment('s', 2) in c, False, 'a segment is not in a curve')
    same(point('q', 3) in c, False, 'point of another dimension')
    same(curve('e', 1, 3, False) in c, False, 'curve of another dimension')


def s_count():
    c = curve(nmin=0, dim=choose(2, 3, 4), par=False, dtype=dts(), hint=HINT)
    x = arr('x', (c.ndim,), c.dtype, HINT)
    want = np.sum(np.all(close(c.data, x), axis=1))
    same(c.count(Point(x, dtype=c.dtype)), want, 'count is the number of equal rows')


def s_index():
    c = curve(nmin=1, dim=2, par=False, dtype=dts(), hint=HINT)
    x = arr('x', (2,), c.dtype, HINT)
    p = Point(x, dtype=c.dtype)
    eq = np.all(close(c.data, x), axis=1)
    if truth(np.any(eq)):
        same(c.index(p), np.flatnonzero(eq)[0], 'index of the first equal row')
    else:
        raises(c.index, ValueError, 'point that is not in the curve', p)


def s_index_interval():
    c = curve(nmin=1, dim=2, par=False, dtype=dts(), hint=HINT)
    n = c.size
    x = arr('x', (2,), c.dtype, HINT)
    p = Point(x, dtype=c.dtype)
    how = choose('start', 'end', 'both', 'negative', 'negative end', 'only negative end', 'zero')
    start, end = None, None
    if how == 'start':
        start = nat('a', 0, 5)
    elif how == 'end':
        end = nat('b', 0, 6)
    elif how == 'both':
        start, end = nat('a', 0, 5), nat('b', 0, 6)
    elif how == 'negative':
        start = -nat('a', 1, 7)
    elif how == 'negative end':
        start, end = 1, -nat('b', 1, 5)
    elif how == 'only negative end':
        end = -nat('b', 1, 5)
    else:
        start, end = 0, nat('b', 0, 6)
    lo, hi = slice(start, end).indices(n)[:2]
    eq = np.all(close(c.data, x), axis=1)
    eq = eq & (np.arange(n) >= lo) & (np.arange(n) < hi)
    if truth(np.any(eq)):
        same(c.index(p, start, end), np.flatnonzero(eq)[0], 'index of the first equal row of the interval, counted from the start of the curve')
    else:
        raises(c.index, ValueError, 'point that is not in the interval', p, start, end)


def s_contains_curve_own():
    c = curve(nmin=3, dim=2, par=False)
    same(c in c, True, 'curve contains itself')
    same(Curve(c) in c, True, 'curve contains its copy')
    same(c[:2] in c, True, 'curve contains its beginning')
    same(c[-2:] in c, True, 'curve contains its end')
    same(c[1:2] in c, True, 'curve contains its inner point as a curve')


def s_contains_curve_last():
    c = curve(n=5, dim=2, par=False)
    i = nat('i', 0, 3)
    same(c[i:i + 2] in c, True, 'curve contains every pair of consecutive points')


def s_contains_curve():
    c = curve('c', dim=2, par=False, n=4, hint=HINT)
    e = curve('e', dim=2, par=False, n=2, hint=HINT)
    d, f = c.data, e.data
    want = np.any(np.array([np.all(np.isclose(d[k:k + 2], f)) for k in range(3)]))
    same(bool(e in c), bool(want), 'a curve contains another exactly if some run of consecutive points equals it')


def s_contains_longer():
    c = curve('c', dim=2, par=False, n=2)
    e = curve('e', dim=2, par=False, n=4)
    same(e in c, False, 'a curve does not contain a longer one')


def s_contains_same_size():
    n = nat('n', 1)
    d, e = arr('d', (n, 2), 'float64', HINT), arr('e', (n, 2), 'float64', HINT)
    same(bool(Curve(d) in Curve(e)), bool(np.all(np.isclose(d, e))), 'curves of one size: containment is equality')


def s_contains_noncontiguous():
    """equal points that are not consecutive do not count"""
    a, b, x = arr('a', (2,)), arr('b', (2,)), arr('x', (2,))
    assume(np.sum((a - b) ** 2) > 0.1)
    assume(np.sum((a - x) ** 2) > 0.1)
    assume(np.sum((b - x) ** 2) > 0.1)
    c = Curve(np.vstack((a, x, b)))
    same(Curve(np.vstack((a, b))) in c, False, 'points with another one between them')
    same(Curve(np.vstack((x, a))) in c, False, 'consecutive points in the other order')
    same(Curve(np.vstack((x, b))) in c, True, 'consecutive points')


def s_contains_every_part():
    n = choose(5, 7)
    kind = choose('float64', 'float32', 'int64', 'uint8')
    rows = [[1, 2], [3, 2], [3, 7], [1, 7], [200, 5], [5, 200], [2, 1]]
    c = Curve(np.array(rows[:n], dtype=kind))
    a = choose(0, 1, 2, 3, 4, 5, 6)
    assume(a < n)
    for b in range(a + 1, n + 1):
        same(c[a:b] in c, True, 'a part of a curve is in the curve')
        same(c.index(c[a]), a, 'index of a point of a curve without equal points')


def s_missing_coordinates():
    n = choose(1, 2, 3)
    c = Curve(arr('u', (n, 2), 'float64', 'nan'))
    x = arr('x', (2,), 'float64', 'nan')
    q = choose('own', 'other')
    p = c[0] if q == 'own' else Point(x)
    want = 0
    first = None
    for i in range(n):
        if truth(c[i] == p):
            want = want + 1
            if first is None:
                first = i
    same(c.count(p), want, 'count is the number of points equal to the point')
    same(p in c, want > 0, 'membership means that some point is equal')
    if first is None:
        raises(c.index, ValueError, 'no point is equal', p)
    else:
        same(c.index(p), first, 'index of the first equal point')


def s_curve_segments():
    """curve segments and plain segments are equal if their ends are equal in order"""
    c = Curve(np.array([[0.0, 1.0], [2.0, 3.0], [0.0, 1.0], [2.0, 3.0]]))
    s = c.segments[0]
    r = Segment(Point([2.0, 3.0]), Point([0.0, 1.0]))
    q = Segment(Point([0.0, 1.0]), Point([2.0, 3.0]))
    for x, y in ((s, r), (r, s), (s, c.segments[1]), (q, c.segments[1]), (q, r), (s, s.reverse())):
        same(x == y, False, 'segments of opposite directions are unequal')
        same(x != y, True, 'segments of opposite directions are unequal')
    for x, y in ((s, q), (q, s), (s, c.segments[2]), (c.segments[1], r), (s.reverse(), r), (s, s)):
        same(x == y, True, 'segments between equal points are equal')
        same(x != y, False, 'segments between equal points are equal')
    t = c.segments[choose(0, 1)]
    w = Segment(point('u', 2), point('v', 2))
    same(t == w, t.p1 == w.p1 and t.p2 == w.p2, 'segments are equal if their ends are')
    same(w == t, t.p1 == w.p1 and t.p2 == w.p2, 'segments are equal if their ends are')


def s_search_literal():
    """every combination of bounds on a small curve"""
    d = np.array([[0.0, 1.0], [2.0, 1.0], [0.0, 1.0], [3.0, 1.0], [2.0, 1.0]])
    c = Curve(d, dtype=dts())
    start = choose(None, 0, 1, 2, 4, 5, 9, -1, -2, -5, -9)
    end = choose(None, 0, 1, 3, 5, 9, -1, -3, -9)
    for row in d[[0, 1, 3]]:
        found = [k for k in range(5)[slice(start, end)] if row[0] == d[k][0]]
        p = Point(row)
        if found:
            same(c.index(p, start, end), found[0], 'first point of the interval')
            same(c.index(p, start=start, end=end), found[0], 'first point of the interval')
        else:
            raises(c.index, ValueError, 'point that is not in the interval', p, start, end)


def s_contains_long():
    """a run of points is found wherever it begins"""
    n, m = 21, choose(1, 2, 5, 9, 17, 20)
    d = np.stack((np.arange(n) * 1.0, (np.arange(n) * 7 % 5) * 1.0), axis=1)
    c = Curve(d, dtype=dts())
    for k in range(n - m + 1):
        same(bool(Curve(d[k:k + m]) in c), True, 'a run of consecutive points is contained')
    same(bool(Curve(d[::-1][:m]) in c), m == 1, 'a reversed run is not contained')
    e = np.array(d[:m])
    e[m - 1] = [99.0, 0.0]
    same(bool(Curve(e) in c), False, 'a run with a foreign last point is not contained')


def s_empty_in_curve():
    """the empty run is a run of every curve of its dimension"""
    e = Curve(np.zeros((0, 2)))
    same(bool(e in curve('c', 0, dim=2)), True, 'the empty curve in a curve')
    same(bool(Curve([]) in e), True, 'the empty curve in the empty curve')
    same(bool(e in curve('d', 1, dim=3)), False, 'the empty curve of another dimension')
