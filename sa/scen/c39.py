"""what a nonsingular curve keeps and drops"""
NAN, INFTY = float('nan'), float('inf')


def finite_rows(d):
    return ~np.any(np.isnan(d) | np.isinf(d), axis=1)


def steps(d):
    return np.sqrt(np.sum(np.diff(d, axis=0) ** 2, axis=1))


def expected(d):
    """rows kept, in order"""
    f = d[finite_rows(d)]
    if f.shape[0] == 0:
        return f
    return f[np.hstack([True, ~np.isclose(steps(f), 0.0)])]


def s_finite():
    """finite points: a point stays exactly when its step does not vanish numerically"""
    c = curve(nmin=2, dim=choose(2, 3, 4))
    d = c.data
    assume(np.all(finite_rows(d)))
    keep = np.hstack([True, ~np.isclose(steps(d), 0.0)])
    r = c.nonsingular()
    same(r.data, d[keep], 'points kept')
    same(r.isparametric, c.isparametric, 'kind of the curve')
    if c.isparametric:
        same(r.t, c.t[keep], 'parameter values kept')


def s_any():
    """points with missing coordinates go first, their neighbours then become adjacent"""
    c = curve(nmin=2, dim=choose(2, 3), hint=choose('', 'nan'))
    d = c.data
    fin = finite_rows(d)
    f = d[fin]
    assume(np.any(fin))
    keep = np.hstack([True, ~np.isclose(steps(f), 0.0)])
    r = c.nonsingular()
    same(r.data, f[keep], 'points kept')
    if c.isparametric:
        same(r.t, c.t[fin][keep], 'parameter values kept')


def s_regular():
    """an unproblematic curve stays as it is"""
    c = curve(nmin=2, dim=choose(2, 3), dtype=choose('float64', 'int64', 'float32'))
    d = c.data
    assume(np.all(finite_rows(d)))
    assume(not np.any(np.isclose(steps(np.asarray(d, dtype=np.float64)), 0.0)))
    r = c.nonsingular()
    same(r.data, d, 'points of a curve without singularities')
    same(r.dtype, c.dtype, 'type of the coordinates')
    same(r.isparametric, c.isparametric, 'kind of the curve')
    if c.isparametric:
        same(r.t, c.t, 'parameter values of a curve without singularities')


def s_source():
    """the source stays as it was"""
    c = curve(nmin=1, dim=choose(2, 3), hint=choose('', 'nan'))
    d, t = value(c.data), value(c.t) if c.isparametric else None
    r = c.nonsingular()
    same(is_same(r, c), False, 'a new curve')
    same(c.data, d, 'points of the source')
    same(c.data.shape, d.shape, 'number of points of the source')
    if t is not None:
        same(c.t, t, 'parameter values of the source')


X = 2.5
CASES = [
    ([[NAN, 0], [1, 1], [2, 2]], [1, 2]),
    ([[0, INFTY], [1, 1], [2, 2]], [1, 2]),
    ([[1, 1], [-INFTY, 0], [2, 2]], [0, 2]),
    ([[1, 1], [NAN, INFTY], [2, 2]], [0, 2]),
    ([[1, 1], [0, NAN], [1, 1], [2, 2]], [0, 3]),
    ([[1, 1], [INFTY, NAN], [NAN, 0], [1, 1], [1, 1], [2, 2]], [0, 5]),
    ([[1, 1], [2, 2], [NAN, NAN]], [0, 1]),
    ([[1, 1], [2, 2], [3, INFTY]], [0, 1]),
    ([[NAN, 1], [NAN, 2]], []),
    ([[INFTY, 1], [1, -INFTY], [NAN, 2]], []),
    ([[NAN, 1], [3, 4]], [1]),
    ([[3, 4], [NAN, 1], [3, 4]], [0]),
    ([[3, 4]], [0]),
    ([[0, 0], [0, 0], [0, 0]], [0]),
    ([[0, 0], [1, 0], [0, 0], [1, 0]], [0, 1, 2, 3]),
    ([[1, 2], [1, 2], [3, 4], [3, 4], [1, 2]], [0, 2, 4]),
    ([[0, 0], [0, 1e-3], [0, 0]], [0, 1, 2]),
    ([[0, 0], [1e-6, 0], [2e-6, 0]], [0, 1, 2]),
    ([[0, 0], [1e-9, 0], [5, 0], [5, 1e-10]], [0, 2]),
    ([[4, 4], [4, 4 + 1e-7], [4, 4]], [0, 1, 2]),
    ([[-1, -1], [1, 1], [-1, -1]], [0, 1, 2]),
    ([[X, -X], [-X, X], [X, -X]], [0, 1, 2]),
    ([[1, -1], [2, -2], [3, -3]], [0, 1, 2]),
    ([[0, 5], [0, 6], [0, 7]], [0, 1, 2]),
    ([[5, 0], [6, 0], [7, 0]], [0, 1, 2]),
    ([[1e9, 0], [1e9, 1], [1e9, 2]], [0, 1, 2]),
]


def s_cases():
    """given points: kept in order with their parameter values, the first finite one among them"""
    rows, kept = choose(*CASES)
    pad = choose(0, 1, 2)
    a = np.array([[float(x) for x in r] + [7.0] * pad for r in rows])
    n = len(rows)
    if choose(True, False):
        t = incr('t', n)
        c = Curve(a, tdata=t)
    else:
        t = None
        c = Curve(a)
    r = c.nonsingular()
    same(r.size, len(kept), 'number of points kept of ' + str(rows))
    assume(r.size == len(kept))
    for k, i in enumerate(kept):
        same(r.data[k], a[i], 'point kept of ' + str(rows))
        if t is not None:
            same(r.t[k], t[i], 'parameter value kept of ' + str(rows))
    if t is not None and kept:
        same(r.isparametric, True, 'kind of the curve')
        same(len(r.t), len(kept), 'number of parameter values')
    same(c.size, n, 'size of the source')


def s_one_bad_coordinate():
    """one missing coordinate is enough, whichever it is"""
    dim = choose(2, 3, 4)
    j = choose(0, 1, 2, 3)
    assume(j < dim)
    i = choose(0, 1, 2, 3)
    bad = choose(NAN, INFTY, -INFTY)
    a = np.array([[float(10 * r + k * k) for k in range(dim)] for r in range(4)])
    a[i, j] = bad
    r = Curve(a).nonsingular()
    rest = [k for k in range(4) if k != i]
    same(r.size, 3, 'number of points without the bad one')
    assume(r.size == 3)
    same(r.data, a[np.array(rest)], 'the other points')


def s_mixed_signs():
    """finite means finite, whatever the other coordinates are"""
    a = choose([[INFTY, -INFTY], [1, 1], [2, 3]], [[1, 1], [-INFTY, INFTY], [2, 3]], [[1, 1], [2, 3], [NAN, -INFTY]], [[1, 1], [INFTY, INFTY], [2, 3]])
    r = Curve(np.array([[float(x) for x in q] for q in a])).nonsingular()
    same(r.size, 2, 'number of finite points')
    assume(r.size == 2)
    same(r.data, np.array([[1.0, 1.0], [2.0, 3.0]]), 'finite points')


def s_integer():
    """integer coordinates of every width"""
    ty = choose('int64', 'int32', 'int16', 'int8', 'uint8')
    rows, kept = choose(([[0, 0], [0, 0], [1, 0]], [0, 2]), ([[1, 2], [3, 4], [3, 4]], [0, 1]), ([[5, 1], [4, 0], [3, 0]], [0, 1, 2]), ([[100, 0], [0, 100], [100, 0]], [0, 1, 2]),
                        ([[16, 0], [0, 0], [16, 0], [16, 0]], [0, 1, 2]))
    a = np.array(rows, dtype=ty)
    r = Curve(a, dtype=a.dtype).nonsingular()
    same(r.size, len(kept), 'number of points kept')
    assume(r.size == len(kept))
    same(r.data, a[np.array(kept)], 'points kept')
    same(r.dtype, a.dtype, 'type of the coordinates')


def s_empty():
    c = choose(Curve([]), Curve([], ndmin=3), Curve(np.zeros((0, 4))))
    st, r = outcome(c.nonsingular)
    same(st, 'ok', 'an empty curve is accepted')
    assume(st == 'ok')
    same(r.size, 0, 'nonsingular of an empty curve')
    same(typename(r), 'Curve', 'nonsingular of an empty curve')


def s_no_warning():
    """dropping is not reported with an error or a warning"""
    c = Curve(np.array([[0.0, 0.0], [0.0, 0.0], [1.0, 1.0], [NAN, 0.0], [3.0, 3.0]]))
    k = mark()
    st, r = outcome(c.nonsingular)
    same(st, 'ok', 'a curve with singular points is accepted')
    same(warned(k, None), False, 'no warning')


def s_later_use():
    """what the result reports is about its own points"""
    a = np.array([[0.0, 0.0], [0.0, 0.0], [3.0, 4.0], [NAN, 0.0], [3.0, 4.0], [6.0, 8.0]])
    c = Curve(a)
    q = choose('chordlen', 'cumarclen', 'data', 'arclen')
    if choose(True, False):
        c.chordlen
        c.cumarclen
    r = c.nonsingular()
    b = np.array([[0.0, 0.0], [3.0, 4.0], [6.0, 8.0]])
    same(r.size, 3, 'number of points')
    assume(r.size == 3)
    same(getattr(r, q), getattr(Curve(b), q), q + ' of the nonsingular curve')


def s_drop():
    """dropping and keeping: nonsingular is a drop of points"""
    n = 5
    t = incr('t', n)
    a = np.array([[0.0, 1.0], [0.0, 1.0], [2.0, NAN], [0.0, 1.0], [4.0, 4.0]])
    c = Curve(a, tdata=t)
    r = c.nonsingular()
    e = c.drop(lambda d: np.array([False, True, True, True, False]))
    same(r.data, e.data, 'points')
    same(r.t, e.t, 'parameter values')
