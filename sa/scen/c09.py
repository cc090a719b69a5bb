def s_chordlen():
    c = curve(nmin=2)
    d = c.data
    want = np.sqrt(np.sum((d[1:] - d[:-1]) ** 2, axis=1))
    same(c.chordlen, want, 'chord lengths')
    same(c.arclen, np.sum(want), 'arc length')
    same(c.cumarclen, np.hstack((0.0, np.cumsum(want))), 'cumulative arc length')
    same(len(c.cumarclen), c.size, 'one cumulative length per point')
    same(c.cumarclen[0], 0.0, 'cumulative length starts at zero')


def s_each():
    c = curve(nmin=2)
    d = c.data
    i = nat('i', 0)
    assume(i < c.size - 1)
    same(c.chordlen[i], dist(d[i], d[i + 1]), 'chord length i')
    same(c.cumarclen[i + 1] - c.cumarclen[i], dist(d[i], d[i + 1]), 'cumulative length adds one chord')
    same(c.cumarclen[c.size - 1], c.arclen, 'cumulative length ends at the arc length')


def s_integer():
    c = icurve(nmin=2)
    d = c.data
    want = np.sqrt(np.sum((d[1:] - d[:-1]) ** 2, axis=1))
    same(c.chordlen, want, 'chord lengths of an integer curve')
    same(c.cumarclen, np.hstack((0.0, np.cumsum(want))), 'cumulative arc length of an integer curve')


def s_float32():
    c = curve(nmin=2, dim=2, dtype='float32')
    d = c.data
    want = np.sqrt(np.sum((d[1:] - d[:-1]) ** 2, axis=1))
    same(c.chordlen, want, 'chord lengths of a single precision curve')


def s_dim4():
    c = curve(nmin=2, dim=4)
    d = c.data
    want = np.sqrt(np.sum((d[1:] - d[:-1]) ** 2, axis=1))
    same(c.chordlen, want, 'chord lengths in four dimensions')
    same(c.arclen, np.sum(want), 'arc length in four dimensions')


def s_t():
    n = nat('N', 1)
    dim = choose(2, 3, 4)
    d = arr('d', (n, dim))
    t = incr('t', n)
    c = Curve(d, tdata=t)
    same(c.t, t, 'parameter vector is the given one')
    same(c.isparametric, True, 'parametric')
    c = Curve(d)
    same(c.t, c.cumarclen, 'parameter vector of a curve without one is the cumulative arc length')
    same(c.isparametric, False, 'not parametric')


def s_t_order():
    """the parameter vector does not depend on what was asked before"""
    c = curve(nmin=2)
    e = Curve(c)
    e.cumarclen
    e.arclen
    same(c.t, e.t, 'parameter vector after other queries')
    same(c.arclen, e.arclen, 'arc length after other queries')


def s_one_point():
    c = curve(n=1)
    same(c.chordlen, np.array([]), 'no chords')
    same(c.arclen, 0.0, 'zero length')
    same(c.cumarclen, np.array([0.0]), 'cumulative length of one point')


def s_empty():
    dim = choose(2, 3, 4)
    how = choose('array', 'list', 'slice')
    if how == 'array':
        c = Curve(np.zeros((0, dim)))
    elif how == 'list':
        c = Curve([])
    else:
        n = nat('N', 1)
        c = Curve(arr('d', (n, dim)))[:0]
    same(c.size, 0, 'empty')
    same(c.chordlen, np.array([]), 'no chords')
    same(c.arclen, 0.0, 'zero length')
    same(c.cumarclen, np.array([]), 'empty cumulative length')
    same(c.t, np.array([]), 'empty parameter vector')


def s_not_finite():
    """lengths of curves with missing coordinates are sums of the chord lengths as well"""
    n = choose(2, 3, 5)
    x = arr('x', (n, 2), 'float64', 'nan')
    c = Curve(x)
    d = c.data
    want = np.sqrt(np.sum((d[1:] - d[:-1]) ** 2, axis=1))
    same(c.chordlen, want, 'chord lengths')
    same(c.arclen, np.sum(want), 'arc length')
    same(c.cumarclen[n - 1], np.sum(want), 'cumulative length ends at the sum')
    e = Curve([[0.0, choose(np.nan, np.inf), 2.0], [0.0, 1.0, 0.0]])
    holds(not np.isfinite(e.arclen), 'arc length of a curve with a point that is not finite')
    holds(not np.isfinite(e.cumarclen[2]), 'cumulative length behind a point that is not finite')
    same(e.cumarclen[0], 0.0, 'cumulative length starts at zero')


def s_integer_types():
    """lengths do not depend on the type of the coordinates"""
    c, f = twins(nmin=1, dim=choose(2, 3, 4))
    w = f.data
    want = np.sqrt(np.sum((w[1:] - w[:-1]) ** 2, axis=1))
    same(c.chordlen, want, 'chord lengths')
    same(c.arclen, np.sum(want), 'arc length')
    same(c.cumarclen, np.hstack((0.0, np.cumsum(want))), 'cumulative arc length')
    same(c.t, f.t, 'parameter vector')


def s_integer_segments():
    c, f = twins(nmin=2, dim=choose(2, 3, 4))
    i = nat('i', 0)
    assume(i < c.size - 1)
    same(c.segments[i].seglen, dist(f.data[i], f.data[i + 1]), 'length of a segment')
    same(c.segments[i].chordlen, c.chordlen[i], 'chord length of a segment')
