from skcurve import IntersectionType

NONE, EXACT, OVERLAP = IntersectionType.NONE, IntersectionType.EXACT, IntersectionType.OVERLAP


def vec(name, dim):
    return arr(name, (dim,))


def exact(a, b):
    st, r = outcome(a.intersect, b, 'exact')
    same(st, 'ok', 'the exact method gives a result')
    assume(st == 'ok')
    return r


def s_regimes():
    """any pair of segments"""
    dim = choose(2, 3, 4)
    a, b = segment('a', dim), segment('b', dim)
    r = exact(a, b)
    if a.collinear(b):
        o = a.overlap(b)
        if o is None:
            same(r.intersect_type is NONE, True, 'collinear segments without overlap report nothing')
        else:
            same(r.intersect_type is OVERLAP, True, 'collinear segments report their overlap')
            if r.intersect_type is OVERLAP:
                same(r.intersect_info.data.p1.data, o.p1.data, 'the overlap is the data')
                same(r.intersect_info.data.p2.data, o.p2.data, 'the overlap is the data')
    elif a.parallel(b):
        same(r.intersect_type is NONE, True, 'parallel non-collinear segments report nothing')
    elif not a.coplanar(b):
        same(r.intersect_type is NONE, True, 'non-coplanar segments report nothing')
    elif a.singular or b.singular:
        same(r.intersect_type is NONE, True, 'singular segments report nothing')
    else:
        same(r.intersect_type is OVERLAP, False, 'only collinear segments report an overlap')


def s_point_of_first_segment():
    dim = choose(2, 3, 4)
    a, b = segment('a', dim), segment('b', dim)
    r = exact(a, b)
    if r.intersect_type is EXACT:
        p = r.intersect_info.data.data
        u, v, w = a.direction.data, b.direction.data, b.p1.data - a.p1.data
        aa, bb, cc, d, e = u @ u, u @ v, v @ v, u @ w, v @ w
        den = aa * cc - bb * bb
        s, t = (d * cc - bb * e) / den, (d * bb - aa * e) / den
        holds(s > -1e-6, 'the parameter of the first segment is not below 0')
        holds(s < 1 + 2e-5, 'the parameter of the first segment is not above 1')
        holds(t > -1e-6, 'the parameter of the second segment is not below 0')
        holds(t < 1 + 2e-5, 'the parameter of the second segment is not above 1')
        same(p, a.p1.data + s * u, 'the reported point is that of the first segment')
        same(p, b.p1.data + t * v, 'the reported point is on the second segment as well')


def crossing(s, t):
    """segments whose lines cross at the parameters s and t"""
    dim = choose(2, 3, 4)
    o, d, e = vec('o', dim), vec('d', dim), vec('e', dim)
    p, q = o - s * d, o - t * e
    a, b = Segment(Point(p), Point(p + d)), Segment(Point(q), Point(q + e))
    assume(not a.collinear(b) and not a.parallel(b) and a.coplanar(b) and not a.singular and not b.singular)
    return a, b, o


def s_crossing_inside():
    s, t = choose(0.0, 0.25, 0.5, 1.0), choose(0.0, 0.5, 0.75, 1.0)
    a, b, o = crossing(s, t)
    r = exact(a, b)
    same(r.intersect_type is EXACT, True, 'crossing segments report an exact intersection')
    if r.intersect_type is EXACT:
        same(r.intersect_point.data, o, 'the crossing point is reported')


def s_crossing_rounding():
    """crossing at an end of a segment up to rounding"""
    eps = 1e-10
    s, t = choose((-eps, 0.5), (1.0 + eps, 0.5), (0.5, -eps), (0.5, 1.0 + eps), (eps, 1.0 - eps), (-eps, 1.0 + eps))
    a, b, o = crossing(s, t)
    r = exact(a, b)
    same(r.intersect_type is EXACT, True, 'segments touching within rounding report an exact intersection')


def s_crossing_beyond_an_end():
    """a parameter behind an end within rounding is reported as solved, not moved to the end"""
    concretise()
    e = choose(5e-6, 2e-6, 1e-6)
    dim = choose(2, 3)
    pad = [0.0] * (dim - 2)
    o = 1.0 + e
    a = Segment(Point([0.0, 0.0] + pad), Point([1.0, 0.0] + pad))
    b = Segment(Point([o, -1.0] + pad), Point([o, 1.0] + pad)) if choose(True, False) else Segment(Point([o, 1.0] + pad), Point([o, -3.0] + pad))
    r = exact(a, b)
    same(r.intersect_type is EXACT, True, 'a parameter of one within rounding')
    if r.intersect_type is EXACT:
        holds(abs(r.intersect_point.data[0] - o) < e / 100, 'the point at the solved parameter is reported')


def s_crossing_outside():
    s, t = choose((-0.5, 0.5), (-0.01, 0.5), (1.01, 0.5), (2.0, 0.5), (0.5, -0.01), (0.25, -1.0), (0.5, 1.01), (0.5, 3.0), (-0.5, -0.5), (1.5, 1.5), (-0.5, 1.5),
                  (1.5, -0.25), (1.0 + 5e-5, 0.5), (0.5, 1.0 + 5e-5), (-1e-4, 0.5), (0.5, -1e-4))
    a, b, o = crossing(s, t)
    r = exact(a, b)
    same(r.intersect_type is NONE, True, 'segments that do not reach the crossing of their lines report nothing')


def s_skew():
    """lines at a distance"""
    o, d, e = vec('o', 3), vec('d', 3), vec('e', 3)
    h = real('h', 'pos')
    n = np.cross(d, e)
    s, t = choose(0.25, 0.5), choose(0.5, 0.75)
    p, q = o - s * d, o - t * e + h * n
    a, b = Segment(Point(p), Point(p + d)), Segment(Point(q), Point(q + e))
    assume(not np.all(np.abs(n) < 0.1))
    r = exact(a, b)
    same(bool(r), False, 'skew segments report nothing')


def s_collinear():
    dim = choose(2, 3, 4)
    o, d = vec('o', dim), vec('d', dim)
    k = choose('inside', 'partly', 'same', 'reversed', 'touching', 'apart', 'apart before', 'contains', 'partly reversed')
    s, t = {'inside': (0, 1), 'partly': (0, 2), 'same': (0, 3), 'reversed': (3, 0), 'touching': (-1, 0), 'apart': (4, 5), 'apart before': (-3, -1),
            'contains': (-2, 5), 'partly reversed': (4, 1)}[k]
    a = Segment(Point(o), Point(o + 3 * d))
    b = Segment(Point(o + s * d), Point(o + t * d))
    assume(a.collinear(b) and not a.singular)
    r = exact(a, b)
    lo, hi = max(0, min(s, t)), min(3, max(s, t))
    if lo > hi:
        same(r.intersect_type is NONE, True, 'collinear segments apart report nothing: ' + k)
    else:
        same(r.intersect_type is OVERLAP, True, 'collinear segments report their overlap: ' + k)
        if r.intersect_type is OVERLAP:
            x = r.intersect_segment
            y = a.overlap(b)
            same(x.p1.data, y.p1.data, 'the overlap starts where that of the segments does: ' + k)
            same(x.p2.data, y.p2.data, 'the overlap ends where that of the segments does: ' + k)
            same(x.p1.data + x.p2.data, 2 * o + (lo + hi) * d, 'the overlap is the common part: ' + k)
            same(np.abs(x.p2.data - x.p1.data), np.abs((hi - lo) * d), 'the overlap is the common part: ' + k)


def s_parallel():
    o, d, h = vec('o', 2), vec('d', 2), vec('h', 2)
    s = choose(0.0, 0.5, -1.0)
    t = choose(1.0, 2.0)
    a = Segment(Point(o), Point(o + d))
    b = Segment(Point(o + h + s * d), Point(o + h + t * d))
    assume(not a.collinear(b))
    if a.parallel(b):
        same(bool(exact(a, b)), False, 'parallel segments at a distance report nothing')


def s_singular():
    dim = choose(2, 3, 4)
    p = point('p', dim)
    a, b = Segment(p, p), segment('b', dim)
    assume(not a.collinear(b))
    if choose(True, False):
        same(bool(exact(a, b)), False, 'a singular segment reports nothing')
    else:
        same(bool(exact(b, a)), False, 'a singular segment reports nothing')
