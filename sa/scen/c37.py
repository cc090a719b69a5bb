"""predicates of position: collinear, coplanar, overlap, kinds of dimension"""


def exactarr(name, dim):
    return arr(name, (dim,), 'float64', 'exact')


def line(dim=None):
    """a segment with a direction of ordinary length"""
    dim = choose(2, 3, 4) if dim is None else dim
    o, d = exactarr('o', dim), exactarr('d', dim)
    assume(np.sum(d * d) > 0.5)
    return Segment(Point(o), Point(o + d)), o, d


def aside(d, name='e'):
    """a direction that is far from d"""
    e = exactarr(name, len(d))
    assume(np.sum(e * e) > 0.5)
    assume(np.sum(d * d) * np.sum(e * e) - np.sum(d * e) ** 2 > 0.05 * np.sum(d * d) * np.sum(e * e))
    return e


def s_own_parts():
    dim = choose(1, 2, 3, 4)
    s = segment('s', dim)
    same(bool(s.collinear(s.p1)), True, 'a segment is collinear with its first point')
    same(bool(s.collinear(s.p2)), True, 'a segment is collinear with its second point')
    same(bool(s.collinear(s)), True, 'a segment is collinear with itself')
    same(bool(s.collinear(s.reverse())), True, 'a segment is collinear with its reverse')
    same(bool(s.collinear(Segment(Point(s.p1), Point(s.p2)))), True, 'a segment is collinear with an equal one')
    same(bool(s.collinear(Segment(s.p1, s.p1))), True, 'a segment is collinear with a degenerate one at its end')


def s_on_line():
    s, o, d = line()
    k, l = choose(-2.0, 0.0, 0.5, 1.0, 3.0), choose(-1.0, 0.25, 1.0)
    same(bool(s.collinear(Point(o + k * d))), True, 'a point of the line is collinear')
    same(bool(s.collinear(Segment(Point(o + k * d), Point(o + l * d)))), True, 'a segment of the line is collinear')


def s_off_line():
    s, o, d = line()
    e = aside(d)
    k = choose(-1.0, 0.0, 0.5, 1.0, 2.0)
    h = choose(1.0, -0.5)
    p, q = Point(o + k * d), Point(o + k * d + h * e)
    same(bool(s.collinear(q)), False, 'a point off the line is not collinear')
    same(bool(s.collinear(Segment(p, q))), False, 'a segment that leaves the line is not collinear')
    same(bool(s.collinear(Segment(q, p))), False, 'a segment that leaves the line is not collinear')
    same(bool(s.collinear(Segment(q, Point(o + h * e + 3.0 * d)))), False, 'a parallel segment is not collinear')


def s_tolerance():
    """the tolerance given is the one used"""
    s, o, d = line()
    e = aside(d)
    w = choose('point', 'segment', 'keyword')
    q = Point(o + 0.5 * d + 1e-7 * e)
    other = q if w != 'segment' else Segment(Point(o + 2.0 * d), q)
    same(bool(s.collinear(other)), False, 'not collinear exactly')
    same(bool(s.collinear(other, tol=1e-4)), True, 'collinear with a tolerance')
    same(bool(s.collinear(other, 1e-10)), False, 'not collinear with a small tolerance')


def s_plane_always():
    s = segment('s', 2)
    same(bool(s.coplanar(point('p', 2))), True, 'a point of the plane is coplanar')
    same(bool(s.coplanar(segment('r', 2))), True, 'segments of the plane are coplanar')
    same(bool(curve(nmin=1, dim=2).isplane), True, 'a plane curve is a plane curve')


def s_three_points():
    dim = choose(3, 4)
    o, d, e = exactarr('o', dim), exactarr('d', dim), exactarr('e', dim)
    s = Segment(Point(o), Point(o + d))
    same(bool(s.coplanar(Point(e))), True, 'three points are coplanar')
    same(bool(s.coplanar(Segment(Point(o), Point(e)))), True, 'segments from one point are coplanar')


def s_coplanar():
    dim = choose(3, 4)
    s, o, d = line(dim)
    e = aside(d)
    a, b, f, g = choose((0.5, 1.0, -1.0, 2.0), (2.0, 1.0, 0.5, -3.0), (0.0, 1.0, 1.0, 1.0))
    r = Segment(Point(o + a * d + b * e), Point(o + f * d + g * e))
    same(bool(s.coplanar(r)), True, 'segments in a common plane are coplanar')
    same(bool(r.coplanar(s)), True, 'segments in a common plane are coplanar')
    c = Curve(np.stack([o, o + d, o + a * d + b * e, o + e, o + f * d + g * e]))
    same(bool(c.isplane), True, 'a curve in a plane is a plane curve')


def s_not_coplanar():
    s, o, d = line(3)
    e = aside(d)
    n = np.cross(d, e)
    a, h = choose(0.0, 0.5, 1.0), choose(1.0, -0.5)
    r = Segment(Point(o + a * d + e), Point(o + e + h * n))
    assume(np.sum(n * n) > 0.5)
    same(bool(s.coplanar(r)), False, 'segments that are not in a plane are not coplanar')
    same(bool(r.coplanar(s)), False, 'segments that are not in a plane are not coplanar')
    k = choose(0, 1, 2)
    rows = [o, o + d, o + e, o + d + e]
    rows.insert(k, o + 0.5 * e + h * n)
    same(bool(Curve(np.stack(rows)).isplane), False, 'a curve that leaves the plane is not a plane curve')


def s_coplanar_tolerance():
    s, o, d = line(3)
    e = aside(d)
    n = np.cross(d, e)
    assume(np.sum(n * n) > 0.5)
    r = Segment(Point(o + e), Point(o + d + 2.0 * e + 1e-7 * n))
    same(bool(s.coplanar(r)), False, 'not coplanar exactly')
    same(bool(s.coplanar(r, tol=1e-4)), True, 'coplanar with a tolerance')
    same(bool(s.coplanar(r, 1e-11)), False, 'not coplanar with a small tolerance')


def s_operands():
    s = segment('s', 2)
    x = choose(1.0, [1.0, 2.0], None, 'a', Curve([[0.0, 1.0], [1.0, 2.0]]))
    if choose(True, False):
        x = np.array([1.0, 2.0])
    raises(s.collinear, TypeError, 'collinearity of something else', x)
    raises(s.coplanar, TypeError, 'coplanarity of something else', x)


def s_dimensions():
    dim = choose(2, 3, 4, 5)
    c = Curve(arr('d', (nat('n', 0), dim)))
    same(c.ndim, dim, 'dimension')
    same(bool(c.is2d), dim == 2, 'is2d')
    same(bool(c.is3d), dim == 3, 'is3d')
    same(bool(c.isspatial), dim >= 3, 'isspatial')


KINDS = {'inside': (0.0, 1.0), 'partly': (0.0, 2.0), 'same': (0.0, 3.0), 'reversed': (3.0, 0.0), 'before': (-1.0, 1.0), 'inner': (1.0, 2.0),
         'contains': (-2.0, 5.0), 'contains reversed': (5.0, -2.0), 'partly reversed': (4.0, 1.0)}


def s_overlap():
    """the common part of segments of one line"""
    dim = choose(1, 2, 3, 4)
    o, d = exactarr('o', dim), exactarr('d', dim)
    assume(np.sum(d * d) > 0.5)
    k = choose(*KINDS)
    s, t = KINDS[k]
    a, b = Segment(Point(o), Point(o + 3.0 * d)), Segment(Point(o + s * d), Point(o + t * d))
    if choose(True, False):
        a, b = b, a
    x = a.overlap(b)
    same(x is None, False, 'the overlap exists: ' + k)
    assume(x is not None)
    lo, hi = max(0.0, min(s, t)), min(3.0, max(s, t))
    same(typename(x), 'Segment', 'the overlap is a segment')
    same(x.p1.data + x.p2.data, 2.0 * o + (lo + hi) * d, 'the overlap is the common part: ' + k)
    same(np.abs(x.p2.data - x.p1.data), np.abs((hi - lo) * d), 'the overlap is the common part: ' + k)


def s_overlap_directions():
    """the common part for segments along an axis or in a plane of axes"""
    d = np.array(choose([0.0, 1.0], [0.0, -1.0], [1.0, 0.0], [1.0, -1.0], [0.0, 1.0, -1.0], [0.0, -2.0, 0.5], [1.0, 0.0, -1.0], [0.0, 0.0, -1.0],
                        [-1.0, 0.25, 0.0], [-1e-9, 1.0, -3.0], [0.0, 0.0, 1.0, -1.0], [0.0, -1.0, 2.0, 0.0]))
    o = np.arange(len(d)) * 0.5
    s, t = choose((0.0, 1.0), (1.0, 2.0), (2.0, 1.0), (-1.0, 4.0), (4.0, -1.0), (-1.0, 1.5), (3.0, 5.0), (0.5, 0.5))
    a, b = Segment(Point(o), Point(o + 3.0 * d)), Segment(Point(o + s * d), Point(o + t * d))
    lo, hi = max(0.0, min(s, t)), min(3.0, max(s, t))
    for x in (a.overlap(b), b.overlap(a)):
        same(x is None, False, 'segments with a common part overlap')
        if x is not None:
            same(x.p1.data + x.p2.data, 2.0 * o + (lo + hi) * d, 'the overlap is the common part')
            p, q = o + lo * d, o + hi * d
            same(bool((np.allclose(x.p1.data, p) and np.allclose(x.p2.data, q)) or (np.allclose(x.p1.data, q) and np.allclose(x.p2.data, p))), True, 'the overlap runs from end to end of the common part')


def s_overlap_apart():
    dim = choose(1, 2, 3, 4)
    o, d = exactarr('o', dim), exactarr('d', dim)
    assume(np.sum(d * d) > 0.5)
    s, t = choose((4.0, 5.0), (5.0, 4.0), (-3.0, -1.0), (-0.5, -2.0))
    a, b = Segment(Point(o), Point(o + 3.0 * d)), Segment(Point(o + s * d), Point(o + t * d))
    if choose(True, False):
        a, b = b, a
    same(a.overlap(b), None, 'segments apart do not overlap')


def s_overlap_checked():
    """with the check only collinear segments overlap"""
    s, o, d = line()
    e = aside(d)
    r = Segment(Point(o - 0.5 * d - e), Point(o + d + e))
    same(s.overlap(r, check_collinear=True), None, 'segments that are not collinear do not overlap')
    same(s.overlap(r, True), None, 'segments that are not collinear do not overlap')
    b = Segment(Point(o + 0.5 * d), Point(o + 2.0 * d))
    if s.collinear(b):
        x, y = s.overlap(b, check_collinear=True), s.overlap(b)
        same(x is None, False, 'collinear segments overlap with the check')
        if x is not None:
            same(x.data, y.data, 'the check changes nothing for collinear segments')


def s_overlap_parallel():
    """parallel segments side by side are not collinear, however their boxes overlap"""
    dim = choose(2, 3, 4)
    d = np.array([2.0, 1.0, -1.0, 0.5])[:dim]
    h = np.array([-0.25, 0.25, 0.125, 0.5])[:dim]
    o = exactarr('o', dim)
    f = choose(1.0, -1.0, 0.5)
    s = Segment(Point(o), Point(o + d))
    r = Segment(Point(o + h), Point(o + h + f * d))
    same(bool(s.collinear(r)), False, 'parallel segments side by side are not collinear')
    same(bool(s.parallel(r)), True, 'they are parallel')
    same(s.overlap(r, check_collinear=True), None, 'parallel segments side by side do not overlap')
    same(r.overlap(s, True), None, 'parallel segments side by side do not overlap')
    same(bool(s.coplanar(r)), True, 'parallel segments are coplanar')


def s_degenerate():
    """two distinct points are always on a line, three in a plane"""
    dim = choose(1, 2, 3, 4)
    p, q = exactarr('p', dim), exactarr('q', dim)
    s = Segment(Point(p), Point(p))
    same(bool(s.collinear(Point(q))), True, 'a degenerate segment is collinear with every point')
    same(bool(s.collinear(Segment(Point(q), Point(q)))), True, 'degenerate segments are collinear')
    same(bool(Segment(Point(p), Point(q)).collinear(s)), True, 'a segment is collinear with a degenerate one at its end')
    same(bool(Segment(Point(q), Point(p)).collinear(s)), True, 'a segment is collinear with a degenerate one at its end')
    if dim > 1:
        same(bool(s.coplanar(Point(q))), True, 'a degenerate segment is coplanar with every point')
        same(bool(s.coplanar(segment('r', dim))), True, 'a degenerate segment is coplanar with every segment')
        same(bool(Segment(Point(p), Point(q)).coplanar(s)), True, 'a segment is coplanar with a degenerate one')


def s_zero_tolerance():
    """a tolerance of zero is a tolerance"""
    h = choose(1.0, 0.25, -3.0)
    s = Segment(Point([0.0, 0.0, 0.0]), Point([h, 0.0, 0.0]))
    e = choose(2.0 ** -70, 2.0 ** -57)
    same(bool(s.coplanar(Segment(Point([0.0, h, 0.0]), Point([0.0, 0.0, e])))), True, 'a tiny offset is coplanar')
    same(bool(s.coplanar(Segment(Point([0.0, h, 0.0]), Point([0.0, 0.0, e])), tol=0.0)), False, 'a tiny offset is not coplanar without tolerance')
    same(bool(s.collinear(Point([2.0 * h, e, 0.0]))), True, 'a tiny offset is collinear')
    same(bool(s.collinear(Point([2.0 * h, e, 0.0]), tol=0.0)), False, 'a tiny offset is not collinear without tolerance')
    same(bool(s.collinear(Point([2.0 * h, e, 0.0]), 0)), False, 'a tiny offset is not collinear without tolerance')


def s_integer_types():
    """positions do not depend on the type of the coordinates"""
    c, f = twins(n=choose(3, 4), dim=3, par=False)
    same(bool(c.isplane), bool(f.isplane), 'plane curve of integer coordinates')
    t = choose('int64', 'int8', 'uint8')
    p = [arr('p' + str(k), (3,), t) for k in range(4)]
    a = Segment(Point(p[0], dtype=t), Point(p[1], dtype=t)), Segment(Point(p[2], dtype=t), Point(p[3], dtype=t))
    b = Segment(Point(p[0]), Point(p[1])), Segment(Point(p[2]), Point(p[3]))
    same(bool(a[0].coplanar(a[1])), bool(b[0].coplanar(b[1])), 'coplanarity of integer segments')
    same(bool(a[0].collinear(a[1])), bool(b[0].collinear(b[1])), 'collinearity of integer segments')
    same(bool(a[0].collinear(a[1].p1)), bool(b[0].collinear(b[1].p1)), 'collinearity of an integer point')


def s_late_departure():
    """every point of a curve counts, wherever it is"""
    n = choose(4, 5, 6, 9)
    t = choose('float64', 'float32', 'int64', 'uint8')
    rows = [[0, 0, 0], [4, 0, 0], [4, 4, 0], [0, 4, 0], [0, 8, 0], [4, 8, 0], [8, 9, 0], [1, 7, 0], [5, 5, 0]][:n]
    same(bool(Curve(np.array(rows, dtype=t)).isplane), True, 'points with one common coordinate are coplanar')
    k = choose(0, 1, 2, 3, 4, 5, 6, 7, 8)
    assume(k < n)
    far = [list(r) for r in rows]
    far[k][2] = 5
    flat = n == 4 and False
    same(bool(Curve(np.array(far, dtype=t)).isplane), False, 'one point outside the plane is enough')
