from skcurve import IntersectionType, _geomalg

ALMOST = IntersectionType.ALMOST


def both(c, d, i, j):
    """line parameters of one pair computed alone and as part of whole curves"""
    if not (hasattr(_geomalg, 'segment_to_segment') and hasattr(_geomalg, 'segments_to_segments')):
        skip()
    a, b = c.segments[i], d.segments[j]
    t1, t2 = _geomalg.segment_to_segment(a, b)
    r = _geomalg.segments_to_segments(c.data, d.data)
    return a, b, t1, t2, r


def check(c, d, i, j):
    a, b, t1, t2, r = both(c, d, i, j)
    same(r.t1[i, j], t1, 'line parameter of the first segment')
    same(r.t2[i, j], t2, 'line parameter of the second segment')
    same(r.p1[:, i, j], a.p1.data + r.t1[i, j] * (a.p2.data - a.p1.data), 'point of the first segment at its parameter')
    same(r.p2[:, i, j], b.p1.data + r.t2[i, j] * (b.p2.data - b.p1.data), 'point of the second segment at its parameter')


def other(c, n):
    k = nat('k', 0)
    assume(k < c.size - 1)
    return k


def s_pair_alone():
    """single pair: every trace of the scalar routine"""
    dim = choose(2, 3, 4)
    check(curve('c', n=2, dim=dim, par=False), curve('d', n=2, dim=dim, par=False), 0, 0)


def s_pair_in_curves():
    dim = choose(2, 3, 4)
    c, d = curve('c', 2, dim=dim, par=False), curve('d', 2, dim=dim, par=False)
    i, j = nat('i', 0), nat('j', 0)
    assume(i < c.size - 1 and j < d.size - 1)
    check(c, d, i, j)


def s_small_pairs():
    """short segments, for which the products of the lengths reach the tolerances"""
    k = choose(0.3, 0.1, 0.03, 0.01, 1e-3)
    check(Curve(arr('c', (2, 2), 'float64') * k), Curve(arr('d', (2, 2), 'float64') * k), 0, 0)


def s_long_pairs():
    k = choose(30.0, 1e4)
    check(Curve(arr('c', (2, 2), 'float64') * k), Curve(arr('d', (2, 2), 'float64') * k), 0, 0)


def s_short_and_long():
    k = choose(1e-3, 1e-7, 1e4)
    check(Curve(arr('c', (2, 2), 'float64')), Curve(arr('d', (2, 2), 'float64') * k), 0, 0)


def s_parallel_pair():
    dim = choose(2, 3, 4)
    o, v, w = arr('o', (dim,), 'float64', 'exact'), arr('v', (dim,), 'float64', 'exact'), arr('w', (dim,), 'float64', 'exact')
    k = choose(1.0, -1.0, 2.0, -0.5, 0.25, 3.0)
    w = choose(w, v * choose(0.0, 0.5, 1.0, -2.0, 3.0))
    check(Curve(np.stack([o, o + v])), Curve(np.stack([o + w, o + w + v * k])), 0, 0)


def s_singular_pair():
    dim = choose(2, 3, 4)
    o, v, w = arr('o', (dim,), 'float64'), arr('v', (dim,), 'float64'), arr('w', (dim,), 'float64')
    a, b = Curve(np.stack([o, o])), Curve(np.stack([w, w + choose(v, v * 0.0)]))
    if choose(True, False):
        a, b = b, a
    check(a, b, 0, 0)


def s_shared_end():
    dim = choose(2, 3, 4)
    o, v, w = arr('o', (dim,), 'float64'), arr('v', (dim,), 'float64'), arr('w', (dim,), 'float64')
    a, b = choose([o, v], [v, o]), choose([o, w], [w, o])
    check(Curve(np.stack(a)), Curve(np.stack(b)), 0, 0)


def s_same_parameters():
    """the pair of curves reported by the almost method is the pair of the shortest segment"""
    dim = choose(2, 3, 4)
    c, d = curve('c', n=2, dim=dim, par=False), curve('d', n=2, dim=dim, par=False)
    s = c.segments[0].shortest_segment(d.segments[0])
    r = c.intersect(d, 'almost', dist_tol=1000.0)
    assume(len(r) == 1)
    same(r[0].intersect_segment.p1.data, s.p1.data, 'start of the connecting segment')
    same(r[0].intersect_segment.p2.data, s.p2.data, 'end of the connecting segment')


def owned(dim):
    return choose(segment('a', dim), curve('a', n=2, dim=dim, par=False).segments[0])


def s_segment_direction():
    dim = choose(2, 3, 4)
    a, b = owned(dim), segment('b', dim)
    s = a.shortest_segment(b)
    if hasattr(_geomalg, 'segment_to_segment'):
        t1, t2 = _geomalg.segment_to_segment(a, b)
        same(s.p1.data, a.p1.data + (a.p2.data - a.p1.data) * t1, 'the shortest segment starts on this segment')
        same(s.p2.data, b.p1.data + (b.p2.data - b.p1.data) * t2, 'the shortest segment ends on the other segment')
        holds(t1 >= 0 and t1 <= 1, 'the parameter of the first segment lies in the segment')
        holds(t2 >= 0 and t2 <= 1, 'the parameter of the second segment lies in the segment')
    same(a.distance(b), np.sqrt(np.sum((s.p1.data - s.p2.data) ** 2)), 'the distance is the length of the shortest segment')
    q = b.shortest_segment(a)
    holds(q.seglen <= s.seglen * (1 + 1e-6) + 1e-6 and s.seglen <= q.seglen * (1 + 1e-6) + 1e-6, 'the length does not depend on the order')


def s_point_direction():
    dim = choose(2, 3, 4)
    a = owned(dim)
    p = point('p', dim)
    s = a.shortest_segment(p)
    u, w = a.p2.data - a.p1.data, p.data - a.p1.data
    same(s.p2.data, p.data, 'the shortest segment ends at the point')
    c1, c2 = np.sum(u * w), np.sum(u * u)
    if c1 < 0 or np.isclose(c1, 0):
        t = 0.0
    elif c2 < c1 or np.isclose(c2, c1):
        t = 1.0
    else:
        t = c1 / c2
    same(s.p1.data, a.p1.data + u * t, 'the shortest segment starts at the nearest point of this segment')
    same(a.distance(p), np.sqrt(np.sum((s.p1.data - p.data) ** 2)), 'the distance is the length of the shortest segment')


def s_curve_point_direction():
    c = curve('c', n=2, dim=2, par=False)
    a = segment('a', 2)
    s = a.shortest_segment(c[1])
    same(s.p2.data, c.data[1], 'the shortest segment ends at the curve point')


def s_foreign():
    a = segment('a', 2)
    raises(a.shortest_segment, TypeError, 'the shortest segment to something else', choose(arr('x', (2,), 'float64'), [0.0, 1.0], None, curve('c', 2, dim=2)))


def s_integer_types():
    """integer coordinates do not truncate the line parameters"""
    c, f = twins('c', n=choose(2, 3), dim=choose(2, 3), par=False)
    d, g = twins('d', n=2, dim=c.ndim, par=False, types=('int64', 'uint8'))
    check(c, d, choose(0, c.size - 2), 0)


def s_integer_twins():
    c, f = twins('c', 2, dim=choose(2, 3), par=False)
    d, g = twins('d', 2, dim=c.ndim, par=False, types=('int64', 'int8'))
    if not hasattr(_geomalg, 'segments_to_segments'):
        skip()
    r, s = _geomalg.segments_to_segments(c.data, d.data), _geomalg.segments_to_segments(f.data, g.data)
    i, j = nat('i', 0), nat('j', 0)
    assume(i < c.size - 1 and j < d.size - 1)
    same(r.t1[i, j], s.t1[i, j], 'line parameters of the first segments')
    same(r.t2[i, j], s.t2[i, j], 'line parameters of the second segments')
    same(r.p1[:, i, j], s.p1[:, i, j], 'points of the first segments')
    same(r.p2[:, i, j], s.p2[:, i, j], 'points of the second segments')
