from skcurve import IntersectionType, get_intersect_method, NOT_INTERSECTED

EXACT, OVERLAP, ALMOST = IntersectionType.EXACT, IntersectionType.OVERLAP, IntersectionType.ALMOST
BASE = type(get_intersect_method('exact'))


def every():
    """an exact method for which every examined pair intersects"""
    p = point('hit', 2)

    class Mine(BASE):
        def _intersect_segments(self, segment1, segment2):
            return EXACT(p)
    return Mine()


def boxes(c, d):
    """pairs of segments whose closed bounding boxes touch or overlap"""
    a1, a2, b1, b2 = c.data[:-1], c.data[1:], d.data[:-1], d.data[1:]
    clo, chi, dlo, dhi = np.minimum(a1, a2), np.maximum(a1, a2), np.minimum(b1, b2), np.maximum(b1, b2)
    m = np.ones((c.size - 1, d.size - 1), dtype=bool)
    for k in range(c.ndim):
        lo, hi = clo[:, k][:, np.newaxis], chi[:, k][:, np.newaxis]
        lo2, hi2 = dlo[:, k][np.newaxis], dhi[:, k][np.newaxis]
        m = m & ((lo < hi2) | np.isclose(lo, hi2)) & ((hi > lo2) | np.isclose(hi, lo2))
    return m


def s_pairs():
    dim = choose(2, 3, 4)
    c, d = curve('c', 2, dim=dim, par=False), curve('d', 2, dim=dim, par=False)
    r = c.intersect(d, method=every())
    i, j = np.nonzero(boxes(c, d))
    same(len(r), len(i), 'number of examined pairs')
    got = np.array([int(x.segment1.idx) * d.size + int(x.segment2.idx) for x in r], dtype=np.int64)
    same(np.sort(got), np.sort(i * d.size + j), 'exactly the pairs with touching bounding boxes are examined')


def s_self_pairs():
    dim = choose(2, 3, 4)
    c = curve('c', 2, dim=dim, par=False)
    r = c.intersect(method=every())
    n = c.size - 1
    m = boxes(c, c)
    i, j = np.nonzero(m)
    k = j - i > 1
    i, j = i[k], j[k]
    same(len(r), len(i), 'number of pairs of the self-intersection')
    a, b = [int(x.segment1.idx) for x in r], [int(x.segment2.idx) for x in r]
    a, b = np.array(a, dtype=np.int64), np.array(b, dtype=np.int64)
    got = np.minimum(a, b) * c.size + np.maximum(a, b)
    same(np.sort(got), np.sort(i * c.size + j), 'every other pair with touching bounding boxes once')


def s_self_no_neighbours():
    dim = choose(2, 3, 4)
    c = curve('c', 2, dim=dim, par=False)
    r = c.intersect(method=every()) if choose(True, False) else c.intersect(c, method=every())
    for x in r:
        i, j = x.segment1.idx, x.segment2.idx
        holds(abs(i - j) > 1, 'neither a segment with itself nor with a neighbour')


def s_exactly_the_intersecting():
    dim = choose(2, 3, 4)
    p = choose(EXACT(point('hit', dim)), OVERLAP(segment('hit', dim)), ALMOST(segment('hit', dim)))

    class Mine(BASE):
        def _intersect_segments(self, segment1, segment2):
            if ext_bool('hits', [segment1.idx, segment2.idx]):
                return p
            return NOT_INTERSECTED
    c = curve('c', 2, dim=dim, par=False)
    d = choose(c, curve('d', 2, dim=dim, par=False))
    r = c.intersect(d, method=Mine())
    for x in r:
        same(bool(ext_bool('hits', [x.segment1.idx, x.segment2.idx])), True, 'only intersecting pairs are reported')
        same(x.segment1.curve is c, True, 'first segment of the first curve')
        same(x.segment2.curve is d, True, 'second segment of the second curve')
        same(x.intersect_info is p, True, 'the intersection of the pair is reported')


def s_all_kinds():
    k = choose(EXACT(point('hit', 2)), OVERLAP(segment('hit', 2)), ALMOST(segment('hit', 2)))

    class Mine(BASE):
        def _intersect_segments(self, segment1, segment2):
            return k
    c = curve('c', 2, dim=2, par=False)
    r = c.intersect(curve('d', 2, dim=2, par=False), method=Mine())
    q = c.intersect(c, method=Mine())
    same(len(q), len(c.intersect(method=every())), 'intersections of any type are reported')


def s_touching():
    """boxes that touch, exactly or within rounding, or do not"""
    dim = choose(2, 3, 4)
    o, e = arr('o', (dim,)), arr('e', (dim,), hint='pos')
    assume(np.all(e > 0.1))
    far = 0.05 * (1.0 + np.sum(np.abs(o)) + np.sum(e))
    kind = choose(0.0, 1e-10, -1e-10, 'far')
    gap = far if kind == 'far' else kind
    c, d = Curve(np.array([o, o + e])), Curve(np.array([o + e + gap, o + 2 * e + gap]))
    if choose(True, False):
        d = d.reverse()
    if choose(True, False):
        c = c.reverse()
    r = c.intersect(d, method=every()) if choose(True, False) else d.intersect(c, method=every())
    same(len(r), 0 if kind == 'far' else 1, 'boxes at a distance of about ' + str(kind))


def s_touching_one_axis():
    k = choose(0, 1)
    o, e = arr('o', (2,)), arr('e', (2,), hint='pos')
    assume(np.all(e > 0.1))
    far = 0.05 * (1.0 + np.sum(np.abs(o)) + np.sum(e))
    kind = choose(1e-10, 'far')
    gap = far if kind == 'far' else kind
    shift = np.array([1.0, 0.0]) if k == 0 else np.array([0.0, 1.0])
    c, d = Curve(np.array([o, o + e])), Curve(np.array([o + (e + gap) * shift, o + e + (e + gap) * shift]))
    r = c.intersect(d, method=every()) if choose(True, False) else d.intersect(c, method=every())
    same(len(r), 0 if kind == 'far' else 1, 'along an axis: boxes at a distance of about ' + str(kind))


def s_touching_large_coordinates():
    """rounding is relative to the size of the coordinates"""
    concretise()
    m = choose(1e6, 1e9, 1e12)
    gap = choose(0.0, 1e-12, -1e-12) * m
    k = choose(0, 1)
    a, b = np.array([[0.0, 0.0], [1.0, 1.0]]) * m, np.array([[1.0, -1.0], [1.0, 1.0]]) * m
    b[:, 0] += gap
    if k == 1:
        a, b = a[:, ::-1], b[:, ::-1]
    c, d = Curve(a), Curve(b)
    r = c.intersect(d, method=every()) if choose(True, False) else d.intersect(c, method=every())
    same(len(r), 1, 'large boxes touching within rounding')


def s_none_is_dropped():
    class Mine(BASE):
        def _intersect_segments(self, segment1, segment2):
            return NOT_INTERSECTED
    c = curve('c', 2, dim=2, par=False)
    d = choose(c, curve('d', 2, dim=2, par=False))
    same(len(c.intersect(d, method=Mine())), 0, 'pairs that do not intersect are not reported')


def s_pair_of_operands():
    """the method is given the segments of the pair, the one of the first curve first"""
    seen = []

    class Mine(BASE):
        def _intersect_segments(self, segment1, segment2):
            seen.append((segment1, segment2))
            return NOT_INTERSECTED
    c, d = curve('c', 2, dim=2, par=False), curve('d', 2, dim=2, par=False)
    c.intersect(d, method=Mine())
    for a, b in seen:
        same(a.curve is c, True, 'first segment of the first curve')
        same(b.curve is d, True, 'second segment of the second curve')


def s_empty():
    c, d = Curve([], ndmin=2), curve('d', choose(0, 1, 2), dim=2, par=False)
    m = choose('exact', 'almost')
    if choose(True, False):
        same(c.intersect(d, m), [], 'an empty curve intersects nothing')
    else:
        same(d.intersect(c, m), [], 'nothing intersects an empty curve')


def s_empty_self():
    c = Curve([], ndmin=choose(2, 3))
    same(c.intersect(method=choose('exact', 'almost')), [], 'an empty curve does not intersect itself')


def s_empty_segment():
    c, s = Curve([], ndmin=2), segment('s')
    m = choose('exact', 'almost')
    if choose(True, False):
        same(c.intersect(s, m), [], 'an empty curve intersects no segment')
    else:
        same(s.intersect(c, m), [], 'a segment does not intersect the empty curve')


def s_single_point():
    c, d = curve('c', n=1, dim=2, par=False), curve('d', choose(1, 2), dim=2, par=False)
    m = choose('exact', 'almost')
    k = choose('first', 'second', 'self')
    if k == 'first':
        same(c.intersect(d, m), [], 'a curve of one point has no segments')
    elif k == 'second':
        same(d.intersect(c, m), [], 'a curve of one point has no segments')
    else:
        same(c.intersect(method=m), [], 'a curve of one point has no segments')


def s_segment_against_curve():
    s, d = segment('s'), curve('d', 2, dim=2, par=False)
    k = choose('segment', 'curve')
    r = s.intersect(d, method=every()) if k == 'segment' else d.intersect(s, method=every())
    e = Curve(np.array([s.p1.data, s.p2.data]))
    m = boxes(e, d)[0]
    got = [int(x.segment2.idx) for x in r] if k == 'segment' else [int(x.segment1.idx) for x in r]
    same(np.sort(np.array(got, dtype=np.int64)), np.nonzero(m)[0], 'the segments of the curve with touching bounding boxes')


def s_almost_pairs():
    """the almost method examines all pairs; self-intersection as above"""
    c = curve('c', 2, dim=2, par=False)
    r = c.intersect(method='almost', dist_tol=real('tol', 'pos'))
    for x in r:
        i, j = x.segment1.idx, x.segment2.idx
        holds(abs(i - j) > 1, 'almost: neither a segment with itself nor with a neighbour')
    a, b = np.array([int(x.segment1.idx) for x in r], dtype=np.int64), np.array([int(x.segment2.idx) for x in r], dtype=np.int64)
    got = np.minimum(a, b) * c.size + np.maximum(a, b)
    same(len(np.unique(got)), len(r), 'almost: every pair once')


def s_integer_pairs():
    dim = choose(2, 3)
    c, d = curve('c', 2, dim=dim, par=False, dtype=choose('int64', 'uint8')), curve('d', 2, dim=dim, par=False, dtype=choose('int64', 'int16'))
    r = c.intersect(d, method=every())
    i, j = np.nonzero(boxes(Curve(c.data.astype('float64')), Curve(d.data.astype('float64'))))
    same(len(r), len(i), 'number of examined pairs')
    got = np.array([int(x.segment1.idx) * d.size + int(x.segment2.idx) for x in r], dtype=np.int64)
    same(np.sort(got), np.sort(i * d.size + j), 'exactly the pairs with touching bounding boxes are examined')
