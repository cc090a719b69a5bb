from skcurve import IntersectionType

NONE, EXACT, OVERLAP, ALMOST = IntersectionType.NONE, IntersectionType.EXACT, IntersectionType.OVERLAP, IntersectionType.ALMOST


def pairs(dim=None):
    dim = choose(2, 3, 4) if dim is None else dim
    return segment('a', dim), segment('b', dim)


def s_segments():
    a, b = pairs()
    tol = real('tol', 'pos')
    s = a.shortest_segment(b)
    n = s.seglen
    st, r = outcome(a.intersect, b, 'almost', dist_tol=tol)
    same(st, 'ok', 'the almost method gives a result')
    assume(st == 'ok')
    if n < tol:
        same(r.intersect_type is ALMOST, True, 'segments closer than the tolerance are reported')
        if r.intersect_type is ALMOST:
            x = r.intersect_segment
            same(x.p1.data, s.p1.data, 'the shortest connecting segment starts on the first segment')
            same(x.p2.data, s.p2.data, 'the shortest connecting segment ends on the second segment')
    else:
        same(r.intersect_type is NONE, True, 'segments not closer than the tolerance are not reported')


def s_segments_default_tolerance():
    a, b = pairs()
    n = a.shortest_segment(b).seglen
    st, r = outcome(a.intersect, b, 'almost')
    assume(st == 'ok')
    same(bool(r), n < 1e-5, 'the default tolerance is 1e-5')


def s_default_tolerance_literal():
    d = choose(0.0, 0.9e-5, 1.1e-5, 0.01)
    o = point('o', 2)
    a = Segment(o, o + Point([1.0, 0.0]))
    b = Segment(o + Point([0.0, d]), o + Point([1.0, 1.0 + d]))
    st, r = outcome(a.intersect, b, 'almost')
    assume(st == 'ok')
    same(bool(r), d < 1e-5, 'segments at a distance of ' + str(d))


def s_tolerance_literal():
    """tolerances of any magnitude are taken as given"""
    tol = choose(1e-12, 1e-9, 1e-7, 1e-3, 10.0, 1e6)
    k = choose(0.5, 2.0)
    d = tol * k
    o = np.zeros(2)
    e = np.array([1.0, 0.0])
    h = np.array([0.0, d])
    a = Segment(Point(o), Point(o + e))
    b = Segment(Point(o + h), Point(o + h + h + h + e))
    st, r = outcome(a.intersect, b, 'almost', dist_tol=tol)
    same(st, 'ok', 'the almost method gives a result')
    assume(st == 'ok')
    same(bool(r), k < 1.0, 'segments at a distance of ' + str(d) + ' for a tolerance of ' + str(tol))


def s_curves():
    """every pair closer than the tolerance, and only those"""
    dim = choose(2, 3, 4)
    c, d = curve('c', 2, dim=dim, par=False), curve('d', 2, dim=dim, par=False)
    tol = real('tol', 'pos')
    r = c.intersect(d, 'almost', dist_tol=tol)
    for x in r:
        same(x.intersect_type is ALMOST, True, 'a reported pair is an almost intersection')
        s = x.intersect_segment
        holds(s.seglen < tol + 1e-9, 'only pairs closer than the tolerance are reported')
        want = x.segment1.shortest_segment(x.segment2)
        same(s.p1.data, want.p1.data, 'the connecting segment starts on the segment of the first curve')
        same(s.p2.data, want.p2.data, 'the connecting segment ends on the segment of the second curve')


def s_curves_count():
    c, d = curve('c', n=2, dim=2, par=False), curve('d', 2, dim=2, par=False)
    tol = real('tol', 'pos')
    r = c.intersect(d, 'almost', dist_tol=tol)
    s = c.segments[0]
    k = nat('k', 0)
    assume(k < d.size - 1)
    n = s.shortest_segment(d.segments[k]).seglen
    hit = np.any(np.array([int(x.segment2.idx) for x in r], dtype=np.int64) == k)
    same(bool(hit), bool(n < tol), 'a pair is reported exactly if it is closer than the tolerance')


def s_segment_and_curve():
    dim = 2
    a, d = segment('a', dim), curve('d', 2, dim=dim, par=False)
    tol = real('tol', 'pos')
    r = a.intersect(d, 'almost', dist_tol=tol) if choose(True, False) else d.intersect(a, 'almost', dist_tol=tol)
    for x in r:
        s = x.intersect_segment
        want = x.segment1.shortest_segment(x.segment2)
        same(s.p1.data, want.p1.data, 'the connecting segment starts on the first operand')
        same(s.p2.data, want.p2.data, 'the connecting segment ends on the second operand')


def s_options_off():
    """both options are off unless requested"""
    dim = 2
    c = curve('c', 2, dim=dim, par=False)
    d = choose(c, curve('d', 2, dim=dim, par=False), segment('d', dim))
    tol = real('tol', 'pos')
    r = c.intersect(d, 'almost', dist_tol=tol)
    q = c.intersect(d, 'almost', dist_tol=tol, remove_extra=False, correct_overlap=False)
    same(len(r), len(q), 'options are off unless requested')
    for x in r:
        same(x.intersect_type is ALMOST, True, 'no overlap correction unless requested')


def s_options_off_segments():
    a, b = pairs()
    st, r = outcome(a.intersect, b, 'almost', dist_tol=real('tol', 'pos'))
    assume(st == 'ok')
    same(r.intersect_type is OVERLAP, False, 'no overlap correction unless requested')


def s_overlap_correction():
    a, b = pairs()
    tol = real('tol', 'pos')
    ptol = choose(None, 1e-3, 10.0, 0.0)
    par = a.parallel(b) if ptol is None else a.parallel(b, tol=ptol)
    o = a.overlap(b, check_collinear=False)
    st, q = outcome(a.intersect, b, 'almost', dist_tol=tol)
    if ptol is None:
        st2, r = outcome(a.intersect, b, 'almost', dist_tol=tol, correct_overlap=True)
    else:
        st2, r = outcome(a.intersect, b, 'almost', dist_tol=tol, correct_overlap=True, parallel_tol=ptol)
    assume(st == 'ok' and st2 == 'ok')
    same(bool(r), bool(q), 'overlap correction neither adds nor removes intersections')
    if q and par and o is not None:
        same(r.intersect_type is OVERLAP, True, 'intersections of parallel overlapping segments become overlaps')
        if r.intersect_type is OVERLAP:
            same(r.intersect_segment.p1.data, o.p1.data, 'the overlap replaces the connecting segment')
            same(r.intersect_segment.p2.data, o.p2.data, 'the overlap replaces the connecting segment')
    elif q:
        same(r.intersect_type is ALMOST, True, 'other intersections are left alone')
        if r.intersect_type is ALMOST:
            same(r.intersect_segment.p1.data, q.intersect_segment.p1.data, 'other intersections are left alone')
            same(r.intersect_segment.p2.data, q.intersect_segment.p2.data, 'other intersections are left alone')
    same(r.segment1 is a and r.segment2 is b, True, 'overlap correction keeps the segments')


def s_overlap_correction_curves():
    c, d = curve('c', 2, dim=2, par=False), curve('d', 2, dim=2, par=False)
    tol = real('tol', 'pos')
    ptol = choose(None, 10.0)
    r = c.intersect(d, 'almost', dist_tol=tol, correct_overlap=True) if ptol is None else c.intersect(d, 'almost', dist_tol=tol, correct_overlap=True, parallel_tol=ptol)
    q = c.intersect(d, 'almost', dist_tol=tol)
    same(len(r), len(q), 'overlap correction neither adds nor removes intersections')
    for x in r:
        a, b = x.segment1, x.segment2
        same(a.curve is c and b.curve is d, True, 'overlap correction keeps the segments')
        par = a.parallel(b) if ptol is None else a.parallel(b, tol=ptol)
        o = a.overlap(b, check_collinear=False)
        if par and o is not None:
            same(x.intersect_type is OVERLAP, True, 'intersections of parallel overlapping segments become overlaps')
        else:
            same(x.intersect_type is ALMOST, True, 'other intersections are left alone')


def remaining(k, c, d, etol, **params):
    """k pairs of segments; positions that remain, groups by chains of close intersection points"""
    concretise()
    q = c.intersect(d, 'almost', dist_tol=1000.0)
    assume(len(q) == k)
    r = c.intersect(d, 'almost', dist_tol=1000.0, remove_extra=True, **params)
    p = [x.intersect_point.data for x in q]
    group = list(range(k))
    for i in range(k):
        for j in range(i + 1, k):
            if np.sqrt(np.sum((p[i] - p[j]) ** 2)) < etol:
                a, b = group[i], group[j]
                group = [a if g == b else g for g in group]
    pos = [(int(x.segment1.idx), int(x.segment2.idx)) for x in q]
    kept = []
    for x in r:
        kept.append(pos.index((int(x.segment1.idx), int(x.segment2.idx))))
    return q, r, group, kept


def s_remove_extra():
    k = choose(2, 3)
    c, d = curve('c', n=k + 1, dim=2, par=False), curve('d', n=2, dim=2, par=False)
    etol = real('etol', 'pos')
    q, r, group, kept = remaining(k, c, d, etol, extra_tol=etol)
    same(kept, sorted(set(kept)), 'the remaining intersections keep their order')
    for g in set(group):
        members = [i for i in range(k) if group[i] == g]
        left = [i for i in members if i in kept]
        same(len(left), 1, 'exactly one intersection of each group remains')
        if len(left) == 1:
            n = q[left[0]].intersect_segment.seglen
            for i in members:
                holds(n <= q[i].intersect_segment.seglen + 1e-12, 'one with the shortest connecting segment remains')


def s_remove_extra_long():
    """groups of many intersections, chained"""
    y = choose([0.5, 0.4, 0.3, 0.2, 0.6, 0.1, 0.7], [0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8], [0.3, 0.9, 0.2, 0.9, 0.1, 0.9, 0.4], [0.9, 0.7, 0.5, 0.3, 0.1])
    x = np.arange(len(y)) * 0.5
    c = Curve(np.stack((x, np.array(y)), axis=1))
    d = choose(Curve(np.array([[-50.0, 0.0], [50.0, 0.0]])), Curve(np.array([[50.0, 0.0], [-50.0, 0.0]])))
    etol = choose(0.3, 0.7, 1.2, 100.0)
    q, r, group, kept = remaining(len(y) - 1, c, d, etol, extra_tol=etol)
    same(kept, sorted(set(kept)), 'the remaining intersections keep their order')
    for g in set(group):
        members = [i for i in range(len(group)) if group[i] == g]
        left = [i for i in members if i in kept]
        same(len(left), 1, 'exactly one intersection of each group remains')
        if len(left) == 1:
            n = q[left[0]].intersect_segment.seglen
            for i in members:
                holds(n <= q[i].intersect_segment.seglen + 1e-12, 'one with the shortest connecting segment remains')


def s_remove_extra_self():
    """self-intersections, and intersections with segments"""
    k = choose(1, 3)
    c = curve('c', n=4 if k == 1 else 5, dim=2, par=False)
    etol = real('etol', 'pos')
    q, r, group, kept = remaining(k, c, c, etol, extra_tol=etol)
    same(kept, sorted(set(kept)), 'the remaining self-intersections keep their order')
    for g in set(group):
        members = [i for i in range(k) if group[i] == g]
        same(len([i for i in members if i in kept]), 1, 'exactly one self-intersection of each group remains')


def s_remove_extra_changes_nothing_else():
    k = 2
    c, d = curve('c', n=k + 1, dim=2, par=False), curve('d', n=2, dim=2, par=False)
    etol = real('etol', 'pos')
    q, r, group, kept = remaining(k, c, d, etol, extra_tol=etol)
    for n, i in enumerate(kept):
        same(r[n].intersect_type is ALMOST, True, 'the type of a remaining intersection')
        same(r[n].intersect_segment.p1.data, q[i].intersect_segment.p1.data, 'the connecting segment of a remaining intersection')
        same(r[n].intersect_segment.p2.data, q[i].intersect_segment.p2.data, 'the connecting segment of a remaining intersection')
        same(r[n].segment1.curve is c and r[n].segment2.curve is d, True, 'the segments of a remaining intersection')


def s_remove_extra_default():
    """the default tolerance is 1e-3"""
    k = 2
    gap = choose(0.0, 0.9e-3, 1.1e-3, 0.1)
    c = Curve(np.array([[0.0, 0.0], [1.0, 0.0], [1.0, 1.0]]))
    d = Curve(np.array([[1.0 - gap, 0.0], [1.0 - gap, 2.0]]))
    concretise()
    q = c.intersect(d, 'almost', dist_tol=0.2)
    r = c.intersect(d, 'almost', dist_tol=0.2, remove_extra=True)
    same(len(q), 2, 'two intersections')
    same(len(r), 1 if gap / 2 < 1e-3 else 2, 'intersection points at a distance of about ' + str(gap / 2))


def s_remove_extra_none():
    """no intersection to remove"""
    c, d = curve('c', 2, dim=2, par=False), curve('d', 2, dim=2, par=False)
    tol = real('tol', 'pos')
    q = c.intersect(d, 'almost', dist_tol=tol)
    assume(len(q) == 0)
    same(len(c.intersect(d, 'almost', dist_tol=tol, remove_extra=True)), 0, 'nothing to remove')


def s_remove_extra_one():
    c, d = curve('c', n=2, dim=2, par=False), curve('d', n=2, dim=2, par=False)
    concretise()
    q = c.intersect(d, 'almost', dist_tol=1000.0)
    assume(len(q) == 1)
    st, r = outcome(c.intersect, d, 'almost', dist_tol=1000.0, remove_extra=True)
    same(st, 'ok', 'a single intersection')
    if st == 'ok':
        same(len(r), 1, 'a single intersection remains')


def s_both_options():
    """overlap correction of the remaining intersections"""
    concretise()
    c, d = curve('c', n=3, dim=2, par=False), curve('d', n=2, dim=2, par=False)
    etol = real('etol', 'pos')
    q = c.intersect(d, 'almost', dist_tol=1000.0, remove_extra=True, extra_tol=etol)
    r = c.intersect(d, 'almost', dist_tol=1000.0, remove_extra=True, extra_tol=etol, correct_overlap=True)
    same(len(r), len(q), 'overlap correction neither adds nor removes intersections')
    for a, b in zip(q, r):
        same(int(a.segment1.idx), int(b.segment1.idx), 'overlap correction keeps the segments')
        o = a.segment1.overlap(a.segment2, check_collinear=False)
        if a.segment1.parallel(a.segment2) and o is not None:
            same(b.intersect_type is OVERLAP, True, 'intersections of parallel overlapping segments become overlaps')
        else:
            same(b.intersect_type is ALMOST, True, 'other intersections are left alone')


def s_curves_integer():
    """integer coordinates: every pair closer than the tolerance, and only those"""
    t = choose('int64', 'uint8')
    dim = choose(2, 3)
    c, d = curve('c', n=2, dim=dim, par=False, dtype=t), curve('d', 2, dim=dim, par=False, dtype=t)
    tol = choose(1e-5, real('tol', 'pos'))
    r = c.intersect(d, 'almost', dist_tol=tol)
    for x in r:
        s = x.intersect_segment
        holds(s.seglen < tol + 1e-9, 'only pairs closer than the tolerance are reported')
        want = x.segment1.shortest_segment(x.segment2)
        same(s.p1.data, want.p1.data, 'the connecting segment starts on the segment of the first curve')
        same(s.p2.data, want.p2.data, 'the connecting segment ends on the segment of the second curve')
    k = nat('k', 0)
    assume(k < d.size - 1)
    n = c.segments[0].shortest_segment(d.segments[k]).seglen
    assume(n < 0.9 * tol or n > 1.1 * tol)
    hit = np.any(np.array([int(x.segment2.idx) for x in r], dtype=np.int64) == k)
    same(bool(hit), bool(n < tol), 'a pair is reported exactly if it is closer than the tolerance')


def s_zero_tolerance():
    """a distance is never below zero"""
    c, d = choose((Curve([[0.0, 1.0], [0.0, 1.0]]), Curve([[0.0, 1.0], [1.0, 0.0]])), (curve('c', n=2, dim=2, par=False), curve('d', n=2, dim=2, par=False)))
    tol = choose(0.0, 0)
    same(len(c.intersect(d, 'almost', dist_tol=tol)), 0, 'a tolerance of zero reports nothing')
    same(bool(c.segments[0].intersect(d.segments[0], 'almost', dist_tol=tol)), False, 'a tolerance of zero reports nothing')


def s_zero_parallel_tolerance():
    """no determinant is below zero: nothing counts as parallel"""
    a = Segment(Point([0.0, 0.0]), Point([1.0, 0.0]))
    b = choose(a, Segment(Point([0.5, 0.0]), Point([2.0, 0.0])), Segment(Point([1.0, 0.0]), Point([0.0, 0.0])))
    tol = choose(0.0, 0, -1.0)
    r = a.intersect(b, 'almost', correct_overlap=True, parallel_tol=tol)
    same(r.intersect_type is ALMOST, True, 'nothing is parallel within a tolerance of zero')
    q = a.intersect(b, 'almost', correct_overlap=True)
    same(q.intersect_type is OVERLAP, True, 'parallel within the default tolerance')
