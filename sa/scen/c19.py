from skcurve import IntersectionInfo, IntersectionType, SegmentsIntersection, NOT_INTERSECTED, get_intersect_method
from skcurve._intersect import IntersectionMethodBase

NONE, EXACT, OVERLAP, ALMOST = IntersectionType.NONE, IntersectionType.EXACT, IntersectionType.OVERLAP, IntersectionType.ALMOST


def s_none():
    dim = choose(2, 3, 4)
    r = SegmentsIntersection(segment('a', dim), segment('b', dim), NOT_INTERSECTED)
    same(bool(r), False, 'no intersection is false')
    same(r.intersect_type is NONE, True, 'type without intersection')
    same(r.intersect_point is None, True, 'no point without intersection')
    same(r.intersect_segment is None, True, 'no segment without intersection')
    same(NOT_INTERSECTED.data is None, True, 'no data without intersection')


def s_none_call():
    i = choose(NONE(), NONE(None))
    same(i.data is None, True, 'NONE carries no data')
    same(i.type is NONE, True, 'type of NONE')
    r = SegmentsIntersection(segment('a'), segment('b'), i)
    same(bool(r), False, 'NONE is false')


def s_exact():
    dim = choose(2, 3, 4)
    a, b, p = segment('a', dim), segment('b', dim), point('p', dim)
    i = EXACT(p)
    same(i.data is p, True, 'EXACT carries the point')
    same(i.type is EXACT, True, 'type of EXACT')
    r = SegmentsIntersection(a, b, i)
    same(bool(r), True, 'an exact intersection is true')
    same(r.intersect_type is EXACT, True, 'type of an exact intersection')
    same(r.segment1 is a, True, 'first segment')
    same(r.segment2 is b, True, 'second segment')
    same(r.intersect_info is i, True, 'information of the intersection')
    same(r.intersect_point.data, p.data, 'the intersection point is the point itself')
    same(r.intersect_segment.p1.data, p.data, 'the intersection segment starts at the point')
    same(r.intersect_segment.p2.data, p.data, 'the intersection segment ends at the point')
    same(type(r.intersect_segment) is Segment, True, 'the intersection segment is a segment')


def s_segment_types():
    dim = choose(2, 3, 4)
    a, b, s = segment('a', dim), segment('b', dim), segment('s', dim)
    t = choose(OVERLAP, ALMOST)
    i = t(s)
    same(i.data is s, True, 'the data is the segment')
    same(i.type is t, True, 'type of the information')
    r = SegmentsIntersection(a, b, i)
    same(bool(r), True, 'an overlap or almost intersection is true')
    same(r.intersect_type is t, True, 'type of the intersection')
    same(r.intersect_point.data, (s.p1.data + s.p2.data) / 2, 'the intersection point is the midpoint of the segment')
    same(r.intersect_segment is s, True, 'the intersection segment is the segment itself')
    same(r.segment1 is a and r.segment2 is b, True, 'segments of the intersection')


def s_curve_points():
    """points and segments of curves are points and segments"""
    c = curve(nmin=2, dim=2)
    i = pt(c, 'i')
    same(EXACT(c[i]).type is EXACT, True, 'a curve point is a point')
    k = nat('k', 0)
    assume(k < c.size - 1)
    t = choose(OVERLAP, ALMOST)
    same(t(c.segments[k]).type is t, True, 'a curve segment is a segment')


def s_wrong_data():
    p, s = point('p', 2), segment('s', 2)
    k = choose('none', 'exact', 'overlap', 'almost')
    if k == 'none':
        raises(NONE, ValueError, 'NONE with data', choose(p, s, 0, '', False, np.array([0.0, 0.0]), (), []))
    elif k == 'exact':
        raises(EXACT, ValueError, 'EXACT without a point', choose(s, None, np.array([0.0, 0.0]), (0.0, 0.0), 1, curve(nmin=2, dim=2)))
    elif k == 'overlap':
        raises(OVERLAP, ValueError, 'OVERLAP without a segment', choose(p, None, np.array([0.0, 0.0]), (p, p), curve(nmin=2, dim=2)))
    else:
        raises(ALMOST, ValueError, 'ALMOST without a segment', choose(p, None, np.array([0.0, 0.0]), (p, p), curve(nmin=2, dim=2)))


def s_missing_data():
    raises(EXACT, ValueError, 'EXACT without data')
    raises(OVERLAP, ValueError, 'OVERLAP without data')
    raises(ALMOST, ValueError, 'ALMOST without data')


INFO = []


class User(IntersectionMethodBase):
    """reports a given information for the given pairs of segments"""

    def _intersect_segments(self, segment1, segment2):
        return INFO[0]

    def _intersect_curves(self, curve1, curve2):
        return [SegmentsIntersection(curve1.segments[0], curve2.segments[0], INFO[0]),
                SegmentsIntersection(curve1.segments[0], curve2.segments[-1], INFO[1]),
                SegmentsIntersection(curve1.segments[-1], curve2.segments[0], INFO[2])]


def infos():
    p, q, s = point('p'), point('q'), segment('s')
    INFO.clear()
    INFO.extend([EXACT(p), OVERLAP(s), EXACT(q)])


def s_segments():
    infos()
    k = choose(0, 1)
    a, b = segment('a'), segment('b')
    INFO[0] = choose(INFO[0], INFO[1], NOT_INTERSECTED)
    r = a.intersect(b, method=User())
    same(type(r) is SegmentsIntersection, True, 'the intersection of two segments is one result')
    same(r.segment1 is a, True, 'the first segment is the first operand')
    same(r.segment2 is b, True, 'the second segment is the second operand')
    same(r.intersect_info is INFO[0], True, 'the result carries the information of the method')


def s_segment_order_at_method():
    seen = []

    class M(IntersectionMethodBase):
        def _intersect_segments(self, segment1, segment2):
            seen.append((segment1, segment2))
            return NOT_INTERSECTED

        def _intersect_curves(self, curve1, curve2):
            seen.append((curve1, curve2))
            return []
    k = choose('segments', 'curves', 'segment curve', 'curve segment', 'self', 'self explicit')
    if k == 'segments':
        a, b = segment('a'), segment('b')
        a.intersect(b, method=M())
        same(seen[0][0] is a and seen[0][1] is b, True, 'order of two segments')
    elif k == 'curves':
        a, b = curve('a', 2, dim=2), curve('b', 2, dim=2)
        a.intersect(b, method=M())
        same(seen[0][0] is a and seen[0][1] is b, True, 'order of two curves')
    elif k == 'segment curve':
        a, b = segment('a'), curve('b', 2, dim=2)
        a.intersect(b, method=M())
        same(seen[0][0].data, np.vstack((a.p1.data, a.p2.data)), 'the segment comes first')
        same(seen[0][1] is b, True, 'the curve comes second')
    elif k == 'curve segment':
        a, b = curve('a', 2, dim=2), segment('b')
        a.intersect(b, method=M())
        same(seen[0][0] is a, True, 'the curve comes first')
        same(seen[0][1].data, np.vstack((b.p1.data, b.p2.data)), 'the segment comes second')
    else:
        a = curve('a', 2, dim=2)
        if k == 'self':
            a.intersect(method=M())
        else:
            a.intersect(a, method=M())
        same(seen[0][0] is a and seen[0][1] is a, True, 'self-intersection intersects the curve with itself')
    same(len(seen), 1, 'the method is used once')


def s_curve_curve():
    infos()
    a, b = curve('a', 2, dim=2), curve('b', 2, dim=2)
    r = a.intersect(b, method=User())
    same(len(r), 3, 'number of intersections')
    for k in range(3):
        same(r[k].intersect_info is INFO[k], True, 'information of the intersections in their order')
        same(r[k].segment1.curve is a, True, 'first segment of the first curve')
        same(r[k].segment2.curve is b, True, 'second segment of the second curve')
    same(r[1].segment2.idx, b.size - 2, 'index of the segment')
    same(r[2].segment1.idx, a.size - 2, 'index of the segment')


def s_segment_curve():
    infos()
    a, b = segment('a'), curve('b', 2, dim=2)
    r = a.intersect(b, method=User())
    same(len(r), 3, 'number of intersections')
    for k in range(3):
        same(r[k].segment1 is a, True, 'the segment itself is reported first')
        same(r[k].segment2.curve is b, True, 'the second segment is of the curve')
        same(r[k].intersect_info is INFO[k], True, 'information of the intersections in their order')
    same(r[0].segment2.idx, 0, 'index of the segment')
    same(r[1].segment2.idx, b.size - 2, 'index of the segment')


def s_curve_segment():
    infos()
    a, b = curve('a', 2, dim=2), segment('b')
    r = a.intersect(b, method=User())
    same(len(r), 3, 'number of intersections')
    for k in range(3):
        same(r[k].segment2 is b, True, 'the segment itself is reported second')
        same(r[k].segment1.curve is a, True, 'the first segment is of the curve')
        same(r[k].intersect_info is INFO[k], True, 'information of the intersections in their order')
    same(r[0].segment1.idx, 0, 'index of the segment')
    same(r[2].segment1.idx, a.size - 2, 'index of the segment')


def s_curve_own_segment():
    """a segment of a curve as operand"""
    infos()
    a, b = curve('a', 3, dim=2), curve('b', 2, dim=2)
    s = a.segments[1]
    if choose(True, False):
        r = s.intersect(b, method=User())
        same(r[0].segment1 is s, True, 'the curve segment itself is reported first')
    else:
        r = b.intersect(s, method=User())
        same(r[0].segment2 is s, True, 'the curve segment itself is reported second')


def s_no_curve_intersections():
    a, b = curve('a', 2, dim=2), choose(curve('b', 2, dim=2), segment('b'))

    class M(User):
        def _intersect_curves(self, curve1, curve2):
            return []
    if choose(True, False):
        same(a.intersect(b, method=M()), [], 'no intersection')
    else:
        same(b.intersect(a, method=M()), [], 'no intersection')


def s_exact_segments():
    """results of the exact method"""
    dim = choose(2, 3, 4)
    a, b = segment('a', dim), segment('b', dim)
    st, r = outcome(a.intersect, b, 'exact')
    assume(st == 'ok')
    same(r.segment1 is a, True, 'exact method: first segment')
    same(r.segment2 is b, True, 'exact method: second segment')
    same(bool(r), r.intersect_type is not NONE, 'exact method: true exactly if not NONE')
    if r.intersect_type is NONE:
        same(r.intersect_info.data is None, True, 'exact method: NONE carries no data')
    elif r.intersect_type is EXACT:
        same(isinstance(r.intersect_info.data, Point), True, 'exact method: EXACT carries a point')
    else:
        same(r.intersect_type is OVERLAP, True, 'exact method: exact or overlap')
        same(isinstance(r.intersect_info.data, Segment), True, 'exact method: OVERLAP carries a segment')


def s_almost_segments():
    dim = choose(2, 3, 4)
    a, b = segment('a', dim), segment('b', dim)
    st, r = outcome(a.intersect, b, 'almost', dist_tol=real('tol', 'pos'), correct_overlap=choose(False, True))
    assume(st == 'ok')
    same(r.segment1 is a, True, 'almost method: first segment')
    same(r.segment2 is b, True, 'almost method: second segment')
    same(bool(r), r.intersect_type is not NONE, 'almost method: true exactly if not NONE')
    if r.intersect_type is NONE:
        same(r.intersect_info.data is None, True, 'almost method: NONE carries no data')
    else:
        same(isinstance(r.intersect_info.data, Segment), True, 'almost method: carries a segment')
        same(r.intersect_type is EXACT, False, 'almost method: almost or overlap')


def each(r, a, b, what):
    for x in r:
        same(bool(x), True, what + ': reported intersections are true')
        same(x.intersect_type is NONE, False, what + ': no reported intersection is of type NONE')
        if isinstance(a, Segment):
            same(x.segment1 is a, True, what + ': the segment itself is reported first')
        else:
            same(x.segment1.curve is a, True, what + ': the first segment is of the first curve')
        if isinstance(b, Segment):
            same(x.segment2 is b, True, what + ': the segment itself is reported second')
        else:
            same(x.segment2.curve is b, True, what + ': the second segment is of the second curve')
        if x.intersect_type is EXACT:
            same(isinstance(x.intersect_info.data, Point), True, what + ': EXACT carries a point')
        else:
            same(isinstance(x.intersect_info.data, Segment), True, what + ': other types carry a segment')


def operands():
    k = choose('curves', 'segment curve', 'curve segment', 'self')
    dim = choose(2, 3, 4)
    if k == 'segment curve':
        return segment('a', dim), curve('b', 2, dim=dim, par=False)
    a = curve('a', 2, dim=dim, par=False)
    return a, (a if k == 'self' else (segment('b', dim) if k == 'curve segment' else curve('b', 2, dim=dim, par=False)))


def s_exact_curves():
    a, b = operands()
    st, r = outcome(a.intersect, b, 'exact')
    assume(st == 'ok')
    each(r, a, b, 'exact method')


def s_almost_curves():
    a, b = operands()
    st, r = outcome(a.intersect, b, 'almost', dist_tol=real('tol', 'pos'), correct_overlap=choose(False, True), remove_extra=choose(False, True))
    assume(st == 'ok')
    each(r, a, b, 'almost method')


def s_foreign_operand():
    """only segments and curves intersect"""
    dim = choose(2, 3)
    a = choose(segment('a', dim), curve(name='c', nmin=2, dim=dim))
    foreign = choose(point('p', dim), arr('m', (2, dim)), 3, None, 'exact', [1.0, 2.0])
    if foreign is not None:
        k, e = outcome(lambda: a.intersect(foreign))
        same(k, 'raise', 'a segment or curve intersected with something else is an error')
    m = get_intersect_method(choose('exact', 'almost'))
    raises(lambda: m(a, foreign), TypeError, 'an intersection method applied to a foreign second operand')
    raises(lambda: m(foreign, a), TypeError, 'an intersection method applied to a foreign first operand')


def s_truth():
    """the truth of a result is its type, whatever the operands"""
    dim = choose(2, 3)
    c = curve(name='c', nmin=2, dim=dim)
    i = nat('i', 0)
    assume(i < c.size - 1)
    a = choose(c.segments[i], segment('a', dim))
    p = choose(c[i], point('p', dim))
    same(bool(SegmentsIntersection(a, segment('b', dim), EXACT(p))), True, 'an exact intersection at any point is true')
    same(bool(SegmentsIntersection(a, segment('b', dim), OVERLAP(a))), True, 'an overlap by any segment is true')
    same(bool(SegmentsIntersection(a, a, NONE())), False, 'no intersection of a segment with itself is false')


def s_one_dimension():
    """results for segments of a straight line"""
    a, b, p = segment('a', 1), segment('b', 1), point('p', 1)
    for info, want in ((NONE(), False), (EXACT(p), True), (OVERLAP(a), True), (ALMOST(b), True)):
        r = SegmentsIntersection(a, b, info)
        same(bool(r), want, 'a result is true exactly if its type is not NONE')
        same(r.intersect_point is None, not want, 'a point exactly if there is an intersection')
        same(r.intersect_segment is None, not want, 'a segment exactly if there is an intersection')
    o = Segment(Point([0.0]), Point([2.0])).intersect(Segment(Point([1.0]), Point([3.0])))
    same(bool(o), True, 'overlapping segments of a straight line')
    same(o.intersect_type is OVERLAP, True, 'overlapping segments of a straight line')
    same(o.intersect_segment.data, np.array([[1.0], [2.0]]), 'overlap on a straight line')
    same(o.intersect_point.data, np.array([1.5]), 'midpoint of the overlap on a straight line')
    same(bool(Segment(Point([0.0]), Point([2.0])).intersect(Segment(Point([3.0]), Point([2.5])))), False, 'segments of a straight line that are apart')
