def s_point():
    c = curve(nmin=1)
    how = choose('plain', 'numpy', 'one')
    i = pt(c, 'i')
    if how == 'numpy':
        i = np.int64(0)
    elif how == 'one':
        i = 0
    p = c[i]
    same(typename(p), 'CurvePoint', 'curve point')
    same(p.idx, i, 'index of a point')
    same(p.data, c.data[i], 'coordinates at the index')
    same(is_same(p.curve, c), True, 'owning curve')


def s_point_negative():
    c = curve(nmin=1)
    k = nat('k', 1)
    assume(k <= c.size)
    p = c[-k]
    same(p.idx, c.size - k, 'index counted from the end')
    same(p.data, c.data[c.size - k], 'coordinates counted from the end')
    q = CurvePoint(c, -k)
    same(q.idx, c.size - k, 'index counted from the end, direct construction')
    same(q.data, c.data[c.size - k], 'coordinates counted from the end, direct construction')


def s_point_const():
    c = curve(nmin=4)
    p = c[choose(-1, -2, -4)]
    d = c.data
    same(p.idx >= 0, True, 'index is not negative')
    same(p.data, d[p.idx], 'coordinates belong to the index')
    same(c[-1].idx, c.size - 1, 'index of the last point')
    same(c[-1].data, d[c.size - 1], 'coordinates of the last point')


def s_point_out():
    c = curve(nmin=0)
    k = nat('k', 0)
    assume(k >= c.size)
    raises(lambda: c[k], IndexError, 'point index behind the end')
    raises(lambda: CurvePoint(c, k), IndexError, 'point index behind the end, direct construction')
    m = nat('m', 1)
    assume(m > c.size)
    raises(lambda: c[-m], IndexError, 'point index before the beginning')
    raises(lambda: CurvePoint(c, -m), IndexError, 'point index before the beginning, direct construction')


def s_point_out_one():
    d = curve('d', 1)
    raises(lambda: d[np.int64(d.size)], IndexError, 'size as a numpy integer is no point index')
    raises(lambda: d[np.int64(-d.size - 1)], IndexError, 'minus size minus one as a numpy integer is no point index')
    raises(lambda: CurvePoint(d, np.int64(-d.size - 2)), IndexError, 'numpy integer before the beginning, direct construction')
    same(d[np.int64(-d.size)].idx, 0, 'minus size as a numpy integer is the first point')
    same(d[np.int64(-1)].idx, d.size - 1, 'minus one as a numpy integer is the last point')
    c = curve(nmin=1)
    raises(lambda: c[c.size], IndexError, 'size is no point index')
    raises(lambda: c[-c.size - 1], IndexError, 'minus size minus one is no point index')
    same(c[-c.size].idx, 0, 'minus size is the first point')
    same(c[-c.size].data, c.data[0], 'minus size is the first point')


def s_segment():
    c = curve(nmin=2)
    i = nat('i', 0)
    assume(i < c.size - 1)
    d = c.data
    how = choose('direct', 'list')
    s = CurveSegment(c, i) if how == 'direct' else c.segments[i]
    same(typename(s), 'CurveSegment', 'curve segment')
    same(s.idx, i, 'index of a segment')
    same(s.p1.data, d[i], 'first point of the segment')
    same(s.p2.data, d[i + 1], 'second point of the segment')
    same(s.p1.idx, i, 'index of the first point')
    same(s.p2.idx, i + 1, 'index of the second point')
    same(is_same(s.curve, c), True, 'owning curve')


def s_segment_negative():
    c = curve(nmin=2)
    k = nat('k', 1)
    assume(k <= c.size - 1)
    d = c.data
    s = CurveSegment(c, -k)
    j = c.size - 1 - k
    same(s.idx, j, 'segment index counted from the end')
    same(s.p1.data, d[j], 'first point of the segment counted from the end')
    same(s.p2.data, d[j + 1], 'second point of the segment counted from the end')
    same(s.p1.idx, j, 'index of the first point, counted from the end')
    same(s.p2.idx, j + 1, 'index of the second point, counted from the end')


def s_segment_const():
    c = curve(nmin=5)
    k = choose(-1, -2, -4, 0, 1, 3)
    s = CurveSegment(c, k)
    want = k if k >= 0 else c.size - 1 + k
    same(s.idx, want, 'segment index')
    same(s.data, c.data[want:want + 2], 'end points of the segment')


def s_segment_out():
    c = curve(nmin=1)
    k = nat('k', 0)
    assume(k >= c.size - 1)
    raises(lambda: CurveSegment(c, k), ValueError, 'segment index behind the end')
    m = nat('m', 1)
    assume(m > c.size - 1)
    raises(lambda: CurveSegment(c, -m), ValueError, 'segment index before the beginning')


def s_segments_list():
    c = curve(nmin=1)
    same(len(c.segments), c.size - 1, 'number of segments')


def s_segment_list_negative():
    c = curve(n=4)
    ss = c.segments
    same(len(ss), 3, 'number of segments')
    same(ss[-1].idx, 2, 'last segment')
    for i in range(3):
        same(ss[i].idx, i, 'segment index')
        same(ss[i].data, c.data[i:i + 2], 'end points')


def s_segments_empty():
    c = curve(n=choose(0, 1))
    same(len(c.segments), 0, 'no segments')


def s_subcurve():
    c = curve(nmin=2)
    d = c.data
    i, j = pt(c, 'i'), pt(c, 'j')
    assume(i <= j)
    got = c[i].subcurve(c[j])
    same(got.data, d[i:j + 1], 'sub-curve includes the end point by default')
    same(got.size, j - i + 1, 'size of the sub-curve')
    got = c[i].subcurve(c[j], endpoint=True)
    same(got.data, d[i:j + 1], 'sub-curve with the end point')


def s_subcurve_open():
    c = curve(nmin=2)
    d = c.data
    i, j = pt(c, 'i'), pt(c, 'j')
    assume(i < j)
    got = c[i].subcurve(c[j], endpoint=False)
    same(got.data, d[i:j], 'sub-curve without the end point')
    got = c[i].subcurve(c[j], False)
    same(got.data, d[i:j], 'sub-curve without the end point, by position')


def s_subcurve_negative():
    """points obtained by negative indices"""
    c = curve(nmin=4)
    d = c.data
    same(c[-3].subcurve(c[-1]).data, d[c.size - 3:], 'sub-curve to the last point')
    same(c[0].subcurve(c[-1]).data, d, 'sub-curve of all points')
    same(c[-4].subcurve(c[-2], endpoint=False).data, d[c.size - 4:c.size - 2], 'sub-curve between points counted from the end')


def s_subcurve_foreign():
    c = curve('c', 2, 2)
    e = curve('e', 2, 2)
    raises(c[0].subcurve, ValueError, 'point of another curve', e[1])
    raises(c[0].subcurve, ValueError, 'point of an equal copy', Curve(c)[1])
    raises(c[0].subcurve, TypeError, 'plain point', Point(arr('x', (2,))))
    raises(c[0].subcurve, TypeError, 'number', 1)


def s_frozen_index():
    c = curve(nmin=2)
    p = c[0]
    s = c.segments[0]
    for o in (p, s):
        for name in ('idx', 'curve'):
            raises(setattr, AttributeError, 'index and curve cannot be reassigned', o, name, 1)


def s_subcurve_one():
    """from a point to itself"""
    c = curve(nmin=1)
    d = c.data
    i = pt(c, 'i')
    same(c[i].subcurve(c[i]).data, d[i:i + 1], 'sub-curve of a point with itself')
    same(c[i].subcurve(c[i], endpoint=False).size, 0, 'open sub-curve of a point with itself')
    same(c[-1].subcurve(c[c.size - 1], endpoint=False).size, 0, 'open sub-curve of the last point with itself')
    same(c[0].subcurve(c[0], endpoint=False).size, 0, 'open sub-curve of the first point with itself')
