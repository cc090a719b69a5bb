Q = ['t', 'cumarclen', 'firstderiv', 'secondderiv', 'thirdderiv', 'tangent', 'speed', 'normal', 'binormal', 'frenet1', 'frenet2', 'frenet3', 'curvature', 'torsion']


def s_point():
    dim = choose(2, 3, 4)
    c = curve(nmin=3, dim=dim)
    i = pt(c, 'i')
    q = choose(*Q)
    order = choose('point first', 'curve first')
    if order == 'point first':
        got = getattr(c[i], q)
        want = getattr(Curve(c), q)
    else:
        want = getattr(c, q)
        got = getattr(c[i], q)
    same(got, want[i], q + ' of a point is the entry of the curve quantity')


def s_point_short():
    """curves of one and two points"""
    n = choose(1, 2)
    c = curve(n=n)
    q = choose(*Q)
    i = n - 1
    same(getattr(c[i], q), getattr(c, q)[i], q + ' of a point of a short curve')


def s_point_negative():
    c = curve(nmin=3, dim=choose(2, 3, 4), par=False)
    q = choose(*Q)
    k = nat('k', 1)
    assume(k <= c.size)
    same(getattr(c[-k], q), getattr(c, q)[c.size - k], q + ' of a point counted from the end')


def s_point_other_dims():
    c = curve(nmin=3, dim=4, par=False)
    q = choose(*Q)
    i = pt(c, 'i')
    same(getattr(c[i], q), getattr(c, q)[i], q + ' of a point in four dimensions')


def s_whole_curve():
    """quantities of a point are computed on the whole curve, not on a piece of it"""
    c = curve(n=6, dim=2, par=False)
    d = c.data
    q = choose('firstderiv', 'secondderiv', 'thirdderiv', 'cumarclen', 'curvature', 'frenet1')
    full = getattr(Curve(d), q)
    for i in range(6):
        same(getattr(c[i], q), full[i], q + ' of a point is computed on the whole curve')


def s_several_points():
    """one query does not influence the other"""
    c = curve(nmin=4, dim=3, par=False)
    i, j = pt(c, 'i'), pt(c, 'j')
    p, r = c[i], c[j]
    q = choose('firstderiv', 'curvature', 'torsion', 'cumarclen', 'frenet1', 'normal')
    a = getattr(p, q)
    b = getattr(r, q)
    full = getattr(Curve(c), q)
    same(a, full[i], q + ' of the first point')
    same(b, full[j], q + ' of the second point')
    same(getattr(p, q), full[i], q + ' of the first point asked again')


def s_two_curves():
    """points of two curves with the same index"""
    c = curve('c', 3, 2, False)
    e = curve('e', 3, 2, False)
    q = choose(*Q)
    a = getattr(c[1], q)
    b = getattr(e[1], q)
    same(a, getattr(c, q)[1], q + ' belongs to the first curve')
    same(b, getattr(e, q)[1], q + ' belongs to the second curve')


def s_t_parametric():
    c = curve(nmin=1, par=True)
    i = pt(c, 'i')
    same(c[i].t, c.t[i], 'parameter value of a point')
    same(c[i].cumarclen, c.cumarclen[i], 'cumulative arc length of a point of a parametric curve')


def s_segment():
    c = curve(nmin=2)
    i = nat('i', 0)
    assume(i < c.size - 1)
    s = choose('list', 'direct')
    s = c.segments[i] if s == 'list' else CurveSegment(c, i)
    same(s.p1.data, c.data[i], 'segment starts at the point of its index')
    same(s.p2.data, c.data[i + 1], 'segment ends at the next point')
    same(typename(s.p1), 'CurvePoint', 'segment starts at a curve point')
    same(typename(s.p2), 'CurvePoint', 'segment ends at a curve point')
    same(s.p1.idx, i, 'index of the first end')
    same(s.p2.idx, i + 1, 'index of the second end')
    same(is_same(s.p1.curve, c), True, 'first end belongs to the curve')
    same(is_same(s.p2.curve, c), True, 'second end belongs to the curve')
    same(s.chordlen, c.chordlen[i], 'chord length of a segment')
    same(s.chordlen, dist(c.data[i], c.data[i + 1]), 'chord length is the length')
    same(s.seglen, c.chordlen[i], 'segment length is the chord length')


def s_segment_negative():
    c = curve(nmin=3)
    k = nat('k', 1)
    assume(k <= c.size - 1)
    s = CurveSegment(c, -k)
    same(s.chordlen, c.chordlen[c.size - 1 - k], 'chord length of a segment counted from the end')
    same(s.p1.t, c.t[c.size - 1 - k], 'parameter of the first end')
    same(s.p2.t, c.t[c.size - k], 'parameter of the second end')


def s_segment_quantities():
    c = curve(nmin=4, dim=choose(2, 3, 4), par=False)
    i = nat('i', 0)
    assume(i < c.size - 1)
    q = choose(*Q)
    s = c.segments[i]
    same(getattr(s.p1, q), getattr(c, q)[i], q + ' of the first end of a segment')
    same(getattr(s.p2, q), getattr(c, q)[i + 1], q + ' of the second end of a segment')


def s_subcurve_point():
    """a point of a sub-curve reports the quantities of the sub-curve"""
    c = curve(nmin=5, dim=2, par=False)
    e = c[1:]
    q = choose('cumarclen', 't', 'firstderiv')
    same(getattr(e[0], q), getattr(Curve(c.data[1:]), q)[0], q + ' of a point of a sub-curve')


def s_integer_types():
    """quantities of the points of an integer curve are those of the curve"""
    c, f = twins(nmin=3, dim=choose(2, 3, 4))
    i = pt(c, 'i')
    for q in ('t', 'cumarclen', 'firstderiv', 'frenet1', 'curvature'):
        same(getattr(c[i], q), getattr(c, q)[i], q + ' of a point of an integer curve')
        same(getattr(c[i], q), getattr(f[i], q), q + ' of a point of an integer curve')
    same(c[i].data, f.data[i], 'coordinates of a point of an integer curve')


def s_integer_segments():
    c, f = twins(nmin=2, dim=choose(2, 3))
    i = nat('i', 0)
    assume(i < c.size - 1)
    s = c.segments[i]
    same(s.chordlen, c.chordlen[i], 'chord length of a segment of an integer curve')
    same(s.chordlen, f.segments[i].chordlen, 'chord length of a segment of an integer curve')
    same(s.chordlen, dist(f.data[i], f.data[i + 1]), 'chord length is the length')
    same(s.seglen, f.chordlen[i], 'segment length is the chord length')
    same(s.p1.t, c.t[i], 'parameter of the first end')
    same(s.p2.cumarclen, f.cumarclen[i + 1], 'cumulative arc length of the second end')


def s_any_parameter():
    """parameter values need not increase"""
    n = nat('n', 1)
    d = choose(2, 3)
    t = arr('t', (n,))
    c = Curve(arr('data', (n, d)), tdata=t)
    i = nat('i', 0)
    assume(i < n)
    same(c[i].t, t[i], 'parameter of a point')
    same(c[0].t, t[0], 'parameter of the first point')
    same(c[-1].t, t[n - 1], 'parameter of the last point')
    same(c.t, t, 'parameter vector')
    e = Curve(np.array([[0.0, 1.0], [2.0, 0.0], [1.0, 1.0]]), tdata=[2.0, 1.0, 1.0])
    for k in range(3):
        same(e[k].t, [2.0, 1.0, 1.0][k], 'parameter of a point')
        same(e[k - 3].t, [2.0, 1.0, 1.0][k], 'parameter of a point')
