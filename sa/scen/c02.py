def scribble(*arrays):
    """the caller reuses its buffers"""
    for a in arrays:
        a[...] = 7


def later(get, what, *arrays):
    """the value reported does not follow changes of the caller's arrays"""
    before = get()
    if isarray(before):
        before = value(before)
    for a in arrays:
        same(frozen(a), False, what + ': the array of the caller stays writable')
    scribble(*arrays)
    same(get(), before, what + ': independent of the array of the caller')


def unchanged(what, *arrays):
    """pairs array, value before"""
    for k in range(0, len(arrays), 2):
        same(arrays[k], arrays[k + 1], what + ' leaves the array of the caller')
        same(frozen(arrays[k]), False, what + ' leaves the array of the caller writable')


# ------------------------------------------------------------ construction
def s_point_from_array():
    d = choose(2, 3, 4)
    dt = choose('float64', 'int64', 'float32')
    a = arr('a', (d,), dt)
    how = choose('default', 'dtype', 'view', 'reversed', 'column', 'frozen')
    b = a
    if how == 'default':
        p = Point(a)
    elif how == 'dtype':
        p = Point(a, dtype=dt)
    elif how == 'view':
        p = Point(a[:])
    elif how == 'reversed':
        p = Point(a[::-1])
    elif how == 'frozen':
        v = a[:]
        v.flags.writeable = False
        p = Point(v)
    else:
        b = arr('m', (4, d), dt)
        p = Point(b[1])
    later(lambda: p.data, 'point from ' + how, b)


def s_point_from_list():
    xs = [real('x'), real('y')]
    p = Point(xs)
    before = value(p.data)
    xs[0] = 7.0
    xs.append(1.0)
    same(p.data, before, 'point from a list is independent of the list')
    same(len(xs), 3, 'the list is the one of the caller')


def s_curve_from_array():
    n, d = nat('n', 1), choose(2, 3, 4)
    dt = choose('float64', 'int64', 'float32')
    how = choose('default', 'dtype', 'same dtype', 'axis', 'ndmin', 'view', 'strided', 'frozen view')
    a = arr('a', (d, n), dt) if how == 'axis' else arr('a', (n, d), dt)
    if how == 'default':
        c = Curve(a)
    elif how == 'dtype':
        c = Curve(a, dtype='float64')
    elif how == 'same dtype':
        c = Curve(a, dtype=a.dtype)
    elif how == 'axis':
        c = Curve(a, axis=1)
    elif how == 'ndmin':
        c = Curve(a, ndmin=choose(2, 4))
    elif how == 'view':
        c = Curve(a[:])
    elif how == 'strided':
        c = Curve(a[::-1])
    else:
        v = a[:]
        v.flags.writeable = False
        c = Curve(v)
    later(lambda: c.data, 'curve from ' + how, a)


def s_curve_array_then_queries():
    """quantities asked after the buffers changed are those of the original data"""
    n, d = nat('n', 3), choose(2, 3, 4)
    a = arr('a', (n, d))
    b = value(a)
    par = choose(False, True)
    t = incr('t', n) if par else None
    u = value(t) if par else None
    c = Curve(a, tdata=t)
    e = Curve(b, tdata=u)
    scribble(a)
    if par:
        scribble(t)
    for q in ('data', 't', 'chordlen', 'cumarclen', 'firstderiv', 'tangent', 'curvature'):
        same(getattr(c, q), getattr(e, q), q + ' after the caller reused the buffers')


def s_curve_from_rows():
    n = nat('n', 1)
    x, y = arr('x', (n,)), arr('y', (n,))
    cols = [x, y]
    axis = choose(None, 1)
    c = Curve(cols) if axis is None else Curve(cols, axis=axis)
    before = value(c.data)
    later(lambda: c.data, 'curve from coordinate arrays', x, y)
    cols[0] = y
    same(c.data, before, 'curve from coordinate arrays is independent of the list')
    same(len(cols), 2, 'the list of the caller keeps its items')


def s_curve_from_points():
    p, q = point('p', 2), point('q', 2)
    pts = [p, q]
    c = Curve(pts)
    before = value(c.data)
    pts.reverse()
    same(c.data, before, 'curve from points is independent of the list')
    same(is_same(pts[0], q) and is_same(pts[1], p), True, 'the list of points is the one of the caller')


def s_curve_tdata():
    n, d = nat('n', 1), 2
    how = choose('array', 'view', 'int', 'reversed twice', 'frozen view', 'list')
    if how == 'int':
        t = arr('t', (n,), 'int64', 'incr')
    else:
        t = incr('t', n)
    if how == 'view':
        c = Curve(arr('a', (n, d)), tdata=t[:])
    elif how == 'reversed twice':
        c = Curve(arr('a', (n, d)), tdata=t[::-1][::-1])
    elif how == 'frozen view':
        v = t[:]
        v.flags.writeable = False
        c = Curve(arr('a', (n, d)), tdata=v)
    elif how == 'list':
        xs = [0.0, 1.0, 3.0]
        c = Curve(arr('a', (3, d)), tdata=xs)
        before = value(c.t)
        xs[0] = 9.0
        same(c.t, before, 'parameter vector is independent of the list')
        same(len(xs), 3, 'the list keeps its items')
        return
    else:
        c = Curve(arr('a', (n, d)), tdata=t)
    later(lambda: c.t, 'parameter vector from ' + how, t)


def s_copies_of_curves():
    """writing through the handle of one object cannot reach another: all share only protected arrays"""
    c = curve(dim=2)
    e = Curve(c)
    same(rootfrozen(e.data) or not alias(e.data, c.data), True, 'a curve built from a curve shares nothing writable')
    same(rootfrozen(e.t) or not alias(e.t, c.t), True, 'a curve built from a curve shares no writable parameters')
    p = point('p', 2)
    q = Point(p)
    same(rootfrozen(q.data) or not alias(q.data, p.data), True, 'a point built from a point shares nothing writable')


# ------------------------------------------------------------ operations taking arrays and lists
def s_edit_arrays():
    n, m = nat('n', 2), nat('m', 1)
    c = curve(n=n, dim=2, par=choose(False, True))
    op = choose('insert', 'append', 'insertdim', 'appenddim', 'index', 'delete', 'mask', 'list index', 'delete list')
    if op in ('insert', 'append'):
        a = arr('b', (m, 2))
        b = value(a)
        q = Curve(a)
        r = c.insert(1, q) if op == 'insert' else c.append(q)
        unchanged(op, a, b)
        same(q.data, b, op + ' leaves the inserted curve')
        later(lambda: r.data, op, a)
    elif op in ('insertdim', 'appenddim'):
        a = arr('v', (n,), 'float64', choose('', 'nan'))
        b = value(a)
        r = c.insertdim(1, a) if op == 'insertdim' else c.appenddim(a)
        unchanged(op, a, b)
        later(lambda: r.data, op, a)
    elif op in ('index', 'delete'):
        a = indices('ix', m, n)
        b = value(a)
        r = c[a] if op == 'index' else c.delete(a)
        unchanged(op, a, b)
        later(lambda: r.data, op, a)
    elif op == 'mask':
        a = arr('mask', (n,), 'bool')
        b = value(a)
        r = c[a]
        unchanged(op, a, b)
        before = value(r.data)
        a[...] = False
        same(r.data, before, 'selection by mask is independent of the mask')
    else:
        xs = [1, 0]
        r = c[xs] if op == 'list index' else c.delete(xs)
        same(len(xs) == 2 and xs[0] == 1 and xs[1] == 0, True, op + ' leaves the list of the caller')


def s_insert_operands():
    c = curve('c', 2, dim=2, par=choose(False, True))
    x = choose('point', 'curve')
    o = point('p', 2) if x == 'point' else curve('o', 1, dim=2, par=choose(False, True))
    d, t = value(c.data), value(c.t)
    od = value(o.data)
    ot = value(o.t) if x == 'curve' else None
    op = choose('insert', 'append', 'add', 'contains', 'index', 'count', 'eq')
    if op == 'insert':
        c.insert(choose(0, -1), o)
    elif op == 'append':
        c.append(o)
    elif op == 'add':
        outcome(lambda: c + o)
    elif op == 'contains':
        o in c
    elif op == 'index':
        outcome(c.index, o)
    elif op == 'count':
        outcome(c.count, o)
    else:
        c == o
    same(c.data, d, op + ' leaves the curve')
    same(c.t, t, op + ' leaves the parameters of the curve')
    same(o.data, od, op + ' leaves the operand')
    if x == 'curve':
        same(o.t, ot, op + ' leaves the parameters of the operand')


def s_user_predicate():
    """a predicate of the caller cannot reach the curve, and its mask is not changed"""
    n = nat('n', 2)
    c = curve(n=n, dim=2, par=False)
    d = value(c.data)
    how = choose('rows', 'matrix', 'positions')
    if how == 'positions':
        mask = indices('mask', nat('k', 1), n)
    else:
        mask = arr('mask', (n,) if how == 'rows' else (n, 2), 'bool')
    keep = value(mask)
    seen = []

    def isa(x):
        seen.append(x)
        return mask
    outcome(c.drop, isa)
    same(mask, keep, 'drop leaves the mask of the caller')
    for s in seen:
        data = s.data if isinstance(s, Curve) else s
        if isarray(data):
            fact(rootfrozen(data) or not alias(data, c.data), 'the predicate gets no writable access to the curve')
    same(c.data, d, 'drop leaves the curve')


def s_results_are_separate():
    """no writable array that a method returns reaches into the object"""
    c = curve(nmin=3, dim=2)
    q = choose('values', 'values axis', 'data slice', 'segment data', 'chordlen slice', 'iterate')
    before = value(c.data)
    if q == 'values':
        rows = list(c.values())[:2]
        for v in rows:
            outcome(lambda v=v: scribble(v))
    elif q == 'values axis':
        v = c.values(axis=0)
        outcome(lambda: scribble(v))
    elif q == 'data slice':
        v = c.data[1:]
        outcome(lambda: scribble(v))
    elif q == 'segment data':
        v = c.segments[0].data
        outcome(lambda: scribble(v))
        same(c.segments[0].p1.data, before[0], 'ends of the segment after writing to its data')
        same(c.segments[0].p2.data, before[1], 'ends of the segment after writing to its data')
    elif q == 'chordlen slice':
        e = value(c.chordlen)
        v = c.chordlen[:1]
        outcome(lambda: scribble(v))
        same(c.chordlen, e, 'chord lengths after writing to a view')
    else:
        v = c[0].data
        outcome(lambda: scribble(v))
    same(c.data, before, q + ' gives no writable access to the curve')


def s_segment_results():
    a, b = arr('a', (2,)), arr('b', (2,))
    s = Segment(Point(a), Point(b))
    d = s.data
    outcome(lambda: scribble(d))
    same(s.p1.data, a, 'first end after writing to the data of the segment')
    same(s.p2.data, b, 'second end after writing to the data of the segment')
    g = s.direction.data
    outcome(lambda: scribble(g))
    same(s.p1.data, a, 'first end after writing to the direction')
    same(s.direction.data, b - a, 'direction after writing to it')


# ------------------------------------------------------------ segments
def s_segment_arrays():
    s = segment('s', 2)
    m = nat('m', 1)
    op = choose('point array', 'point list', 't array', 't list')
    if op == 'point array':
        t = arr('t', (m,))
        u = value(t)
        r = s.point(t)
        unchanged(op, t, u)
    elif op == 'point list':
        t = [0.25, 1.5]
        r = s.point(t)
        same(len(t) == 2 and t[0] == 0.25 and t[1] == 1.5, True, 'list of parameters is left alone')
        before = value(r[0].data)
        t[0] = 3.0
        same(r[0].data, before, 'points are independent of the list')
    else:
        p, q = point('p', 2), point('q', 2)
        ps = [p, q]
        x, y = value(p.data), value(q.data)
        outcome(s.t, ps)
        same(len(ps) == 2 and is_same(ps[0], p) and is_same(ps[1], q), True, 'list of points is left alone')
        same(p.data, x, 'points are left alone')
        same(q.data, y, 'points are left alone')


def s_segment_pairs():
    s, r = segment('s', 3), segment('r', 3)
    b = [value(p.data) for p in (s.p1, s.p2, r.p1, r.p2)]
    op = choose('angle', 'parallel', 'collinear', 'coplanar', 'overlap', 'distance', 'shortest', 'eq', 'angle ndigits')
    if op == 'angle':
        s.angle(r)
    elif op == 'angle ndigits':
        s.angle(r, ndigits=3)
    elif op == 'parallel':
        s.parallel(r)
    elif op == 'collinear':
        s.collinear(r)
    elif op == 'coplanar':
        s.coplanar(r)
    elif op == 'overlap':
        s.overlap(r)
    elif op == 'distance':
        s.distance(r)
    elif op == 'shortest':
        s.shortest_segment(r)
    else:
        s == r
    k = 0
    for p in (s.p1, s.p2, r.p1, r.p2):
        same(p.data, b[k], op + ' leaves both segments')
        k += 1


def s_point_arithmetic():
    x, y = arr('x', (2,)), arr('y', (2,))
    p, q = Point(x), Point(y)
    op = choose('add', 'sub', 'mul', 'div', 'radd', 'iadd', 'matmul', 'array', 'distance', 'eq', 'slice')
    z = arr('z', (2,))
    w = value(z)
    r = p
    if op == 'add':
        r = p + q
    elif op == 'sub':
        r = p - q
    elif op == 'mul':
        r = p * 2.0
    elif op == 'div':
        r = p / q
    elif op == 'radd':
        r = 1.0 + p
    elif op == 'iadd':
        r = p
        r += q
    elif op == 'matmul':
        p @ q
    elif op == 'array':
        r = p + z if False else p + q
    elif op == 'distance':
        p.distance(q)
    elif op == 'eq':
        p == q
    else:
        r = p[0:1]
    same(p.data, x, op + ' leaves the left operand')
    same(q.data, y, op + ' leaves the right operand')
    same(z, w, 'arrays are left alone')


# ------------------------------------------------------------ geometry algorithms, numeric helpers
def s_coplanar_arrays():
    from skcurve import _geomalg
    if not hasmod('skcurve._geomalg', 'coplanar_points'):
        skip()
    fn = choose('collinear_points', 'coplanar_points')
    a = arr('a', (nat('n', 3), 3))
    b = value(a)
    getattr(_geomalg, fn)(a)
    unchanged(fn, a, b)


def s_point_lists():
    from skcurve import _geomalg
    fn = choose('collinear_points', 'coplanar_points')
    p, q, r, s = point('p', 3), point('q', 3), point('r', 3), point('s', 3)
    ps = [p, q, r, s]
    b = [value(x.data) for x in ps]
    getattr(_geomalg, fn)(ps)
    same(len(ps), 4, fn + ' keeps the list')
    for k in range(4):
        same(is_same(ps[k], [p, q, r, s][k]), True, fn + ' keeps the list')
        same(ps[k].data, b[k], fn + ' leaves the points')


def s_segments_to_segments():
    from skcurve import _geomalg
    n, m = nat('n', 1), nat('m', 1)
    a, b = arr('a', (n, 2, 2)), arr('b', (m, 2, 2))
    u, v = value(a), value(b)
    outcome(_geomalg.segments_to_segments, a, b)
    same(a, u, 'segments_to_segments leaves the first array')
    same(b, v, 'segments_to_segments leaves the second array')


def s_numeric():
    from skcurve import isequal, allequal, dot1d
    n = nat('n', 1)
    a, b = arr('a', (n, 2)), arr('b', (n, 2))
    u, v = value(a), value(b)
    fn = choose('isequal', 'allequal', 'dot1d', 'allequal axis')
    if fn == 'isequal':
        isequal(a, b)
    elif fn == 'allequal':
        allequal(a, b)
    elif fn == 'dot1d':
        dot1d(a, b)
    else:
        allequal(a, b, axis=1)
    unchanged(fn, a, u, b, v)


# ------------------------------------------------------------ interpolation and smoothing
def s_interpolate_grid():
    n, m = nat('n', 4), nat('m', 2)
    c = curve(n=n, dim=2)
    d, t0 = value(c.data), value(c.t)
    g = incr('g', m)
    h = value(g)
    method = choose('linear', 'cubic', 'hermite', 'akima', 'pchip', 'spline', 'csaps')
    o = outcome(c.interpolate, g, method=method)
    unchanged('interpolate', g, h)
    same(c.data, d, 'interpolate leaves the curve')
    same(c.t, t0, 'interpolate leaves the parameters of the curve')
    if o[0] == 'ok':
        before = value(o[1].t)
        data = value(o[1].data)
        scribble(g)
        same(o[1].t, before, 'parameters of the interpolated curve are independent of the grid array')
        same(o[1].data, data, 'points of the interpolated curve are independent of the grid array')


def s_interpolate_grid_list():
    c = curve(nmin=4, dim=2, par=False)
    xs = [0.0, 1.0, 2.0]
    o = outcome(c.interpolate, xs, method='linear')
    same(len(xs) == 3 and xs[0] == 0.0 and xs[1] == 1.0 and xs[2] == 2.0, True, 'grid list is left alone')
    if o[0] == 'ok':
        before = value(o[1].t)
        xs[1] = 1.5
        same(o[1].t, before, 'parameters are independent of the grid list')


def s_interpolate_user_grid():
    """the array that a user grid keeps is neither changed nor shared"""
    from skcurve import InterpolationGrid
    g = incr('g', nat('m', 2))
    h = value(g)

    class Grid(InterpolationGrid):
        def __call__(self, curve):
            return g
    c = curve(nmin=4, dim=2)
    o = outcome(c.interpolate, Grid(), method='linear')
    unchanged('interpolate', g, h)
    if o[0] == 'ok':
        before = value(o[1].t)
        scribble(g)
        same(o[1].t, before, 'parameters are independent of the array of the grid')


def s_interpolate_user_method():
    """the array that a user method returns is neither changed nor shared"""
    from skcurve import InterpolatorBase, register_interpolator
    m = nat('m', 2)
    d = arr('d', (m, 2))
    e = value(d)

    @register_interpolator('c02-user')
    class User(InterpolatorBase):
        def _interpolate(self, grid):
            return d
    c = curve(nmin=4, dim=2)
    o = outcome(c.interpolate, incr('g', m), method='c02-user')
    unchanged('interpolate', d, e)
    if o[0] == 'ok':
        later(lambda: o[1].data, 'points of the interpolated curve', d)


def s_interpolator_weights():
    """arrays given as options of the spline interpolators"""
    n = nat('n', 4)
    c = curve(n=n, dim=2, par=False)
    w = arr('w', (n,), hint='pos')
    v = value(w)
    method = choose('spline', 'csaps')
    outcome(lambda: c.interpolate(incr('g', 5), method=method, **({'w': w} if method == 'spline' else {'weights': w})))
    unchanged(method, w, v)


def s_interpolator_options():
    """the options a caller passes in a dict stay the same"""
    kw = {'extrapolate': False}
    c = curve(nmin=4, dim=2, par=False)
    outcome(lambda: c.interpolate(incr('g', 5), method='linear', **kw))
    same(len(kw) == 1 and kw['extrapolate'] is False, True, 'options are left alone')


def s_smooth_user():
    from skcurve import register_smooth_method
    n = nat('n', 3)
    c = curve(n=n, dim=2)
    before, t = value(c.data), value(c.t)
    d = arr('d', (n, 2))
    e = value(d)
    got = []

    def user(curve):
        got.append(curve)
        return d
    register_smooth_method('c02-user')(user)
    r = c.smooth('c02-user')
    unchanged('smooth', d, e)
    later(lambda: r.data, 'smoothed curve', d)
    same(c.data, before, 'smooth leaves the curve')
    same(c.t, t, 'smooth leaves the parameters of the curve')


def s_smooth_same_array():
    """a method that returns the data of the curve itself"""
    from skcurve import register_smooth_method
    c = curve(nmin=3, dim=2)
    before = value(c.data)
    register_smooth_method('c02-identity')(lambda q: q.data)
    r = c.smooth('c02-identity')
    same(r.data, before, 'smoothed curve')
    same(rootfrozen(r.data) or not alias(r.data, c.data), True, 'smoothed curve shares nothing writable')
    same(c.data, before, 'smooth leaves the curve')


def s_smooth_window_array():
    """the window array that a user function hands out is left alone"""
    c = curve(nmin=3, dim=2)
    w = arr('w', (3,), choose('float64', 'int64'), 'pos')
    v = value(w)
    outcome(lambda: c.smooth('window', window_size=3, window_type=lambda size: w))
    unchanged('smooth', w, v)


def s_smooth_builtin():
    c = curve(nmin=3, dim=2)
    before, t = value(c.data), value(c.t)
    m = choose('savgol', 'window')
    if m == 'savgol':
        outcome(lambda: c.smooth('savgol', window_length=3, polyorder=1))
    else:
        outcome(lambda: c.smooth('window', window_size=3))
    same(c.data, before, m + ' leaves the curve')
    same(c.t, t, m + ' leaves the parameters')


# ------------------------------------------------------------ intersection
def s_intersect_operands():
    s, r = segment('s', 2), segment('r', 2)
    b = [value(p.data) for p in (s.p1, s.p2, r.p1, r.p2)]
    method = choose('exact', 'almost')
    outcome(lambda: s.intersect(r, method=method))
    k = 0
    for p in (s.p1, s.p2, r.p1, r.p2):
        same(p.data, b[k], method + ' intersection leaves both segments')
        k += 1


def s_intersect_curves():
    c, e = curve('c', n=choose(2, 3), dim=2, par=False), curve('e', n=2, dim=2, par=False)
    u, v = value(c.data), value(e.data)
    op = choose('exact', 'almost', 'self', 'segment')
    if op == 'self':
        outcome(lambda: c.intersect())
    elif op == 'segment':
        outcome(lambda: c.intersect(e.segments[0]))
    else:
        outcome(lambda: c.intersect(e, method=op))
    same(c.data, u, op + ' intersection leaves the curve')
    same(e.data, v, op + ' intersection leaves the operand')


# ------------------------------------------------------------ distances and predefined curves
def s_metric_weights():
    p, q = point('p', 2), point('q', 2)
    w = arr('w', (2,), hint='pos')
    v = value(w)
    x, y = value(p.data), value(q.data)
    outcome(lambda: p.distance(q, metric='minkowski', p=2, w=w))
    unchanged('distance', w, v)
    same(p.data, x, 'distance leaves the points')
    same(q.data, y, 'distance leaves the points')


def s_user_metric():
    p, q = point('p', 2), point('q', 2)
    x = value(p.data)

    def metric(a, b):
        fact(rootfrozen(a) or not alias(a, p.data), 'the metric gets no writable access to the point')
        return 0.0
    p.distance(q, metric=metric)
    same(p.data, x, 'distance leaves the points')

