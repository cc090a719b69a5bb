CACHED = ['t', 'chordlen', 'cumarclen', 'firstderiv', 'secondderiv', 'thirdderiv', 'tangent', 'speed', 'normal', 'binormal', 'frenet1', 'frenet2', 'frenet3',
          'curvature', 'torsion', 'segments']


def locked(a, what):
    same(frozen(a), True, what + ' is read-only')
    if isarray(a) and typename(a) == 'ndarray':
        raises(write, ValueError, what + ' refuses item assignment', a)


def write(a):
    a[...] = 0


def s_point():
    how = choose('array', 'list', 'point', 'int', 'zero-dim')
    if how == 'array':
        p = Point(arr('a', (2,)))
    elif how == 'list':
        p = Point([real('x'), real('y')])
    elif how == 'point':
        p = Point(Point(arr('a', (2,))))
    elif how == 'int':
        p = Point(arr('a', (2,), 'int64'), dtype='int64')
    else:
        p = Point(arr('a', (2,), 'float32'), dtype='float32')
    locked(p.data, 'coordinate array of a point')


def s_point_attrs():
    p = point('p', 2)
    raises(setattr, AttributeError, 'coordinates of a point cannot be replaced', p, 'data', 1)
    raises(setattr, AttributeError, 'points have no further attributes', p, 'foo', 1)
    raises(delattr, AttributeError, 'coordinates of a point cannot be deleted', p, 'data')
    raises(lambda: setitem(p, 0, 1.0), TypeError, 'no item assignment')
    s = segment('s', 2)
    for n in ('p1', 'p2', 'data', 'seglen', 'direction'):
        raises(setattr, AttributeError, 'ends of a segment cannot be replaced', s, n, p)
    c = curve('c', 2, 2)
    for n in ('data', 'size', 'ndim', 'dtype', 'isparametric'):
        raises(setattr, AttributeError, 'data of a curve cannot be replaced', c, n, 1)
    raises(lambda: setitem(c, 0, p), TypeError, 'no item assignment')


def setitem(o, k, v):
    o[k] = v


def s_results_of_points():
    p, q = point('p', 2), point('q', 2)
    c = curve('c', 2, 2)
    for r in (p + q, p * 2.0, 1.0 - p, c[0], c[0] + q, segment('s', 2).direction, segment('s', 2).point(0.5), segment('s', 2).point([0.5, 1.0])[0]):
        locked(r.data, 'coordinate array of a computed point')
    i = pt(c, 'i')
    locked(c[i].data, 'coordinate array of a curve point')
    s = c.segments[0]
    locked(s.p1.data, 'coordinate array of an end of a curve segment')
    locked(s.p2.data, 'coordinate array of an end of a curve segment')


def s_curve():
    n = nat('n', 0)
    par = choose(False, True)
    how = choose('array', 'int array', 'lists', 'curve', 'padded', 'axis', 'dtype')
    t = incr('t', n) if par else None
    if how == 'array':
        c = Curve(arr('d', (n, 2)), tdata=t)
    elif how == 'int array':
        c = Curve(arr('d', (n, 2), 'int64'), tdata=t)
    elif how == 'lists':
        c = Curve([arr('x', (n,)), arr('y', (n,))], tdata=t)
    elif how == 'curve':
        c = Curve(Curve(arr('d', (n, 2)), tdata=t))
    elif how == 'padded':
        c = Curve(arr('d', (n, 2)), tdata=t, ndmin=3)
    elif how == 'axis':
        c = Curve(arr('d', (2, n)), tdata=t, axis=1)
    else:
        c = Curve(arr('d', (n, 2)), tdata=t, dtype='float32')
    locked(c.data, 'coordinate array of a curve')
    locked(c.t, 'parameter vector')


def s_cached():
    n = choose('any', 0, 1, 2)
    c = curve(nmin=3, dim=choose(2, 3, 4)) if n == 'any' else curve(n=n, dim=2)
    q = choose(*CACHED)
    a = getattr(c, q)
    locked(a, q)
    locked(getattr(c, q), q + ' asked again')
    for o in CACHED:
        locked(getattr(c, o), o + ' after ' + q)


def s_cached_order():
    """after everything else has been computed"""
    c = curve(nmin=3, dim=3, par=False)
    c.torsion
    c.curvature
    c.segments
    c.arclen
    for q in CACHED:
        locked(getattr(c, q), q)


def s_point_quantities():
    c = curve(nmin=3, dim=choose(2, 3, 4), par=False)
    i = pt(c, 'i')
    p = c[i]
    for q in ('firstderiv', 'secondderiv', 'thirdderiv', 'tangent', 'normal', 'binormal', 'frenet1', 'frenet2', 'frenet3'):
        a = getattr(p, q)
        locked(a, q + ' of a point')
    # asked from the point first, the curve is protected as well
    locked(c.firstderiv, 'firstderiv')
    locked(c.frenet3, 'frenet3')


def s_views():
    c = curve(nmin=2)
    d = c.data
    locked(d[0], 'row of the coordinate array')
    locked(d[:, 0], 'column of the coordinate array')
    locked(d.T, 'transposed coordinate array')
    locked(c.values(0), 'coordinate values')
    for v in c.values():
        locked(v, 'coordinate values')


def s_derived():
    """curves made from a curve"""
    c = curve(nmin=4, dim=3)
    op = choose('slice', 'list', 'reverse', 'concat', 'insert', 'append', 'delete', 'insertdim', 'deletedim', 'unique', 'drop', 'nonsingular')
    x = Point(arr('x', (3,)))
    if op == 'slice':
        q = c[1:]
    elif op == 'list':
        q = c[[0, 1]]
    elif op == 'reverse':
        q = c.reverse()
    elif op == 'concat':
        q = c + c
    elif op == 'insert':
        q = c.insert(0, x)
    elif op == 'append':
        q = c.append(c)
    elif op == 'delete':
        q = c.delete(0)
    elif op == 'insertdim':
        q = c.insertdim(1)
    elif op == 'deletedim':
        q = c.deletedim(2)
    elif op == 'unique':
        q = c.unique()
    elif op == 'drop':
        q = c.drop(lambda d: d[:, 0] > 1.0)
    else:
        q = c.nonsingular()
    locked(q.data, 'coordinate array after ' + op)
    locked(q.t, 'parameter vector after ' + op)
    locked(c.data, 'coordinate array of the source after ' + op)
    locked(c.t, 'parameter vector of the source after ' + op)


def s_interpolated():
    c = curve(nmin=4, dim=2)
    assume(c.t[-1] > c.t[0] + 1.0)
    g = np.linspace(c.t[0], c.t[-1], 5)
    q = c.interpolate(g, method='linear')
    locked(q.data, 'coordinate array of an interpolated curve')
    locked(q.t, 'parameter vector of an interpolated curve')
    q = c.smooth('savgol', window_length=3, polyorder=1)
    locked(q.data, 'coordinate array of a smoothed curve')


QUERIES = ['data', 't', 'chordlen', 'arclen', 'cumarclen', 'firstderiv', 'secondderiv', 'thirdderiv', 'speed', 'normal', 'binormal', 'frenet1', 'frenet2',
           'frenet3', 'curvature', 'torsion', 'segments']


def report(c):
    return [value(c.data), value(c.t), value(c.chordlen), value(c.firstderiv), value(c.secondderiv)]


def s_queries_change_nothing():
    c = curve(nmin=3, dim=choose(2, 3, 4))
    before = report(c)
    par = c.isparametric
    q = choose(*QUERIES)
    getattr(c, q)
    after = report(c)
    for k in range(len(before)):
        same(after[k], before[k], 'asking for ' + q + ' changes nothing')
    same(c.isparametric, par, 'asking for ' + q + ' leaves the kind of the curve')


OPS = ['index', 'slice', 'list', 'in', 'count', 'index of', 'eq', 'add', 'copy', 'reverse', 'coorient', 'insert', 'append', 'delete', 'values', 'insertdim',
       'appenddim', 'unique', 'drop', 'nonsingular', 'interpolate', 'smooth', 'smooth window', 'repr', 'subcurve']


def apply(c, op):
    import copy
    x = Point(arr('x', (c.ndim,)))
    if op == 'index':
        c[0], c[-1]
    elif op == 'slice':
        c[1:]
    elif op == 'list':
        c[[0, 1]]
    elif op == 'in':
        x in c
    elif op == 'count':
        c.count(x)
    elif op == 'index of':
        outcome(c.index, x, 1)
    elif op == 'eq':
        c == Curve(c)
    elif op == 'add':
        c + c
    elif op == 'copy':
        copy.deepcopy(c)
    elif op == 'reverse':
        c.reverse()
    elif op == 'coorient':
        c.coorientplane()
    elif op == 'insert':
        c.insert(1, x)
    elif op == 'append':
        c.append(x)
    elif op == 'delete':
        c.delete([0])
    elif op == 'values':
        list(c.values())
    elif op == 'insertdim':
        c.insertdim(0)
    elif op == 'appenddim':
        c.appenddim()
    elif op == 'unique':
        c.unique()
    elif op == 'drop':
        c.drop(lambda d: d[:, 0] > 1.0)
    elif op == 'nonsingular':
        c.nonsingular()
    elif op == 'interpolate':
        outcome(c.interpolate, np.linspace(c.t[0], c.t[-1], 5), method='cubic')
    elif op == 'smooth':
        c.smooth('savgol', window_length=3, polyorder=1)
    elif op == 'smooth window':
        c.smooth('window', window_size=3)
    elif op == 'repr':
        repr(c)
    elif op == 'subcurve':
        c[0].subcurve(c[1])


def s_operations_change_nothing():
    c = curve(nmin=4, dim=2)
    before = report(c)
    par = c.isparametric
    op = choose(*OPS)
    apply(c, op)
    after = report(c)
    for k in range(len(before)):
        same(after[k], before[k], op + ' changes nothing')
    same(c.isparametric, par, op + ' leaves the kind of the curve')
    same(frozen(c.data), True, op + ' leaves the coordinates protected')


def s_operations_before_queries():
    """quantities asked for the first time after an operation are those of the untouched curve"""
    c = curve(nmin=4, dim=2)
    e = Curve(c)
    op = choose(*OPS)
    apply(c, op)
    for q in ('data', 't', 'chordlen', 'cumarclen', 'firstderiv', 'curvature'):
        same(getattr(c, q), getattr(e, q), q + ' after ' + op)


def s_segment_operations():
    a, b, x = arr('a', (2,)), arr('b', (2,)), arr('x', (2,))
    s = Segment(Point(a), Point(b))
    r = segment('r', 2)
    p = Point(x)
    op = choose('point', 'points', 't', 'angle', 'parallel', 'collinear', 'coplanar', 'overlap', 'distance', 'shortest', 'to_curve', 'reverse', 'intersect', 'repr', 'point t')
    if op == 'point':
        s.point(0.5)
    elif op == 'points':
        s.point([0.0, 1.0])
    elif op == 't':
        s.t(p)
    elif op == 'angle':
        s.angle(r)
    elif op == 'parallel':
        s.parallel(r)
    elif op == 'collinear':
        s.collinear(r)
    elif op == 'coplanar':
        s.coplanar(p)
    elif op == 'overlap':
        s.overlap(r)
    elif op == 'distance':
        s.distance(p)
    elif op == 'shortest':
        s.shortest_segment(r)
    elif op == 'to_curve':
        s.to_curve()
    elif op == 'reverse':
        s.reverse()
    elif op == 'intersect':
        s.intersect(r)
    elif op == 'repr':
        repr(s)
    else:
        p.distance(s.p1)
        p + s.p1
        p @ s.p1
        p.norm()
        p == s.p1
    same(s.p1.data, a, op + ' leaves the first end')
    same(s.p2.data, b, op + ' leaves the second end')
    same(p.data, x, op + ' leaves the point')
    same(frozen(s.p1.data) and frozen(s.p2.data), True, op + ' leaves the coordinates protected')


def held(c):
    """what a user may have kept of a curve"""
    s, p, q = c.segments[1], c[1], c[-1]
    kept = [s.p1.data, s.p2.data, s.data, p.data, q.data] + [getattr(c, n) for n in CACHED if n != 'segments']
    return s, p, q, kept, [value(a) for a in kept]


def check_held(c, h, what):
    s, p, q, kept, before = h
    same(is_same(s.curve, c) and is_same(s.p1.curve, c) and is_same(s.p2.curve, c), True, 'a segment keeps its curve after ' + what)
    same(s.idx, 1, 'a segment keeps its index after ' + what)
    same(is_same(p.curve, c) and is_same(q.curve, c), True, 'a point keeps its curve after ' + what)
    same(p.idx, 1, 'a point keeps its index after ' + what)
    same(q.idx, c.size - 1, 'the last point keeps its index after ' + what)
    same(s.p1.idx, 1, 'ends of a segment keep their index after ' + what)
    same(s.p2.idx, 2, 'ends of a segment keep their index after ' + what)
    for k in range(len(kept)):
        same(kept[k], before[k], 'what was obtained before is unchanged after ' + what)
    for n in CACHED:
        locked(getattr(c, n), n + ' after ' + what)


MORE = ['all indices', 'all slice', 'all mask', 'short list', 'backwards', 'curve of curve', 'dtype', 'intersect', 'self intersect', 'segment queries', 'hash', 'contains curve']


def apply_more(c, op):
    if op == 'all indices':
        c[list(range(c.size))]
        c[np.arange(c.size)]
    elif op == 'all slice':
        c[:]
        c[0:c.size]
    elif op == 'all mask':
        c[np.ones(c.size, dtype=bool)]
    elif op == 'short list':
        c[[0]]
        c[[-1]]
    elif op == 'backwards':
        c[::-1]
        c[::-2]
    elif op == 'curve of curve':
        Curve(c, ndmin=3)
    elif op == 'dtype':
        Curve(c, dtype='float32')
    elif op == 'intersect':
        outcome(c.intersect, Segment(c[0], c[2]))
    elif op == 'self intersect':
        outcome(c.intersect)
    elif op == 'segment queries':
        s = c.segments[1]
        s.seglen, s.chordlen, s.direction, s.singular, s.reverse(), s.to_curve(), s.point(0.5), s.dot
        s.angle(c.segments[0])
        s.overlap(c.segments[0])
        s.shortest_segment(c.segments[0])
    elif op == 'hash':
        c == 1, c != c, bool(c), len(c), list(c)
    elif op == 'contains curve':
        c[:2] in c


def s_operations_keep_what_was_obtained():
    n = choose(4, 'any')
    c = curve(n=4, dim=2) if n == 4 else curve(nmin=4, dim=2)
    h = held(c)
    op = choose(*(OPS + MORE))
    if op in OPS:
        apply(c, op)
    else:
        apply_more(c, op)
    check_held(c, h, op)


def s_operations_then_quantities():
    """quantities asked for after an operation"""
    c = curve(n=4, dim=2)
    op = choose(*(OPS + MORE))
    if op in OPS:
        apply(c, op)
    else:
        apply_more(c, op)
    for n in CACHED:
        locked(getattr(c, n), n + ' after ' + op)


def s_short_curves():
    """quantities of a very short curve do not replace each other"""
    k = choose(1, 2, 3)
    d = arr('d', (k, choose(2, 3)))
    first = choose(*CACHED)
    c, e = Curve(d), Curve(d)
    getattr(c, first)
    for n in CACHED:
        if n != 'segments':
            v = getattr(c, n)
            same(v, getattr(e, n), n + ' after ' + first + ' of a short curve')
            locked(v, n + ' after ' + first + ' of a short curve')
            same(is_same(getattr(c, n), v), True, n + ' is kept')
