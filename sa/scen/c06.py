def dims():
    return choose((2, 3), (3, 2), (3, 4), (2, 4))


def s_curve_ops():
    a, b = dims()
    c = curve('c', 1, a)
    e = curve('e', 1, b)
    p = point('p', b)
    d = value(c.data)
    raises(lambda: c + e, ValueError, 'sum of curves of different dimensions')
    raises(c.insert, ValueError, 'insertion of a point of another dimension', 0, p)
    raises(c.insert, ValueError, 'insertion of a curve of another dimension', 0, e)
    raises(c.append, ValueError, 'appending a point of another dimension', p)
    raises(c.append, ValueError, 'appending a curve of another dimension', e)
    raises(c.insert, ValueError, 'insertion of a curve point of another dimension', 0, e[0])
    raises(c.append, ValueError, 'appending a curve point of another dimension', e[0])
    raises(c.count, ValueError, 'counting a point of another dimension', p)
    raises(c.index, ValueError, 'searching a point of another dimension', p)
    raises(c.index, ValueError, 'searching a point of another dimension in an interval', p, 0, 1)
    raises(c.index, ValueError, 'searching a curve point of another dimension', e[0])
    same(c.data, d, 'the curve is unchanged')


def s_one_dim_point():
    c = curve('c', 1, choose(2, 3, 4))
    p = point('p', 1)
    raises(c.insert, ValueError, 'insertion of a one-dimensional point', 0, p)
    raises(c.append, ValueError, 'appending a one-dimensional point', p)
    raises(c.count, ValueError, 'counting a one-dimensional point', p)
    raises(c.index, ValueError, 'searching a one-dimensional point', p)
    same(p in c, False, 'a one-dimensional point is not in the curve')


def s_empty_curve():
    """also when one of the curves has no points"""
    a, b = dims()
    n = nat('n', 1)
    c = Curve(arr('d', (n, a)))
    e = Curve(np.zeros((0, b)))
    raises(lambda: c + e, ValueError, 'sum with an empty curve of another dimension')
    raises(lambda: e + c, ValueError, 'sum of an empty curve and a curve of another dimension')
    raises(c.insert, ValueError, 'insertion of an empty curve of another dimension', 0, e)
    raises(e.append, ValueError, 'appending to an empty curve of another dimension', c)
    same(e in c, False, 'an empty curve of another dimension is not in the curve')
    p = point('p', a)
    raises(e.count, ValueError, 'counting a point of another dimension in an empty curve', p)
    raises(e.index, ValueError, 'searching a point of another dimension in an empty curve', p)
    raises(e.insert, ValueError, 'inserting a point of another dimension into an empty curve', 0, p)
    raises(e.append, ValueError, 'appending a point of another dimension to an empty curve', p)
    same(p in e, False, 'a point of another dimension is not in an empty curve')
    q = point('q', 1)
    raises(e.count, ValueError, 'counting a one-dimensional point in an empty curve', q)
    raises(e.index, ValueError, 'searching a one-dimensional point in an empty curve', q)
    raises(e.insert, ValueError, 'inserting a one-dimensional point into an empty curve', 0, q)
    raises(e.append, ValueError, 'appending a one-dimensional point to an empty curve', q)
    f = Curve(np.zeros((0, a)))
    same(f == e, False, 'empty curves of different dimensions')
    same(f in e, False, 'an empty curve is not in an empty curve of another dimension')
    raises(lambda: f + e, ValueError, 'sum of empty curves of different dimensions')
    raises(f.intersect, ValueError, 'intersection of empty curves of different dimensions', e)


def s_equality():
    a, b = dims()
    same(point('p', a) == point('q', b), False, 'points of different dimensions')
    same(point('p', a) != point('q', b), True, 'points of different dimensions differ')
    same(point('p', 1) == point('q', b), False, 'one-dimensional point')
    same(segment('s', a) == segment('r', b), False, 'segments of different dimensions')
    n = nat('n', 0)
    c = curve('c', dim=a, n=n)
    e = curve('e', dim=b, n=n)
    same(c == e, False, 'curves of different dimensions')
    same(c != e, True, 'curves of different dimensions differ')


def s_membership():
    a, b = dims()
    c = curve('c', 1, a)
    e = curve('e', 1, b)
    same(point('p', b) in c, False, 'point of another dimension')
    same(e in c, False, 'curve of another dimension')
    same(e[0] in c, False, 'curve point of another dimension')
    same(e[:1] in c, False, 'sub-curve of another dimension')


def s_points_combined():
    a, b = dims()
    p, q = point('p', a), point('q', b)
    raises(lambda: Segment(p, q), ValueError, 'segment between points of different dimensions')


def s_intersect():
    a, b = dims()
    kind = choose('curve curve', 'curve segment', 'segment curve', 'segment segment', 'curve segment of curve')
    method = choose(None, 'exact', 'almost')
    if kind == 'curve curve':
        x, y = curve('c', 2, a), curve('e', 2, b)
    elif kind == 'curve segment':
        x, y = curve('c', 2, a), segment('s', b)
    elif kind == 'segment curve':
        x, y = segment('s', a), curve('e', 2, b)
    elif kind == 'segment segment':
        x, y = segment('s', a), segment('r', b)
    else:
        x, y = curve('c', 2, a), curve('e', 2, b).segments[0]
    raises(x.intersect, ValueError, 'intersection of a ' + kind + ' of different dimensions', y, method=method)


def s_intersect_short():
    """curves with one point or none have no segments, but a dimension"""
    a, b = dims()
    n = choose(0, 1)
    m = choose(0, 2)
    x, y = Curve(arr('d', (n, a))), Curve(arr('e', (m, b)))
    raises(x.intersect, ValueError, 'intersection of short curves of different dimensions', y, method=choose(None, 'exact', 'almost'))
    raises(y.intersect, ValueError, 'intersection of a curve with a short one of another dimension', x)


def s_intersect_options():
    a, b = choose((2, 3), (3, 2))
    x, y = curve('c', 2, a), curve('e', 2, b)
    raises(x.intersect, ValueError, 'almost intersection with options', y, method='almost', almost_tol=1e-3, remove_extra=True)


def s_methods_directly():
    """a method object refuses objects of different dimensions, also without points or segments"""
    import skcurve._intersect as m
    a, b = dims()
    n, k = choose(0, 1, 2), choose(0, 1, 2)
    x, y = Curve(arr('d', (n, a))), Curve(arr('e', (k, b)))
    name = choose('exact', 'almost')
    raises(m.get_intersect_method(name), ValueError, 'method ' + name + ' called directly', x, y)
    raises(m.get_intersect_method(name), ValueError, 'method ' + name + ' called directly', x, segment('s', b))
    raises(m.get_intersect_method(name), ValueError, 'method ' + name + ' called directly', segment('s', b), x)


def s_functions():
    """the module-level interface"""
    import skcurve._intersect as m
    a, b = choose((2, 3), (3, 2))
    x, y = segment('s', a), segment('r', b)
    for name in ['exact', 'almost']:
        method = m.get_intersect_method(name)
        raises(method, ValueError, 'method ' + name + ' called directly', x, y)
