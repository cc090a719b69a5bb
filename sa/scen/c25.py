import operator
import scipy.spatial.distance as D
import skcurve

OPS = [('+', operator.add), ('-', operator.sub), ('*', operator.mul), ('/', operator.truediv), ('//', operator.floordiv)]


def two(dim=None):
    if dim is None:
        dim = choose(2, 3, 4)
    a, b = arr('a', (dim,)), arr('b', (dim,))
    return Point(a), Point(b), a, b


def number():
    k = choose('float', 'int', 'bool', 'numpy')
    if k == 'float':
        return real('k')
    if k == 'int':
        return nat('n', 1)
    if k == 'bool':
        return True
    return npreal('k')


def s_point_point():
    p, q, a, b = two()
    name, op = choose(*OPS)
    r = op(p, q)
    same(typename(r), 'Point', 'p ' + name + ' q is a point')
    same(r.data, op(a, b), 'p ' + name + ' q')
    same(p.data, a, 'left operand unchanged')
    same(q.data, b, 'right operand unchanged')


def s_point_number():
    p, q, a, b = two(choose(2, 3, 4))
    name, op = choose(*OPS)
    k = number()
    r = op(p, k)
    same(typename(r), 'Point', 'p ' + name + ' number is a point')
    same(r.data, op(a, k), 'p ' + name + ' number')


def s_number_point():
    p, q, a, b = two(choose(2, 3, 4))
    name, op = choose(*OPS)
    k = choose('float', 'int', 'bool')
    k = real('k') if k == 'float' else (nat('n', 1) if k == 'int' else True)
    r = op(k, p)
    same(typename(r), 'Point', 'number ' + name + ' p is a point')
    same(r.data, op(k, a), 'number ' + name + ' p')


def s_integer_points():
    dim = choose(2, 3, 4)
    a, b = arr('a', (dim,), 'int64'), arr('b', (dim,), 'int64')
    p, q = Point(a, dtype='int64'), Point(b, dtype='int64')
    name, op = choose(*OPS[:3])
    same(op(p, q).data, op(a, b), 'integer points ' + name)
    k = nat('n', 1)
    same(op(p, k).data, op(a, k), 'integer point ' + name + ' number')
    same(op(k, p).data, op(k, a), 'number ' + name + ' integer point')
    same((p / k).data, a / k, 'true division of an integer point')
    same((p // k).data, a // k, 'floor division of an integer point')


def s_one_dim():
    dim = choose(1, 5, 7)
    a, b = arr('a', (dim,)), arr('b', (dim,))
    p, q = Point(a), Point(b)
    name, op = choose(*OPS)
    same(op(p, q).data, op(a, b), 'points of one or many dimensions ' + name)
    k = real('k')
    same(op(p, k).data, op(a, k), 'point of one or many dimensions ' + name + ' number')
    same(op(k, p).data, op(k, a), 'number ' + name + ' point of one or many dimensions')


def s_any_dimension():
    dim = choose(1, 2, 5, 7)
    a, b = arr('a', (dim,)), arr('b', (dim,))
    p, q = Point(a), Point(b)
    same(p @ q, np.sum(a * b), 'dot product in any dimension')
    same(p.norm(), np.sqrt(np.sum(a * a)), 'norm in any dimension')
    same(p.distance(q), dist(a, b), 'Euclidean distance in any dimension')
    same(p.distance(q, 'cityblock'), np.sum(abs(a - b)), 'city block distance in any dimension')
    same(p.distance(q, 'chebyshev'), np.max(abs(a - b)), 'Chebyshev distance in any dimension')


def s_literal_norms():
    for v in ([-3.0], [0.0], [-3.0, 4.0], [0.0, 0.0, -2.0], [1.0, -1.0, 1.0, -1.0], [0.0, 0.0, 0.0, 0.0, -6.0]):
        p = Point(v)
        w = (sum([x * x for x in v])) ** 0.5
        same(p.norm(), w, 'norm of ' + str(len(v)) + ' coordinates')
        same((p * -1.0).norm(), w, 'norm of the opposite point')
        same(p @ p, w * w, 'dot product with itself')
        same(p.distance(p * -1.0), 2.0 * w, 'distance to the opposite point')


def s_curve_points():
    """points of a curve take part with their coordinates"""
    c = curve(nmin=2)
    i = nat('i', 0)
    assume(i < c.size)
    d = c.data[i]
    x = arr('x', (c.ndim,))
    name, op = choose(*OPS)
    same(op(c[i], Point(x)).data, op(d, x), 'curve point ' + name + ' point')
    same(op(Point(x), c[i]).data, op(x, d), 'point ' + name + ' curve point')
    same(typename(op(c[i], Point(x))), 'Point', 'result is a plain point')
    k = real('k')
    same(op(k, c[i]).data, op(k, d), 'number ' + name + ' curve point')


def s_inplace():
    p, q, a, b = two(2)
    r = p
    r += q
    same(r.data, a + b, 'in-place addition makes a new point')
    same(p.data, a, 'in-place addition leaves the point')
    r = p
    r *= 2.0
    same(r.data, a * 2.0, 'in-place product makes a new point')
    same(p.data, a, 'in-place product leaves the point')


def s_foreign():
    p, q, a, b = two(2)
    name, op = choose(*OPS)
    other = choose('list', 'tuple', 'str', 'none', 'array', 'segment', 'curve', 'dict')
    if other == 'list':
        other = [1.0, 2.0]
    elif other == 'tuple':
        other = (1.0, 2.0)
    elif other == 'str':
        other = 'ab'
    elif other == 'none':
        other = None
    elif other == 'array':
        other = arr('z', (2,))
        raises(op, TypeError, 'point ' + name + ' array', p, other)
        skip_left = True
        return
    elif other == 'segment':
        other = Segment(p, q)
    elif other == 'curve':
        other = Curve(arr('d', (3, 2)))
    else:
        other = {}
    raises(op, TypeError, 'point ' + name + ' foreign object', p, other)
    raises(op, TypeError, 'foreign object ' + name + ' point', other, p)


def s_matmul():
    p, q, a, b = two()
    same(p @ q, np.sum(a * b), 'dot product')
    same(p.norm(), np.sqrt(np.sum(a * a)), 'norm')
    other = choose(1.0, None, [1.0, 2.0], 'ab')
    raises(operator.matmul, TypeError, 'dot product with a foreign object', p, other)


def s_matmul_int():
    a, b = arr('a', (3,), 'int64'), arr('b', (3,), 'int64')
    p, q = Point(a, dtype='int64'), Point(b, dtype='int64')
    same(p @ q, np.sum(a * b), 'dot product of integer points')
    same(p.norm(), np.sqrt(np.sum(a * a)), 'norm of an integer point')


def s_distance_default():
    p, q, a, b = two()
    same(p.distance(q), dist(a, b), 'default distance is Euclidean')
    same(p.distance(q, metric='euclidean'), dist(a, b), 'Euclidean distance')


PLAIN = ['braycurtis', 'canberra', 'chebyshev', 'cityblock', 'correlation', 'cosine', 'euclidean', 'jensenshannon', 'minkowski', 'sqeuclidean']


def s_metric():
    p, q, a, b = two(choose(2, 3, 4))
    name = choose(*PLAIN)
    want = getattr(D, name)(a, b)
    same(p.distance(q, metric=name), want, 'metric ' + name)
    same(p.distance(q, name), want, 'metric ' + name + ' given by position')
    same(skcurve.get_metric(name)(a, b), want, 'get_metric ' + name)


def s_metric_options():
    p, q, a, b = two(3)
    w = arr('w', (3,), 'float64', 'pos')
    V = arr('V', (3,), 'float64', 'pos')
    VI = arr('VI', (3, 3))
    k = choose('minkowski', 'wminkowski', 'seuclidean', 'mahalanobis', 'jensenshannon', 'cityblock', 'two')
    if k == 'minkowski':
        o, name = {'p': 3}, k
    elif k == 'wminkowski':
        o, name = {'p': 3, 'w': w}, k
    elif k == 'seuclidean':
        o, name = {'V': V}, k
    elif k == 'mahalanobis':
        o, name = {'VI': VI}, k
    elif k == 'jensenshannon':
        o, name = {'base': 2.0}, k
    elif k == 'cityblock':
        o, name = {'w': w}, k
    else:
        o, name = {'p': 1.5, 'w': w}, 'minkowski'
    f = getattr(D, name)
    want = f(a, b, **o)
    same(p.distance(q, metric=name, **o), want, 'options of metric ' + name)
    same(skcurve.get_metric(name, **o)(a, b), want, 'options of get_metric ' + name)
    if k == 'minkowski':
        # options are used for this call only
        same(p.distance(q, metric=name), f(a, b), 'options of an earlier call are forgotten')


def s_user_metric():
    p, q, a, b = two(choose(2, 3, 4))
    m = callable_('metric')
    k = mark()
    p.distance(q, metric=m)
    calls = events('opaquecall', k)
    same(len(calls), 1, 'user metric is called once')
    got = p.distance(q, metric=lambda u, v: np.sum(u * 2.0 - v))
    same(got, np.sum(a * 2.0 - b), 'user metric gets the coordinates of both points in order')


def s_bad_metric():
    p, q, a, b = two(2)
    raises(p.distance, NameError, 'unknown metric', q, choose('foo', '', 'Euclidean', 'euclid', ' euclidean', 'euclidean ', 'euclidean\n', 'EUCLIDEAN', 'l2', 'manhattan'))
    raises(p.distance, TypeError, 'metric that is not callable', q, choose(1, None, [1.0]))
    raises(skcurve.get_metric, NameError, 'unknown metric name', 'foo')
    raises(p.distance, NameError, 'unknown metric with options', q, 'foo', p=2)


def s_known_metrics():
    names = skcurve.known_metrics()
    same(sorted(names), ['braycurtis', 'canberra', 'chebyshev', 'cityblock', 'correlation', 'cosine', 'euclidean', 'jensenshannon', 'mahalanobis',
                         'minkowski', 'seuclidean', 'sqeuclidean', 'wminkowski'], 'known metric names')
    names.append('zzz')
    same('zzz' in skcurve.known_metrics(), False, 'the returned list is a copy')
    for n in names[:-1]:
        skcurve.get_metric(n)


def s_matmul_dimensions():
    m, n = choose((1, 2), (2, 3), (3, 2), (2, 4))
    p, q = point('p', m), point('q', n)
    kind, v = outcome(operator.matmul, p, q)
    same(kind, 'raise', 'dot product of points of different dimension is refused')
