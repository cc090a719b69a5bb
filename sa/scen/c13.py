from skcurve import InterpolatorBase, InterpolationGrid, InterpolationWarning, InterpolationError, register_interpolator, UniformInterpolationGrid

CALLS = []


def method():
    """a method of the user: any points, one per grid value"""
    @register_interpolator('c13-user')
    class User(InterpolatorBase):
        def _interpolate(self, grid):
            CALLS.append(grid)
            return ext_array('points', [grid], (len(grid), self.curve.ndim))
    return 'c13-user'


def any_curve(nmin=2):
    k = choose('float', 'float parametric', 'single', 'int', 'int parametric')
    dt = 'float32' if k == 'single' else ('int64' if k in ('int', 'int parametric') else 'float64')
    return curve(nmin=nmin, dim=choose(2, 3, 4), par=k in ('float parametric', 'int parametric'), dtype=dt)


def expect(c, g, r, what):
    same(type(r) is type(c), True, what + ': type of the curve')
    same(r.dtype, c.dtype, what + ': dtype of the curve')
    same(r.ndim, c.ndim, what + ': dimension of the curve')
    same(r.size, len(g), what + ': one point per grid value')
    same(r.data, ext_array('points', [g], (len(g), c.ndim)).astype(c.dtype), what + ': points are those of the method')
    same(r.isparametric, c.isparametric, what + ': parametric exactly when the source is')
    if c.isparametric:
        same(r.t, g, what + ': the grid is the parameter vector')


def s_array():
    m = method()
    c = any_curve()
    g = incr('g', nat('m', 2))
    r = c.interpolate(g, method=m)
    same(len(CALLS), 1, 'one interpolation')
    same(CALLS[0], g, 'the method gets the grid')
    expect(c, g, r, 'array grid')


def s_one_value():
    m = method()
    c = curve(nmin=2, dim=2)
    g = np.array([real('x')])
    assume(c.t[-1] > c.t[0] + 0.5)
    k = mark()
    r = c.interpolate(g, method=m)
    same(warned(k, InterpolationWarning), True, 'a grid of one value does not cover the curve')
    expect(c, g, r, 'grid of one value')


def s_list():
    m = method()
    c = curve(nmin=2, dim=2)
    r = c.interpolate([0.0, 0.5, 2.0], method=m)
    expect(c, np.array([0.0, 0.5, 2.0]), r, 'list grid')
    r = c.interpolate((0, 1, 2), method=m)
    expect(c, np.array([0.0, 1.0, 2.0]), r, 'tuple grid')


def s_int_array():
    m = method()
    c = curve(nmin=2, dim=2)
    g = arr('g', (nat('m', 2),), 'int64', 'incr')
    r = c.interpolate(g, method=m)
    expect(c, g.astype(float), r, 'integer array grid')


def s_number():
    m = method()
    c = curve(nmin=2, dim=2)
    k = choose(2, 5)
    assume(c.t[-1] > c.t[0] + 1.0)
    r = c.interpolate(k, method=m)
    expect(c, np.linspace(c.t[0], c.t[-1], k), r, 'number of points')


def s_grid_object():
    m = method()
    g = incr('g', nat('m', 2))
    seen = []

    class Grid(InterpolationGrid):
        def __call__(self, curve):
            seen.append(curve)
            return g
    c = any_curve()
    r = c.interpolate(Grid(), method=m)
    same(len(seen) == 1 and is_same(seen[0], c), True, 'the grid object gets the curve')
    expect(c, g, r, 'grid object')


def s_uniform_object():
    m = method()
    c = curve(nmin=2, dim=2)
    assume(c.t[-1] > c.t[0] + 1.0)
    r = c.interpolate(UniformInterpolationGrid(4), method=m)
    expect(c, np.linspace(c.t[0], c.t[-1], 4), r, 'uniform grid object')


def s_subclass():
    m = method()

    class MyCurve(Curve):
        pass
    n = nat('n', 2)
    par = choose(False, True)
    c = MyCurve(arr('d', (n, 2)), tdata=incr('t', n) if par else None)
    g = incr('g', nat('m', 2))
    expect(c, g, c.interpolate(g, method=m), 'curve of a subclass')


def s_direct():
    """the interpolator object used on its own"""
    m = method()
    from skcurve import get_interpolator
    c = any_curve()
    g = incr('g', nat('m', 2))
    f = get_interpolator(m, c)
    same(is_same(f.curve, c), True, 'the interpolator keeps the curve')
    expect(c, g, f(g), 'interpolator object')
    expect(c, g, f(g), 'interpolator object used twice')


def s_builtin():
    from skcurve import interp_methods
    c = any_curve(5)
    g = incr('g', nat('m', 2))
    name = choose('linear', 'cubic', 'hermite', 'akima', 'pchip', 'spline', 'csaps')
    r = c.interpolate(g, method=name)
    same(type(r) is type(c), True, name + ': type of the curve')
    same(r.dtype, c.dtype, name + ': dtype of the curve')
    same(r.data.shape, (len(g), c.ndim), name + ': one point per grid value')
    same(r.isparametric, c.isparametric, name + ': parametric exactly when the source is')
    if c.isparametric:
        same(r.t, g, name + ': the grid is the parameter vector')


# ------------------------------------------------------------ rejected grids
def bad(c, m, g, what):
    raises(c.interpolate, ValueError, what, g, method=m)
    same(len(CALLS), 0, what + ': nothing is interpolated')


def s_not_increasing():
    m = method()
    c = curve(nmin=2, dim=2)
    n = nat('m', 2)
    g = arr('g', (n,))
    i = nat('i', 0)
    assume(i < n - 1)
    how = choose('decreasing', 'equal')
    if how == 'decreasing':
        assume(g[i + 1] < g[i])
    else:
        assume(g[i + 1] == g[i])
    bad(c, m, g, how + ' grid values are rejected')


def s_literal_grids():
    m = method()
    c = curve(nmin=2, dim=2)
    g = choose('decreasing', 'repeated', 'last', 'first', 'list')
    v = {'decreasing': np.array([2.0, 1.0, 0.0]), 'repeated': np.array([0.0, 1.0, 1.0, 2.0]), 'last': np.array([0.0, 1.0, 2.0, 2.0]),
         'first': np.array([0.0, 0.0, 1.0]), 'list': [0.0, 2.0, 1.0]}[g]
    bad(c, m, v, g + ' grid values are rejected')


def s_literal_sequences():
    """the same in every kind of sequence"""
    m = method()
    c = curve(nmin=2, dim=2, par=choose(False, True))
    v = choose([2, 1, 0], [0.0, 2.0, 1.0, 3.0], [0, 1, 1, 2], [0.0, 1.0, 2.0, 5.0, 4.0, 6.0, 7.0], [1.0, 1.0], [0.0, 1.0, 2.0, 3.0, 0.0])
    k = choose('list', 'tuple', 'array', 'column of an array')
    if k == 'tuple':
        v = tuple(v)
    elif k == 'array':
        v = np.array(v)
    elif k == 'column of an array':
        v = np.array([v, v]).T[:, 0]
    bad(c, m, v, 'a ' + k + ' of values that do not increase is rejected')


def s_not_one_dimensional():
    m = method()
    c = curve(nmin=2, dim=2)
    k = choose('matrix', 'column', 'row', 'nested list', 'zero-dim', 'three')
    if k == 'matrix':
        g = arr('g', (nat('m', 2), 2))
    elif k == 'column':
        g = arr('g', (nat('m', 2), 1))
    elif k == 'row':
        g = arr('g', (1, nat('m', 2)))
    elif k == 'nested list':
        g = [[0.0, 1.0], [2.0, 3.0]]
    elif k == 'zero-dim':
        g = np.array(1.0)
    else:
        g = arr('g', (2, 2, 2))
    bad(c, m, g, k + ' grid is rejected')


def s_grid_object_not_one_dimensional():
    m = method()

    class Grid(InterpolationGrid):
        def __call__(self, curve):
            return arr('g', (2, 3))
    bad(curve(nmin=2, dim=2), m, Grid(), 'two-dimensional array of a grid object is rejected')


def s_grid_object_not_increasing():
    m = method()

    class Grid(InterpolationGrid):
        def __call__(self, curve):
            return np.array([0.0, 2.0, 1.0])
    bad(curve(nmin=2, dim=2), m, Grid(), 'decreasing array of a grid object is rejected')


def s_unknown_type():
    m = method()
    c = curve(nmin=2, dim=2)
    k = choose('none', 'float', 'dict', 'set', 'object', 'function', 'curve')
    if k == 'none':
        g = None
    elif k == 'float':
        g = 5.0
    elif k == 'dict':
        g = {0.0: 1.0}
    elif k == 'set':
        g = {0.0, 1.0}
    elif k == 'object':
        g = object()
    elif k == 'function':
        g = any_curve
    else:
        g = segment('s', 2)
    bad(c, m, g, k + ' is no grid')


def s_single_point():
    m = method()
    c = curve(n=1, dim=choose(2, 3, 4))
    k = choose('array', 'number', 'list')
    g = incr('g', nat('m', 1)) if k == 'array' else (3 if k == 'number' else choose([0.0, 1.0], [0.0], (0.0,), [0.5]))
    bad(c, m, g, 'a curve of a single point is rejected')


def s_empty():
    m = method()
    c = Curve(np.zeros((0, choose(2, 3, 4))), dtype=choose('float64', 'int64'))
    k = mark()
    r = c.interpolate(choose(5, [0.0, 1.0]), method=m)
    same(r.size, 0, 'interpolation of an empty curve is empty')
    same(r.ndim, c.ndim, 'interpolation of an empty curve keeps the dimension')
    same(r.dtype, c.dtype, 'interpolation of an empty curve keeps the dtype')
    same(warned(k, InterpolationWarning), True, 'interpolation of an empty curve warns')


# ------------------------------------------------------------ coverage of the parameter range
def s_coverage():
    m = method()
    c = curve(nmin=2, dim=2)
    g = incr('g', nat('m', 2))
    n = len(g)
    how = choose('covers', 'equal', 'starts late', 'ends early')
    if how == 'covers':
        assume(g[0] <= c.t[0])
        assume(g[n - 1] >= c.t[-1])
    elif how == 'equal':
        assume(g[0] == c.t[0])
        assume(g[n - 1] == c.t[-1])
    elif how == 'starts late':
        assume(g[0] > c.t[0])
    else:
        assume(g[n - 1] < c.t[-1])
    k = mark()
    r = c.interpolate(g, method=m)
    if how in ('covers', 'equal'):
        same(warned(k, None), False, 'a grid that covers the range issues no warning')
    else:
        same(warned(k, InterpolationWarning), True, 'a grid that ' + how + ' issues a warning')
    expect(c, g, r, 'a grid that ' + how)


def s_coverage_literal():
    m = method()
    n = 4
    par = choose(False, True)
    d = np.array([[0.0, 0.0], [1.0, 0.0], [2.0, 0.0], [3.0, 0.0]])
    c = Curve(d, tdata=np.array([10.0, 11.0, 12.0, 13.0]) if par else None)
    off = 10.0 if par else 0.0
    how = choose('exact', 'wide', 'late', 'early', 'inside', 'before', 'after')
    g = {'exact': [0.0, 1.5, 3.0], 'wide': [-1.0, 4.0], 'late': [0.5, 3.0], 'early': [0.0, 2.5], 'inside': [1.0, 2.0], 'before': [-3.0, -1.0], 'after': [5.0, 6.0]}[how]
    g = np.array(g) + off
    k = mark()
    r = c.interpolate(g, method=m)
    same(warned(k, InterpolationWarning), how not in ('exact', 'wide'), 'warning for a grid that is ' + how)
    expect(c, g, r, 'a grid that is ' + how)
