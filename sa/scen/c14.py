from skcurve import UniformInterpolationGrid as U, UniformExtrapolationGrid as X, PreservedSpeedInterpolationGrid as P, InterpolationGrid
import scipy.interpolate as interp


def s_many_values_outside():
    """as many values before and after as requested, however many"""
    from skcurve import UniformExtrapolationGrid as E, UniformInterpolationGrid as U
    c = Curve(np.array([[0.0, 0.0], [1.0, 0.0], [2.0, 0.0]]))
    n, a, b = choose(2, 3), choose(0, 1, 40), choose(0, 25)
    g = E(U(n), before=a, after=b)
    h = 2.0 / (n - 1)
    for k in range(2):
        same(g(c), h * (np.arange(n + a + b) - a), 'grid values continue the mean step on both sides')
    same((g.before, g.after), (a, b), 'the grid keeps its settings')


def s_uniform_points():
    c = curve(nmin=2)
    k = choose(2, 3, 7)
    g = U(k) if choose(False, True) else U(k, kind='point')
    same(g(c), np.linspace(c.t[0], c.t[-1], k), 'uniform grid of a number of points')


def s_uniform_any_number():
    c = curve(nmin=2, dim=2)
    k = nat('k', 2)
    g = U(k)(c)
    same(len(g), k, 'number of grid points')
    same(g, np.linspace(c.t[0], c.t[-1], k), 'uniform grid')


def s_uniform_length():
    c = curve(nmin=2, dim=2)
    x = choose(0.5, 2) if choose(True, False) else real('len', 'pos')
    g = U(x, kind='length')(c)
    same(g, np.linspace(c.t[0], c.t[-1], int(round(c.arclen / x) + 1)), 'uniform grid of a chord length')


def s_uniform_short():
    c = curve(n=choose(0, 1), dim=2)
    raises(U(choose(2, 5)), ValueError, 'curve of fewer than two points is rejected', c)


def s_uniform_rejects():
    k = choose('kind', 'one', 'zero', 'negative', 'float', 'text', 'length text', 'length none', 'none')
    if k == 'kind':
        raises(U, ValueError, 'unknown kind', 5, kind=choose('points', 'len', '', None))
    elif k == 'one':
        raises(U, ValueError, 'one point', 1)
    elif k == 'zero':
        raises(U, ValueError, 'zero points', 0)
    elif k == 'negative':
        raises(U, ValueError, 'negative number of points', -4)
    elif k == 'float':
        raises(U, TypeError, 'fractional number of points', choose(5.0, 2.5))
    elif k == 'text':
        raises(U, TypeError, 'text for the number of points', '5')
    elif k == 'none':
        raises(U, TypeError, 'no number of points', None)
    elif k == 'length text':
        raises(U, TypeError, 'text for the length', '5', kind='length')
    else:
        raises(U, TypeError, 'no length', None, kind='length')


def s_uniform_any_invalid():
    k = nat('k', -20, 1)
    raises(U, ValueError, 'fewer than two points are rejected', k)


def inner():
    """any strictly increasing inner grid"""
    g = incr('g', nat('m', 2))

    class Grid(InterpolationGrid):
        def __call__(self, curve):
            return g
    return Grid(), g


def s_extrapolation_points():
    c = curve(nmin=2, dim=2)
    grid, g = inner()
    b, a = choose(0, 1, 3), choose(0, 1, 2)
    r = X(grid, before=b, after=a)(c)
    n = len(g)
    h = (g[n - 1] - g[0]) / (n - 1)
    same(len(r), n + a + b, 'number of values of the extrapolation grid')
    same(r[b:b + n], g, 'the inner grid is unchanged')
    for k in range(b):
        same(r[k], g[0] - h * (b - k), 'values before continue the mean step')
    for k in range(a):
        same(r[b + n + k], g[n - 1] + h * (k + 1), 'values after continue the mean step')


def s_extrapolation_length():
    c = curve(nmin=2, dim=2)
    grid, g = inner()
    x, y = choose((0, 0), (1.5, 0.0), (0.0, 2), (1.0, 3.0))
    r = X(grid, before=x, after=y, kind='length')(c)
    n = len(g)
    h = (g[n - 1] - g[0]) / (n - 1)
    b, a = int(round(x / h)), int(round(y / h))
    same(len(r), n + b + a, 'number of values for a length')
    same(r[b:b + n], g, 'the inner grid is unchanged')


def s_extrapolation_length_literal():
    c = curve(nmin=2, dim=2)

    class Grid(InterpolationGrid):
        def __call__(self, curve):
            return np.array([0.0, 1.0, 1.5, 2.0])
    h = 2.0 / 3.0
    r = X(Grid(), before=1.4, after=0.6, kind='length')(c)
    same(r, np.array([-2 * h, -h, 0.0, 1.0, 1.5, 2.0, 2.0 + h]), 'extrapolation by lengths')
    r = X(Grid(), before=0.6, after=1.9, kind='length')(c)
    same(r, np.array([-h, 0.0, 1.0, 1.5, 2.0, 2.0 + h, 2.0 + 2 * h, 2.0 + 3 * h]), 'extrapolation by lengths')


def s_extrapolation_uniform():
    """with the uniform grid inside"""
    c = curve(nmin=2, dim=2)
    k = choose(2, 4)
    b, a = choose(0, 2), choose(0, 1)
    r = X(U(k), before=b, after=a)(c)
    g = np.linspace(c.t[0], c.t[-1], k)
    h = (c.t[-1] - c.t[0]) / (k - 1)
    same(r[b:b + k], g, 'the uniform grid is unchanged')
    for j in range(b):
        same(r[j], c.t[0] - h * (b - j), 'values before continue the step')
    for j in range(a):
        same(r[b + k + j], c.t[-1] + h * (j + 1), 'values after continue the step')


def s_extrapolation_default():
    c = curve(nmin=2, dim=2)
    grid, g = inner()
    same(X(grid)(c), g, 'no extrapolation by default')


def s_extrapolation_rejects():
    grid, g = inner()
    k = choose('kind', 'before float', 'after float', 'before text', 'after text', 'length before text', 'length after none')
    if k == 'kind':
        raises(X, ValueError, 'unknown kind', grid, before=1, after=1, kind=choose('points', 'x', None))
    elif k == 'before float':
        raises(X, TypeError, 'fractional number of points before', grid, before=1.5, after=1)
    elif k == 'after float':
        raises(X, TypeError, 'fractional number of points after', grid, before=1, after=2.0)
    elif k == 'before text':
        raises(X, TypeError, 'text before', grid, before='1')
    elif k == 'after text':
        raises(X, TypeError, 'text after', grid, after='1')
    elif k == 'length before text':
        raises(X, TypeError, 'text for the length before', grid, before='1', after=1.0, kind='length')
    else:
        raises(X, TypeError, 'no length after', grid, before=1.0, after=None, kind='length')


def rescale(x, lo, hi):
    a, b = np.min(x), np.max(x)
    return (hi - lo) * (x - a) / (b - a) + lo


def s_speed():
    c = curve(nmin=2, dim=choose(2, 3, 4), par=False)
    k = choose(2, 5)
    kind = choose('linear', 'cubic', 'default')
    g = P(k)(c) if kind == 'default' else P(k, interp_kind=kind)(c)
    kind = 'linear' if kind == 'default' else kind
    want = interp.interp1d(np.linspace(0, 1, c.size), c.cumarclen, kind=kind)(np.linspace(0, 1, k))
    same(g, rescale(want, 0, c.arclen), 'cumulative arc length rescaled to the length of the curve')
    same(len(g), k, 'number of values of the speed-preserving grid')


def s_speed_parametric():
    c = curve(nmin=2, dim=2, par=True)
    k = choose(2, 5)
    same(P(k)(c), np.linspace(c.t[0], c.t[-1], k), 'speed-preserving grid of a parametric curve is uniform')


def s_grids_use_their_curve():
    """a grid object keeps nothing of the curve it was used with"""
    c, e = curve('c', 2, dim=2), curve('e', 2, dim=2)
    g = choose('uniform', 'length', 'extrapolation', 'speed')
    if g == 'uniform':
        grid, other = U(4), U(4)
    elif g == 'length':
        grid, other = U(0.5, kind='length'), U(0.5, kind='length')
    elif g == 'extrapolation':
        grid, other = X(U(4), before=1, after=2), X(U(4), before=1, after=2)
    else:
        grid, other = P(4), P(4)
    grid(c)
    same(grid(e), other(e), g + ' grid after use with another curve')


def s_through_interpolate():
    c = curve(nmin=2, dim=2)
    from skcurve import InterpolatorBase, register_interpolator
    seen = []

    @register_interpolator('c14-user')
    class User(InterpolatorBase):
        def _interpolate(self, grid):
            seen.append(grid)
            return ext_array('points', [grid], (len(grid), 2))
    assume(c.t[-1] > c.t[0] + 1.0)
    k = choose(2, 6)
    c.interpolate(k, method='c14-user')
    same(seen[0], np.linspace(c.t[0], c.t[-1], k), 'a number asks for the uniform grid')
    same(seen[0][0], c.t[0], 'the grid starts at the first parameter value')
    same(seen[0][k - 1], c.t[-1], 'the grid ends at the last parameter value')


def s_integer_types():
    """grids do not depend on the type of the coordinates"""
    c, f = twins(nmin=2, dim=choose(2, 3, 4))
    how = choose('point', 'length', 'speed', 'before')
    if how == 'point':
        g = U(nat('m', 2))
    elif how == 'length':
        g = U(real('h', 'pos'), kind='length')
    elif how == 'speed':
        g = P(nat('m', 2))
    else:
        g = X(U(5), before=2, after=1)
    same(g(c), g(f), 'grid of an integer curve')
