import scipy.interpolate as I
import csaps
from skcurve import get_interpolator


def setup(nmin=5, dtype='float64'):
    c = curve(nmin=nmin, dim=choose(2, 3, 4), dtype=dtype)
    g = incr('g', nat('m', 2))
    return c, g


def expect(c, g, name, f, kw, what):
    """all coordinates with points along the first axis, evaluated on the grid"""
    r = c.interpolate(g, method=name, **kw)
    same(r.data, f(g).astype(c.dtype), what)


def s_linear():
    c, g = setup()
    e = choose('default', True, False)
    kw = {} if e == 'default' else {'extrapolate': e}
    fill = None if e is False else 'extrapolate'
    expect(c, g, 'linear', I.interp1d(c.t, c.data, kind='linear', fill_value=fill, axis=0), kw, 'linear')


def s_cubic():
    c, g = setup()
    bc = choose('default', 'natural', 'not-a-knot', 'clamped', 'periodic')
    e = choose('default', True, False, 'periodic', None)
    kw = {}
    if bc != 'default':
        kw['bc_type'] = bc
    if e != 'default':
        kw['extrapolate'] = e
    b = 'natural' if bc == 'default' else bc
    x = None if e == 'default' else e
    expect(c, g, 'cubic', I.CubicSpline(c.t, c.data, axis=0, bc_type=b, extrapolate=x), kw, 'cubic')


def s_cubic_pair():
    c, g = setup()
    bc = ((1, 0.0), (2, 0.0))
    expect(c, g, 'cubic', I.CubicSpline(c.t, c.data, axis=0, bc_type=bc), {'bc_type': bc}, 'cubic with a pair of boundary conditions')


def s_hermite():
    c, g = setup()
    e = choose('default', True, False, 'periodic', None)
    kw = {} if e == 'default' else {'extrapolate': e}
    expect(c, g, 'hermite', I.CubicHermiteSpline(c.t, c.data, c.frenet1, axis=0, extrapolate=None if e == 'default' else e), kw, 'hermite with unit tangents')


def s_akima():
    c, g = setup()
    expect(c, g, 'akima', I.Akima1DInterpolator(c.t, c.data, axis=0), {}, 'akima')


def s_pchip():
    c, g = setup()
    e = choose('default', True, False, None)
    kw = {} if e == 'default' else {'extrapolate': e}
    expect(c, g, 'pchip', I.PchipInterpolator(c.t, c.data, axis=0, extrapolate=None if e == 'default' else e), kw, 'pchip')


def spline(c, g, w=None, k=3, s=0.0, ext=0):
    return np.stack([I.UnivariateSpline(c.t, c.data[:, j], w=w, k=k, s=s, ext=ext, check_finite=False)(g) for j in range(c.ndim)], axis=1)


def s_spline():
    c, g = setup()
    o = choose('default', 'k', 'smooth', 'weights', 'extrapolate', 'all')
    w = arr('w', (c.size,), hint='pos')
    kw = {}
    if o in ('k', 'all'):
        kw['k'] = choose(1, 2, 3, 4, 5)
    if o in ('smooth', 'all'):
        kw['smooth'] = choose(2.5, 0, 1e-3) if o == 'smooth' else 2.5
    if o in ('weights', 'all'):
        kw['weights'] = w
    if o in ('extrapolate', 'all'):
        kw['extrapolate'] = choose(0, 1, 2, 3, 'extrapolate', 'zeros', 'raise', 'const') if o == 'extrapolate' else choose(1, 3, 'zeros')
    want = spline(c, g, kw.get('weights'), kw.get('k', 3), kw.get('smooth', 0.0), kw.get('extrapolate', 0))
    same(c.interpolate(g, method='spline', **kw).data, want, 'spline, option ' + o)


def s_csaps():
    c, g = setup()
    o = choose('default', 'smooth', 'weights', 'all', 'automatic')
    w = arr('w', (c.size,), hint='pos')
    kw = {}
    if o in ('smooth', 'all'):
        kw['smooth'] = choose(0.25, 0.0, 0, 1.0) if o == 'smooth' else 0.25
    if o == 'automatic':
        kw['smooth'] = None
    if o in ('weights', 'all'):
        kw['weights'] = w
    f = csaps.CubicSmoothingSpline(c.t, c.data, weights=kw.get('weights'), smooth=kw.get('smooth', 1.0), axis=0)
    expect(c, g, 'csaps', f, kw, 'csaps, option ' + o)


def s_each_coordinate():
    """the curve of one coordinate decides that coordinate of the result alone"""
    n = nat('n', 5)
    x, y, z = arr('x', (n,)), arr('y', (n,)), arr('z', (n,))
    t, g = incr('t', n), incr('g', nat('m', 2))
    name = choose('linear', 'cubic', 'akima', 'pchip', 'spline', 'csaps')
    a = Curve([x, y], tdata=t).interpolate(g, method=name)
    b = Curve([z, y], tdata=t).interpolate(g, method=name)
    same(a.data[:, 1], b.data[:, 1], name + ': a coordinate does not depend on the others')


def s_parameter_vector():
    """an interpolation of a parametric curve depends on its parameters, not on its arc length"""
    n = nat('n', 5)
    t, g = incr('t', n), incr('g', nat('m', 2))
    d = arr('d', (n, 2))
    c = Curve(d, tdata=t)
    name = choose('linear', 'cubic', 'akima', 'pchip', 'spline', 'csaps', 'hermite')
    c.arclen
    r = c.interpolate(g, method=name)
    if name == 'linear':
        f = I.interp1d(t, d, kind='linear', fill_value='extrapolate', axis=0)
    elif name == 'cubic':
        f = I.CubicSpline(t, d, axis=0, bc_type='natural')
    elif name == 'akima':
        f = I.Akima1DInterpolator(t, d, axis=0)
    elif name == 'pchip':
        f = I.PchipInterpolator(t, d, axis=0)
    elif name == 'csaps':
        f = csaps.CubicSmoothingSpline(t, d, smooth=1.0, axis=0)
    elif name == 'hermite':
        f = I.CubicHermiteSpline(t, d, c.frenet1, axis=0)
    else:
        same(r.data, spline(c, g), name + ' on the parameter vector')
        return
    same(r.data, f(g), name + ' on the parameter vector')


def s_numbers():
    """integer and single precision curves"""
    c, g = setup(5, choose('int64', 'float32'))
    name = choose('linear', 'cubic', 'pchip')
    if name == 'linear':
        f = I.interp1d(c.t, c.data, kind='linear', fill_value='extrapolate', axis=0)
    elif name == 'cubic':
        f = I.CubicSpline(c.t, c.data, axis=0, bc_type='natural')
    else:
        f = I.PchipInterpolator(c.t, c.data, axis=0)
    expect(c, g, name, f, {}, name)


def s_object_reused():
    """an interpolator object evaluates each grid it is called with"""
    c, g = setup()
    h = incr('h', nat('k', 2))
    name = choose('linear', 'cubic', 'hermite', 'akima', 'pchip', 'spline', 'csaps')
    f = get_interpolator(name, c)
    f(g)
    same(f(h).data, c.interpolate(h, method=name).data, name + ' object called twice')


def s_extra_options():
    """options that a method does not have are refused"""
    from skcurve import InterpolationError
    c, g = setup()
    name, kw = choose(('linear', {'bc_type': 'natural'}), ('cubic', {'smooth': 1}), ('hermite', {'bc_type': 'natural'}), ('akima', {'extrapolate': True}),
                      ('pchip', {'smooth': 1}), ('spline', {'bc_type': 'natural'}), ('csaps', {'k': 3}))
    raises(c.interpolate, InterpolationError, name + ' refuses options it does not have', g, method=name, **kw)
