import scipy.signal as signal
import scipy.signal.windows as windows
import scipy.ndimage as ndimage
from skcurve import register_smooth_method, smooth_methods, get_smooth_method


def any_curve(nmin=3):
    k = choose('float', 'parametric', 'int', 'single')
    return curve(nmin=nmin, dim=choose(2, 3, 4), par=k == 'parametric', dtype={'int': 'int64', 'single': 'float32'}.get(k, 'float64'))


def shape(c, r, what):
    same(type(r) is type(c), True, what + ': type of the curve')
    same(r.size, c.size, what + ': number of points')
    same(r.ndim, c.ndim, what + ': dimension')
    same(r.isparametric, False, what + ': not parametric')
    same(r.dtype, np.dtype('float64'), what + ': type of the coordinates')


def s_shape():
    c = any_curve()
    m = choose('savgol', 'window')
    r = c.smooth('savgol', window_length=3, polyorder=1) if m == 'savgol' else c.smooth('window', window_size=3)
    shape(c, r, m)


def s_savgol():
    c = any_curve()
    w, p = choose((3, 1), (5, 2), (7, 3))
    r = c.smooth('savgol', window_length=w, polyorder=p)
    same(r.data, signal.savgol_filter(c.data, w, p, axis=0), 'Savitzky-Golay filter')


def s_savgol_options():
    c = curve(nmin=5, dim=choose(2, 3, 4))
    o = choose('deriv', 'delta', 'mode', 'cval', 'all')
    kw = {}
    if o in ('deriv', 'all'):
        kw['deriv'] = choose(1, 2)
    if o in ('delta', 'all'):
        kw['delta'] = 0.5
    if o in ('mode', 'all'):
        kw['mode'] = choose('mirror', 'constant', 'nearest', 'wrap')
    if o in ('cval', 'all'):
        kw['cval'] = 2.0
    r = c.smooth('savgol', window_length=5, polyorder=3, **kw)
    same(r.data, signal.savgol_filter(c.data, 5, 3, axis=0, **kw), 'Savitzky-Golay filter, option ' + o)


def conv(c, w, **kw):
    return ndimage.convolve1d(c.data.astype(float), w / np.sum(w), axis=0, **kw)


def s_window():
    c = any_curve()
    k = choose(3, 5, 8)
    t = choose('default', 'hann', 'boxcar', 'triang')
    kw = {} if t == 'default' else {'window_type': t}
    r = c.smooth('window', window_size=k, **kw)
    w = windows.get_window('hann' if t == 'default' else t, k, fftbins=False)
    same(r.data, conv(c, w), 'moving average with a normalised window')


def s_window_tuple():
    c = curve(nmin=3, dim=2)
    t = ('gaussian', 2.0)
    r = c.smooth('window', window_size=5, window_type=t)
    same(r.data, conv(c, windows.get_window(t, 5, fftbins=False)), 'moving average with a window with parameters')


def s_window_options():
    c = curve(nmin=3, dim=choose(2, 3, 4))
    o = choose('mode', 'cval', 'both')
    kw = {}
    if o in ('mode', 'both'):
        kw['mode'] = choose('constant', 'nearest', 'mirror', 'wrap')
    if o in ('cval', 'both'):
        kw['cval'] = 1.5
    r = c.smooth('window', window_size=3, **kw)
    same(r.data, conv(c, windows.get_window('hann', 3, fftbins=False), **kw), 'moving average, option ' + o)


def s_window_function():
    c = any_curve()
    k = choose(3, 4)
    w = arr('w', (k,), choose('float64', 'int64'), 'pos')
    sizes = []

    def window(size):
        sizes.append(size)
        return w
    r = c.smooth('window', window_size=k, window_type=window)
    same(sizes[0], k, 'the window function gets the size')
    same(r.data, conv(c, w), 'the window of a function is normalised')


def s_window_of_one():
    """a window of one value changes nothing"""
    c = any_curve()
    x = choose(1.0, 5.0, 0.25, 3)
    r = c.smooth('window', window_size=1, window_type=lambda n: np.array([x]))
    same(r.data, conv(c, np.array([1.0])), 'a window of one value has unit sum')


def s_method_not_finite():
    """the points are those of the method, finite or not"""
    n = nat('n', 1)
    c = curve(n=n, dim=2)
    d = arr('d', (n, 2), 'float64', 'nan')
    register_smooth_method('c16-nan')(lambda curve: d)
    same(c.smooth('c16-nan').data, d, 'points are those of the method')


def s_window_sum():
    """a window and its multiple smooth alike"""
    c = curve(nmin=3, dim=2)
    w = arr('w', (3,), 'float64', 'pos')
    a = c.smooth('window', window_size=3, window_type=lambda n: w)
    b = c.smooth('window', window_size=3, window_type=lambda n: w * 4.0)
    same(a.data, b.data, 'a multiple of a window smooths alike')


def s_coordinates_apart():
    n = nat('n', 5)
    x, y, z = arr('x', (n,)), arr('y', (n,)), arr('z', (n,))
    m = choose('savgol', 'window')
    kw = {'window_length': 5, 'polyorder': 2} if m == 'savgol' else {'window_size': 3}
    a, b = Curve([x, y]).smooth(m, **kw), Curve([z, y]).smooth(m, **kw)
    same(a.data[:, 1], b.data[:, 1], m + ': a coordinate does not depend on the others')


def s_user_method():
    n = nat('n', 1)
    c = curve(n=n, dim=choose(2, 3, 4))
    seen = []

    def user(curve, scale, shift=0):
        seen.append((curve, scale, shift))
        return ext_array('user', [curve.data], (n, curve.ndim))
    register_smooth_method('c16-user')(user)
    r = c.smooth('c16-user', scale=3, shift=4)
    same(len(seen), 1, 'the method is called once')
    same(is_same(seen[0][0], c), True, 'the method gets the curve')
    same(seen[0][1], 3, 'options reach the method')
    same(seen[0][2], 4, 'options reach the method')
    same(r.data, ext_array('user', [c.data], (n, c.ndim)), 'points are those of the method')
    shape(c, r, 'method of the user')


def s_subclass():
    class MyCurve(Curve):
        pass
    n = nat('n', 3)
    c = MyCurve(arr('d', (n, 2)), tdata=incr('t', n) if choose(False, True) else None)
    r = c.smooth('savgol', window_length=3, polyorder=1)
    shape(c, r, 'curve of a subclass')


def s_not_truncated():
    c = icurve(nmin=5, dim=choose(2, 3, 4))
    m = choose('savgol', 'window')
    r = c.smooth('savgol', window_length=5, polyorder=2) if m == 'savgol' else c.smooth('window', window_size=5)
    same(np.issubdtype(r.dtype, np.floating), True, m + ': coordinates of an integer curve are not truncated')


def s_integer_types():
    """smoothing does not depend on the type of the coordinates"""
    c, f = twins(nmin=5)
    m = choose('savgol', 'window')
    if m == 'savgol':
        a, b = c.smooth(m, window_length=5, polyorder=2), f.smooth(m, window_length=5, polyorder=2)
    else:
        a, b = c.smooth(m, window_size=5), f.smooth(m, window_size=5)
    same(a.data, b.data, m + ' of an integer curve')


def s_result_types():
    """whatever type a method returns, the coordinates are floating point numbers"""
    n = nat('n', 1)
    c = curve(n=n, dim=2, dtype=choose('float64', 'float32', 'int64'))
    t = choose('float32', 'int64', 'uint8', 'float64', 'bool')
    v = arr('v', (n, 2), t)
    k = choose('array', 'list')
    register_smooth_method('c16-types')(lambda curve: v if k == 'array' else np.asfortranarray(v))
    r = c.smooth('c16-types')
    same(r.data, v.astype('float64'), 'points are those of the method')
    shape(c, r, 'method returning ' + t)
