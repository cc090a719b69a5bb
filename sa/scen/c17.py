import skcurve
from skcurve import (InterpolatorBase, interp_methods, get_interpolator, register_interpolator, smooth_methods, get_smooth_method,
                     register_smooth_method, intersect_methods, get_intersect_method, default_intersect_method,
                     set_default_intersect_method, register_intersect_method)
from skcurve._intersect import IntersectionMethodBase, IntersectionWarning, NOT_INTERSECTED

INTERP = ['linear', 'cubic', 'hermite', 'akima', 'pchip', 'spline', 'csaps']
SMOOTH = ['savgol', 'window']
INTERSECT = ['exact', 'almost']
TEXTS = ['', 'Linear', 'exact ', 'no-such-method', 'default', 'None', 'EXACT']


def s_documented_names():
    for k in INTERP:
        holds(k in interp_methods(), 'interpolation method ' + k + ' is listed')
    for k in SMOOTH:
        holds(k in smooth_methods(), 'smoothing method ' + k + ' is listed')
    for k in INTERSECT:
        holds(k in intersect_methods(), 'intersection method ' + k + ' is listed')


def s_listing_is_a_snapshot():
    k = choose('interp', 'smooth', 'intersect')
    f = interp_methods if k == 'interp' else (smooth_methods if k == 'smooth' else intersect_methods)
    a = list(f())
    r = f()
    if isinstance(r, list):
        r.append('intruder')
        r.remove(a[0])
    same(list(f()), a, k + ': changing the returned listing does not change the registry')


def s_interp_resolves():
    c = curve(nmin=4, dim=2)
    got = []
    for k in INTERP:
        r, o = outcome(get_interpolator, k, c)
        if r == 'raise':
            skip()
        holds(isinstance(o, InterpolatorBase), k + ' resolves to an interpolator')
        got.append(type(o))
        same(o.curve is c, True, k + ': the interpolator is that of the curve')
    for i in range(len(got)):
        for j in range(i):
            holds(got[i] is not got[j], 'names ' + INTERP[j] + ' and ' + INTERP[i] + ' resolve to methods of their own')


def s_interp_every_name():
    """every listed name resolves, none raises NameError"""
    c = curve(nmin=4, dim=2)
    for k in interp_methods():
        r, o = outcome(get_interpolator, k, c)
        if r == 'raise':
            holds(excname(o) == 'InterpolationError', 'listed interpolation name ' + k + ' is known')


def s_smooth_every_name():
    for k in smooth_methods():
        r, o = outcome(get_smooth_method, k)
        same(r, 'ok', 'listed smoothing name ' + k + ' is known')
        holds(callable(o), 'smoothing method ' + k + ' is callable')
    holds(get_smooth_method('savgol') is not get_smooth_method('window'), 'smoothing names resolve to methods of their own')


def s_intersect_every_name():
    for k in intersect_methods():
        r, o = outcome(get_intersect_method, k)
        same(r, 'ok', 'listed intersection name ' + k + ' is known')
        holds(isinstance(o, IntersectionMethodBase), 'intersection method ' + k + ' is an intersection method')
    holds(type(get_intersect_method('exact')) is not type(get_intersect_method('almost')), 'intersection names resolve to methods of their own')


def s_unknown():
    c = curve(nmin=2, dim=2)
    e = curve('e', 2, dim=2)
    if choose(True, False):
        name = choose('', 'Linear', 'exact ', 'no-such-method', 'default', 'None', 'EXACT', 'Savgol', 'windo')
    else:
        name = string('name')
        assume(name not in interp_methods() and name not in smooth_methods() and name not in intersect_methods())
    k = choose('get_interpolator', 'interpolate', 'get_smooth_method', 'smooth', 'get_intersect_method', 'default', 'intersect', 'segment')
    d = default_intersect_method()
    if k == 'get_interpolator':
        raises(get_interpolator, NameError, 'unknown interpolation method', name, c)
    elif k == 'interpolate':
        raises(c.interpolate, NameError, 'unknown interpolation method', choose(5, np.array([0.0, 1.0])), name)
    elif k == 'get_smooth_method':
        raises(get_smooth_method, NameError, 'unknown smoothing method', name)
    elif k == 'smooth':
        raises(c.smooth, NameError, 'unknown smoothing method', name)
    elif k == 'get_intersect_method':
        raises(get_intersect_method, NameError, 'unknown intersection method', name)
    elif k == 'default':
        raises(set_default_intersect_method, NameError, 'unknown default intersection method', name)
    elif k == 'intersect':
        raises(c.intersect, NameError, 'unknown intersection method', e, method=name)
    else:
        raises(segment('a', 2).intersect, NameError, 'unknown intersection method', segment('b', 2), method=name)
    same(default_intersect_method(), d, 'a failed request does not change the default')


def s_unknown_empty():
    """an unknown name is reported for the empty curve too"""
    c = Curve([], ndmin=2)
    k = choose('interpolate', 'smooth', 'intersect')
    if k == 'interpolate':
        raises(c.interpolate, NameError, 'unknown interpolation method (empty curve)', 5, 'no-such-method')
    elif k == 'smooth':
        raises(c.smooth, NameError, 'unknown smoothing method (empty curve)', 'no-such-method')
    else:
        raises(c.intersect, NameError, 'unknown intersection method (empty curve)', c, method='no-such-method')


def s_taken_interp():
    c = curve(nmin=4, dim=2)
    name = choose('linear', 'cubic', 'hermite', 'akima', 'pchip', 'spline', 'csaps')
    before = interp_methods()
    r, o = outcome(get_interpolator, name, c)
    assume(r == 'ok')

    class Mine(InterpolatorBase):
        def _interpolate(self, grid):
            return ext_array('mine', [grid], (len(grid), 2))
    raises(register_interpolator(name), ValueError, 'registering the taken name ' + name, Mine)
    same(interp_methods(), before, 'interpolation names after a refused registration')
    r, p = outcome(get_interpolator, name, c)
    same(r == 'ok' and type(p) is type(o), True, 'the method of a taken name is unchanged')


def s_taken_smooth():
    name = choose('savgol', 'window')
    before = smooth_methods()
    f = get_smooth_method(name)

    def mine(c, **params):
        return c.data
    raises(register_smooth_method(name), ValueError, 'registering the taken name ' + name, mine)
    same(smooth_methods(), before, 'smoothing names after a refused registration')
    same(get_smooth_method(name) is f, True, 'the method of a taken name is unchanged')


class Never(IntersectionMethodBase):
    def _intersect_segments(self, segment1, segment2):
        return NOT_INTERSECTED

    def _intersect_curves(self, curve1, curve2):
        return []


def s_taken_intersect():
    name = choose('exact', 'almost')
    before = intersect_methods()
    t = type(get_intersect_method(name))
    d = default_intersect_method()
    raises(register_intersect_method(name, default=choose(False, True)), ValueError, 'registering the taken name ' + name, Never)
    same(intersect_methods(), before, 'intersection names after a refused registration')
    same(type(get_intersect_method(name)) is t, True, 'the method of a taken name is unchanged')
    same(default_intersect_method(), d, 'a refused registration does not change the default')


def s_own_name_twice():
    """a name registered by the user is taken as well"""
    k = choose('interp', 'smooth', 'intersect')
    c = curve(nmin=4, dim=2)

    class A(InterpolatorBase):
        pass

    class B(InterpolatorBase):
        pass

    class M(Never):
        pass

    def f(c, **params):
        return c.data

    def g(c, **params):
        return c.data
    if k == 'interp':
        register_interpolator('mine')(A)
        raises(register_interpolator('mine'), ValueError, 'registering a name of the user twice', B)
        same(type(get_interpolator('mine', c)) is A, True, 'the first registration stays')
    elif k == 'smooth':
        register_smooth_method('mine')(f)
        raises(register_smooth_method('mine'), ValueError, 'registering a name of the user twice', g)
        same(get_smooth_method('mine') is f, True, 'the first registration stays')
    else:
        register_intersect_method('mine')(Never)
        raises(register_intersect_method('mine', default=True), ValueError, 'registering a name of the user twice', M)
        same(type(get_intersect_method('mine')) is Never, True, 'the first registration stays')
        same(default_intersect_method(), 'exact', 'the default stays')


def s_wrong_base():
    class Other:
        pass
    k = choose('interp', 'intersect')
    cls = choose(Other, int, Curve)
    if k == 'interp':
        cls = choose(cls, Never)
        before = interp_methods()
        raises(register_interpolator('wrong'), TypeError, 'interpolator of another base', cls)
        same(interp_methods(), before, 'interpolation names after a refused registration')
        raises(get_interpolator, NameError, 'a refused name is unknown', 'wrong', curve(nmin=2, dim=2))
    else:
        cls = choose(cls, InterpolatorBase)
        before = intersect_methods()
        raises(register_intersect_method('wrong', default=choose(False, True)), TypeError, 'intersection method of another base', cls)
        same(intersect_methods(), before, 'intersection names after a refused registration')
        raises(get_intersect_method, NameError, 'a refused name is unknown', 'wrong')
        same(default_intersect_method(), 'exact', 'a refused registration does not change the default')


def s_new_interp():
    before = interp_methods()

    class Mine(InterpolatorBase):
        def __init__(self, curve, *, level=0):
            super().__init__(curve)
            self.level = level

        def _interpolate(self, grid):
            return ext_array('mine', [grid, self.level], (len(grid), 2))
    register_interpolator('mine')(Mine)
    same(interp_methods(), before + ['mine'], 'a new interpolation name is listed')
    c = curve(nmin=2, dim=2, par=False)
    v = real('level')
    o = get_interpolator('mine', c, level=v)
    same(type(o) is Mine, True, 'a new interpolation name resolves to its class')
    same(o.level, v, 'its parameters are handed over')
    g = gridvalues()
    same(c.interpolate(g, 'mine', level=v).data, ext_array('mine', [g, v], (len(g), 2)), 'a new interpolation method is used by interpolate')
    for k in INTERP:
        holds(k in interp_methods(), k + ' stays registered')


def s_new_smooth():
    before = smooth_methods()

    def mine(c, level=0):
        return ext_array('mine', [c.data, level], c.data.shape)
    register_smooth_method('mine')(mine)
    same(smooth_methods(), before + ['mine'], 'a new smoothing name is listed')
    same(get_smooth_method('mine') is mine, True, 'a new smoothing name resolves to its function')
    c = curve(nmin=2, dim=2, par=False)
    v = real('level')
    same(c.smooth('mine', level=v).data, ext_array('mine', [c.data, v], c.data.shape), 'a new smoothing method is used by smooth')


def s_new_intersect():
    before = intersect_methods()
    calls = []

    class Mine(IntersectionMethodBase):
        def __init__(self, level=0):
            self.level = level

        def _intersect_segments(self, segment1, segment2):
            calls.append(self.level)
            return NOT_INTERSECTED

        def _intersect_curves(self, curve1, curve2):
            calls.append(self.level)
            return []
    default = choose(False, True)
    if default:
        register_intersect_method('mine', default=True)(Mine)
    else:
        choose(register_intersect_method('mine'), register_intersect_method('mine', default=False))(Mine)
    same(intersect_methods(), before + ['mine'], 'a new intersection name is listed')
    same(default_intersect_method(), 'mine' if default else 'exact', 'the default changes exactly if asked for')
    v = real('level')
    o = get_intersect_method('mine', level=v)
    same(type(o) is Mine, True, 'a new intersection name resolves to its class')
    same(o.level, v, 'its parameters are handed over')
    c, e = curve('c', 2, dim=2, par=False), curve('e', 2, dim=2, par=False)
    same(c.intersect(e, 'mine', level=v), [], 'a new intersection method is used')
    same(calls, [v], 'a new intersection method is called once with its parameters')
    if default:
        c.intersect(e)
        same(len(calls), 2, 'the default method is used when none is named')
        c.intersect(e, level=v)
        same(calls, [v, 0, v], 'parameters reach the default method')


def s_default():
    same(default_intersect_method(), 'exact', 'the default intersection method')
    holds(default_intersect_method() in intersect_methods(), 'the default is a registered name')
    set_default_intersect_method('almost')
    same(default_intersect_method(), 'almost', 'the default after an explicit request')
    raises(set_default_intersect_method, NameError, 'unknown default', choose('wrong', '', 'Exact', None))
    same(default_intersect_method(), 'almost', 'the default after a refused request')
    set_default_intersect_method('exact')
    same(default_intersect_method(), 'exact', 'the default set back')


def s_default_is_used():
    """no method named: the default at the time of the call"""
    calls = []

    class One(Never):
        def _intersect_curves(self, curve1, curve2):
            calls.append('one')
            return []

        def _intersect_segments(self, s1, s2):
            calls.append('one')
            return NOT_INTERSECTED

    class Two(Never):
        def _intersect_curves(self, curve1, curve2):
            calls.append('two')
            return []

        def _intersect_segments(self, s1, s2):
            calls.append('two')
            return NOT_INTERSECTED
    register_intersect_method('one')(One)
    register_intersect_method('two')(Two)
    if choose('curves', 'segments') == 'curves':
        a, b = curve('c', 2, dim=2, par=False), curve('e', 2, dim=2, par=False)
    else:
        a, b = segment('a', 2), segment('b', 2)
    set_default_intersect_method('one')
    a.intersect(b)
    set_default_intersect_method('two')
    a.intersect(b)
    a.intersect(b, method='one')
    a.intersect(b, method=None)
    same(calls, ['one', 'two', 'one', 'two'], 'the default at the time of the call is used')
    same(default_intersect_method(), 'two', 'naming a method in a call does not change the default')


def s_default_stays():
    """no other operation changes the default or the registries"""
    c, e = curve('c', 2, dim=2), curve('e', 2, dim=2, par=False)
    names = [interp_methods(), smooth_methods(), intersect_methods()]
    k = choose('exact', 'almost', 'get', 'instance', 'interpolate', 'smooth', 'listing')
    if k == 'exact':
        outcome(segment('a', 2).intersect, segment('b', 2), method='exact')
    elif k == 'almost':
        outcome(segment('a', 2).intersect, segment('b', 2), method='almost', dist_tol=0.1)
    elif k == 'get':
        get_intersect_method('almost')
    elif k == 'instance':
        c.intersect(e, method=Never())
    elif k == 'interpolate':
        outcome(c.interpolate, 5, choose('linear', 'csaps'))
    elif k == 'smooth':
        outcome(c.smooth, 'window', window_size=5)
    else:
        intersect_methods(), interp_methods(), smooth_methods()
    same(default_intersect_method(), 'exact', k + ': the default is unchanged')
    same([interp_methods(), smooth_methods(), intersect_methods()], names, k + ': the registries are unchanged')


def s_instance_is_used():
    calls = []

    class Mine(Never):
        def _intersect_curves(self, curve1, curve2):
            calls.append((curve1, curve2))
            return []
    m = Mine()
    a, b = curve('c', 2, dim=2, par=False), curve('e', 2, dim=2, par=False)
    if choose(False, True):
        k = mark()
        a.intersect(b, method=m, dist_tol=0.1)
        holds(warned(k, IntersectionWarning), 'parameters given with a method object are reported as ignored')
    else:
        k = mark()
        a.intersect(b, method=m)
        same(len(warnings_since(k)), 0, 'no warning for a method object')
    same(len(calls), 1, 'a method object is called once')
    same(calls[0][0] is a and calls[0][1] is b, True, 'a method object is given both curves in their order')


def s_invalid_method():
    a, b = curve('c', 2, dim=2, par=False), curve('e', 2, dim=2, par=False)

    class Other:
        pass
    bad = choose(5, Other(), Never, 2.5, ['exact'], True)
    raises(a.intersect, ValueError, 'something that is neither a name nor a method', b, method=bad)


def s_odd_names():
    """any name can be registered; it is listed and resolved as given"""
    name = choose('_mine', 'Mine', 'mine method', ' mine', '', 'linear2', '__mine__', 'MINE')
    k = choose('interp', 'smooth', 'intersect')
    if k == 'interp':
        class Interp(InterpolatorBase):
            pass
        before = interp_methods()
        register_interpolator(name)(Interp)
        same(interp_methods(), before + [name], 'a new interpolation name is listed')
        same(type(get_interpolator(name, curve(nmin=2, dim=2))) is Interp, True, 'a new interpolation name resolves to its class')
        raises(register_interpolator(name), ValueError, 'a taken interpolation name is refused', Interp)
    elif k == 'smooth':
        def smooth(c):
            return c.data
        before = smooth_methods()
        register_smooth_method(name)(smooth)
        same(smooth_methods(), before + [name], 'a new smoothing name is listed')
        same(get_smooth_method(name) is smooth, True, 'a new smoothing name resolves to its function')
        raises(register_smooth_method(name), ValueError, 'a taken smoothing name is refused', smooth)
    else:
        class Inter(IntersectionMethodBase):
            def _intersect_segments(self, segment1, segment2):
                return NOT_INTERSECTED

            def _intersect_curves(self, curve1, curve2):
                return []
        before = intersect_methods()
        register_intersect_method(name)(Inter)
        same(intersect_methods(), before + [name], 'a new intersection name is listed')
        same(type(get_intersect_method(name)) is Inter, True, 'a new intersection name resolves to its class')
        raises(register_intersect_method(name), ValueError, 'a taken intersection name is refused', Inter)
