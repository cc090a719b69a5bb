from skcurve import InterpolatorBase, InterpolationGrid, InterpolationError, register_interpolator, get_interpolator
from skcurve import SmoothingError, register_smooth_method, IntersectionType, NOT_INTERSECTED
from skcurve import register_intersect_method, set_default_intersect_method
from skcurve._intersect import IntersectionMethodBase, IntersectionError


class Odd(Exception):
    pass


class OddValue(ValueError):
    pass


class OddType(TypeError):
    pass


def chained(text):
    """an exception that has a cause of its own"""
    try:
        try:
            raise KeyError('inner')
        except KeyError as inner:
            raise RuntimeError(text) from inner
    except RuntimeError as e:
        return e


def nested(text):
    """an exception raised while another one was handled"""
    try:
        try:
            raise KeyError('inner')
        except KeyError:
            raise LookupError(text)
    except LookupError as e:
        return e


def failure():
    """an exception of a pluggable method"""
    return choose(ValueError, TypeError, KeyError, IndexError, RuntimeError, ZeroDivisionError, AttributeError, NameError, ArithmeticError,
                  NotImplementedError, OSError, StopIteration, AssertionError, Warning, np.linalg.LinAlgError, Exception, Odd, OddValue,
                  MemoryError, FloatingPointError, OverflowError, LookupError, RecursionError, EOFError, BufferError, ImportError, UnicodeError,
                  TimeoutError, RuntimeWarning, DeprecationWarning, np.AxisError, InterpolationError, SmoothingError, IntersectionError, UserWarning, chained, nested)('the cause')


def s_interpolator_creation():
    e = failure()
    late = choose(False, True)

    @register_interpolator('c18')
    class Mine(InterpolatorBase):
        def __init__(self, curve, **params):
            if late:
                super().__init__(curve)
            raise e
    c = curve(nmin=2, dim=2)
    if choose(False, True):
        x = raises(get_interpolator, InterpolationError, 'failing creation (get_interpolator)', 'c18', c)
    else:
        x = raises(c.interpolate, InterpolationError, 'failing creation (interpolate)', 5, 'c18')
    same(x.__cause__ is e, True, 'the exception of the creation is the cause')


def s_interpolator_creation_parameters():
    """parameters the interpolator does not take"""
    c = curve(nmin=2, dim=2)

    @register_interpolator('c18')
    class Mine(InterpolatorBase):
        def __init__(self, curve, *, level=0):
            super().__init__(curve)
    name = choose('c18', 'linear', 'cubic', 'hermite', 'akima', 'pchip', 'spline', 'csaps')
    x = raises(c.interpolate, InterpolationError, 'unknown parameter', 5, name, no_such_parameter=1)
    same(type(x.__cause__) is TypeError, True, 'the cause is the exception of the constructor')


def s_interpolation():
    e = failure()

    @register_interpolator('c18')
    class Mine(InterpolatorBase):
        def _interpolate(self, grid):
            raise e
    c = curve(nmin=2, dim=2)
    g = gridvalues()
    if choose(False, True):
        x = raises(get_interpolator('c18', c), InterpolationError, 'failing evaluation (interpolator object)', g)
    else:
        x = raises(c.interpolate, InterpolationError, 'failing evaluation (interpolate)', g, 'c18')
    same(x.__cause__ is e, True, 'the exception of the evaluation is the cause')


def s_interpolation_not_implemented():
    @register_interpolator('c18')
    class Mine(InterpolatorBase):
        pass
    c = curve(nmin=2, dim=2)
    x = raises(c.interpolate, InterpolationError, 'interpolator without an evaluation', gridvalues(), 'c18')
    same(type(x.__cause__) is NotImplementedError, True, 'the cause is NotImplementedError')


def s_interpolation_builtin():
    """a failing backend of a built-in method"""
    import scipy.interpolate as interp
    import csaps
    name = choose('linear', 'cubic', 'hermite', 'akima', 'pchip', 'spline', 'csaps')
    c = curve(nmin=2, dim=2)
    r, o = outcome(c.interpolate, gridvalues(), name)
    if r == 'raise':
        holds(isinstance(o, InterpolationError) or isinstance(o, ValueError), name + ': a failure is an InterpolationError (or an invalid grid)')
        if isinstance(o, InterpolationError):
            holds(o.__cause__ is not None, name + ': the failure has a cause')


def s_interpolation_foreign():
    """some callable of the method fails, whatever it raises and whenever: the second evaluation"""
    e = failure()
    count = []

    @register_interpolator('c18')
    class Mine(InterpolatorBase):
        def _interpolate(self, grid):
            count.append(1)
            if len(count) > 1:
                raise e
            return ext_array('points', [grid], (len(grid), 2))
    c = curve(nmin=2, dim=2)
    f = get_interpolator('c18', c)
    g = gridvalues()
    f(g)
    x = raises(f, InterpolationError, 'failing second evaluation', g)
    same(x.__cause__ is e, True, 'the exception of the second evaluation is the cause')


def s_smoothing():
    e = failure()

    def mine(c, **params):
        raise e
    register_smooth_method('c18')(mine)
    c = curve(nmin=choose(0, 2), dim=choose(2, 3, 4))
    r, x = outcome(c.smooth, 'c18', level=choose(0, 1))
    same(r, 'raise', 'a failing smoothing method fails')
    if isinstance(e, (ValueError, TypeError)):
        same(x is e, True, 'ValueError and TypeError pass unchanged')
        same(x.__cause__ is None, True, 'a passed exception gets no cause')
    else:
        same(type(x) is SmoothingError, True, 'any other failure is a SmoothingError')
        same(x.__cause__ is e, True, 'the exception of the method is the cause')


def s_smoothing_parameters():
    def mine(c, level):
        return c.data
    register_smooth_method('c18')(mine)
    c = curve(nmin=2, dim=2)
    raises(c.smooth, TypeError, 'missing parameter of a smoothing method', 'c18')
    raises(c.smooth, TypeError, 'unknown parameter of a smoothing method', 'c18', level=1, other=2)
    raises(c.smooth, TypeError, 'unknown parameter of a built-in smoothing method', choose('savgol', 'window'), no_such_parameter=2)


def s_window():
    """a failing window function is a ValueError with its cause"""
    e = choose(KeyError, ZeroDivisionError, Odd, TypeError, ValueError, MemoryError)('the cause')

    def window(size):
        raise e
    c = curve(nmin=2, dim=2)
    x = raises(c.smooth, ValueError, 'failing window function', 'window', window_size=5, window_type=window)
    same(x is e or x.__cause__ is e, True, 'the exception of the window function is kept')


def operand(name, seg, n=None):
    if seg:
        return segment(name, 2)
    return curve(name, 2, dim=2, par=False)


def s_intersection():
    e = failure()

    class Mine(IntersectionMethodBase):
        def _intersect_segments(self, segment1, segment2):
            raise e

        def _intersect_curves(self, curve1, curve2):
            raise e
    register_intersect_method('c18')(Mine)
    a, b = operand('a', choose(False, True)), operand('b', choose(False, True))
    how = choose('name', 'object', 'default')
    if how == 'name':
        x = raises(a.intersect, IntersectionError, 'failing intersection method', b, 'c18')
    elif how == 'object':
        x = raises(a.intersect, IntersectionError, 'failing intersection method object', b, method=Mine())
    else:
        set_default_intersect_method('c18')
        x = raises(a.intersect, IntersectionError, 'failing default intersection method', b)
    same(x.__cause__ is e, True, 'the exception of the method is the cause')


def s_intersection_call():
    """a method that overrides the call itself"""
    e = failure()

    class Mine(IntersectionMethodBase):
        def __call__(self, obj1, obj2):
            raise e

        def _intersect_segments(self, segment1, segment2):
            return NOT_INTERSECTED

        def _intersect_curves(self, curve1, curve2):
            return []
    a, b = operand('a', choose(False, True)), operand('b', choose(False, True))
    x = raises(a.intersect, IntersectionError, 'failing intersection method', b, method=Mine())
    same(x.__cause__ is e, True, 'the exception of the method is the cause')


def s_intersection_second_pair():
    """the failure of one pair of segments is not swallowed by the others"""
    e = failure()
    from skcurve import get_intersect_method
    base = type(get_intersect_method('exact'))
    count = []

    class Mine(base):
        def _intersect_segments(self, segment1, segment2):
            count.append(1)
            if len(count) > 1:
                raise e
            return NOT_INTERSECTED
    c = Curve(np.array([[0.0, 0.0], [1.0, 1.0], [2.0, 0.0]]))
    d = Curve(np.array([[0.0, 0.5], [2.0, 0.5]]))
    r, x = outcome(c.intersect, d, method=Mine())
    same(r == 'raise' and type(x) is IntersectionError, True, 'failing second pair of segments')
    if r == 'raise':
        same(x.__cause__ is e, True, 'the exception of the pair is the cause')


def s_intersection_bad_operand():
    """an operand the method cannot handle"""
    a = operand('a', choose(False, True))
    b = choose(point('p', 2), point('q', 2))
    raises(a.intersect, IntersectionError, 'operand that is neither segment nor curve', b)


def s_intersection_exact_backend():
    """the documented exception: a singular system of the plane case is a warning and no intersection"""
    a, b = segment('a', 2), segment('b', 2)
    r, x = outcome(a.intersect, b, 'exact')
    if r == 'raise':
        holds(isinstance(x, IntersectionError), 'a failure of the exact method is an IntersectionError')
        holds(x.__cause__ is not None, 'a failure of the exact method has a cause')


def s_self_intersection():
    e = failure()

    class Mine(IntersectionMethodBase):
        def _intersect_segments(self, segment1, segment2):
            return NOT_INTERSECTED

        def _intersect_curves(self, curve1, curve2):
            raise e
    c = curve(nmin=2, dim=choose(2, 3, 4))
    if choose(False, True):
        x = raises(c.intersect, IntersectionError, 'failing self-intersection', method=Mine())
    else:
        x = raises(c.intersect, IntersectionError, 'failing self-intersection', c, method=Mine())
    same(x.__cause__ is e, True, 'the exception of the method is the cause')
