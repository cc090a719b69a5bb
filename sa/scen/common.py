"""Generators shared by the scenarios: symbolic curves, points and segments."""
import warnings
import numpy as np
from skcurve import Curve, Point, Segment, CurvePoint, CurveSegment


def curve(name='c', nmin=1, dim=None, par=None, dtype='float64', nmax=INF, n=None, hint=''):
    """A curve of any number of points (at least nmin); dimension 2 or 3, with or without parameter vector."""
    if n is None:
        n = nat('N' + name, nmin, nmax)
    if dim is None:
        dim = choose(2, 3, 4)
    if par is None:
        par = choose(False, True)
    d = arr('data_' + name, (n, dim), dtype, hint)
    if par:
        return Curve(d, tdata=incr('t_' + name, n) if par == 'incr' else arr('t_' + name, (n,)))
    return Curve(d)


def icurve(name='c', nmin=1, dim=None, par=None):
    return curve(name, nmin, dim, par, 'int64')


def point(name='p', dim=2, dtype='float64'):
    return Point(arr('x_' + name, (dim,), dtype))


def segment(name='s', dim=2):
    return Segment(point(name + '1', dim), point(name + '2', dim))


def row(c, i):
    return c.data[i]


def pt(c, i):
    """index of any point of the curve"""
    k = nat(i, 0)
    assume(k < c.size)
    return k


def dist(a, b):
    return np.sqrt(np.sum((a - b) ** 2))


def gridvalues(name='g', nmin=2):
    """any valid interpolation grid"""
    g = incr(name, nat('m' + name, nmin))
    d = np.diff(g)
    assume(not np.any(d < 0) and not np.any(np.isclose(d, 0)))
    return g


def twins(name='c', nmin=1, dim=None, par=None, n=None, types=('int64', 'uint8', 'int16')):
    """a curve of an integer type and the curve of the same coordinates as floating point numbers"""
    t = choose(*types)
    if n is None:
        n = nat('N' + name, nmin)
    if dim is None:
        dim = choose(2, 3)
    if par is None:
        par = choose(False, True)
    d = arr('data_' + name, (n, dim), t)
    w = d.astype('float64')
    u = incr('t_' + name, n) if par else None
    return Curve(d, tdata=u), Curve(w, tdata=u)
