import numpy as np
from scipy.special import fresnel
from skcurve import Curve
import skcurve.curves as curves


def check(c, cols, theta, what):
    same(type(c) is Curve, True, what + ' is a curve')
    same(c.data, np.stack(cols, axis=1), what + ' coordinates')
    same(c.t, theta, what + ' parameter')
    same(c.isparametric, True, what + ' is parametric')
    same(c.size, len(theta), what + ' number of points')
    same(c.ndim, len(cols), what + ' dimension')


def rng():
    return real('t0'), real('t1'), nat('N', 2)


def call(fn, names, vals):
    """positional, keyword, or one argument by default"""
    how = choose('keyword', 'positional')
    if how == 'keyword':
        return fn(**dict(zip(names, vals)))
    return fn(*vals)


def s_arc():
    t0, t1, n = rng()
    r, c = real('r'), real('c')
    got = call(curves.arc, ['t_start', 't_stop', 'p_count', 'r', 'c'], [t0, t1, n, r, c])
    th = np.linspace(t0, t1, n)
    check(got, [np.cos(th) * r + c, np.sin(th) * r + c], th, 'arc')


def s_lemniscate():
    t0, t1, n = rng()
    c = real('c')
    got = call(curves.lemniscate_of_bernoulli, ['t_start', 't_stop', 'p_count', 'c'], [t0, t1, n, c])
    th = np.linspace(t0, t1, n)
    den = np.sin(th) ** 2 + 1
    check(got, [c * np.sqrt(2) * np.cos(th) / den, c * np.sqrt(2) * np.cos(th) * np.sin(th) / den], th, 'lemniscate')


def s_spiral():
    t0, t1, n = rng()
    a, b = real('a'), real('b')
    got = call(curves.archimedean_spiral, ['t_start', 't_stop', 'p_count', 'a', 'b'], [t0, t1, n, a, b])
    th = np.linspace(t0, t1, n)
    check(got, [(a + b * th) * np.cos(th), (a + b * th) * np.sin(th)], th, 'Archimedean spiral')


def s_euler():
    t0, t1, n = rng()
    got = call(curves.euler_spiral, ['t_start', 't_stop', 'p_count'], [t0, t1, n])
    th = np.linspace(t0, t1, n)
    s, c = fresnel(th)
    check(got, [c, s], th, 'Euler spiral')


def s_lissajous():
    t0, t1, n = rng()
    A, B, a, b, d = real('A'), real('B'), real('a'), real('b'), real('d')
    got = call(curves.lissajous, ['t_start', 't_stop', 'p_count', 'a_ampl', 'b_ampl', 'a', 'b', 'd'], [t0, t1, n, A, B, a, b, d])
    th = np.linspace(t0, t1, n)
    check(got, [A * np.sin(a * th + d), B * np.sin(b * th)], th, 'Lissajous curve')


def s_helix():
    t0, t1, n = rng()
    a, b = real('a'), real('b')
    got = call(curves.helix, ['t_start', 't_stop', 'p_count', 'a', 'b'], [t0, t1, n, a, b])
    th = np.linspace(t0, t1, n)
    check(got, [np.sin(th) * a, np.cos(th) * a, th * b], th, 'helix')


def s_irregular_helix():
    t0, t1, n = rng()
    z0, z1 = real('z0'), real('z1')
    got = call(curves.irregular_helix, ['t_start', 't_stop', 'z_start', 'z_stop', 'p_count'], [t0, t1, z0, z1, n])
    th = np.linspace(t0, t1, n)
    z = np.linspace(z0, z1, n)
    r = z ** 2 + 1
    check(got, [r * np.sin(th), r * np.cos(th), z], th, 'irregular helix')


def s_defaults():
    n = nat('N', 2)
    pi = np.pi
    for name, t0, t1 in [('arc', 0.0, 2 * pi), ('lemniscate_of_bernoulli', 0.0, 2 * pi), ('archimedean_spiral', 0.0, 5 * pi), ('euler_spiral', -3 * pi / 2, 3 * pi / 2),
                         ('lissajous', 0.0, 2 * pi), ('helix', -3 * pi, 3 * pi), ('irregular_helix', -4 * pi, 4 * pi)]:
        got = getattr(curves, name)(p_count=n)
        same(got.t, np.linspace(t0, t1, n), name + ' default range')
        same(got.size, n, name + ' default size')


def s_default_shape():
    """without arguments: the published curve"""
    pi = np.pi
    k = choose('arc', 'lemniscate', 'spiral', 'euler', 'lissajous', 'helix', 'irregular')
    if k == 'arc':
        got, want, n = curves.arc(), curves.arc(0.0, 2 * pi, 49, 1.0, 0.0), 49
    elif k == 'lemniscate':
        got, want, n = curves.lemniscate_of_bernoulli(), curves.lemniscate_of_bernoulli(0.0, 2 * pi, 101, 1.0), 101
    elif k == 'spiral':
        got, want, n = curves.archimedean_spiral(), curves.archimedean_spiral(0.0, 5 * pi, 200, 1.5, -2.4), 200
    elif k == 'euler':
        got, want, n = curves.euler_spiral(), curves.euler_spiral(-1.5 * pi, 1.5 * pi, 1000), 1000
    elif k == 'lissajous':
        got, want, n = curves.lissajous(), curves.lissajous(0.0, 2 * pi, 101, 1.0, 1.0, 3.0, 2.0, 0.0), 101
    elif k == 'helix':
        got, want, n = curves.helix(), curves.helix(-3 * pi, 3 * pi, 100, 1.0, 1.0), 100
    else:
        got, want, n = curves.irregular_helix(), curves.irregular_helix(-4 * pi, 4 * pi, -2.0, 2.0, 100), 100
    same(got.size, n, k + ' default number of points')
    same(got.t, want.t, k + ' default parameter values')
    same(got.data, want.data, k + ' default shape')
