from matplotlib.axes import Axes
from mpl_toolkits.mplot3d import Axes3D
from skcurve.plot import CurvePlot, curveplot


class Bar:
    def __init__(self):
        self.ax = self
        self.labels = []

    def set_ylabel(self, text):
        self.labels.append(text)


class Figure:
    def __init__(self):
        self.bars = []

    def colorbar(self, mappable, **kw):
        b = Bar()
        self.bars.append((mappable, kw, b))
        return b


class Recorder:
    """axes that record what is drawn on them"""
    def start(self):
        self.calls = []
        self.figure = Figure()
        return self

    def plot(self, *a, **k):
        self.calls.append(('plot', a, k))

    def scatter(self, *a, **k):
        self.calls.append(('scatter', a, k))

    def quiver(self, *a, **k):
        self.calls.append(('quiver', a, k))

    def add_collection(self, *a, **k):
        self.calls.append(('add_collection', a, k))

    def add_collection3d(self, *a, **k):
        self.calls.append(('add_collection3d', a, k))

    def autoscale(self, *a, **k):
        self.calls.append(('autoscale', a, k))

    def auto_scale_xyz(self, *a, **k):
        self.calls.append(('auto_scale_xyz', a, k))

    def autoscale_view(self, *a, **k):
        self.calls.append(('autoscale', a, k))

    def autoscale_None(self, *a, **k):
        self.calls.append(('autoscale', a, k))


class Plane(Recorder, Axes):
    name = 'rectilinear'


class Space(Recorder, Axes3D):
    name = '3d'
    zaxis = None

    def set_zlim(self, *a):
        pass

    get_zlim = set_zlim


def axes(dim):
    return (Plane if dim == 2 else Space)().start()


def drawn(ax, name):
    return [x for x in ax.calls if x[0] == name]


def coordinates(call, c, what):
    a = call[1]
    holds(len(a) >= c.ndim, what + ': all coordinates are drawn')
    for i in range(c.ndim):
        same(a[i], c.data[:, i], what + ': coordinate ' + str(i))
    return a[c.ndim:], call[2]


def s_plain():
    dim = choose(2, 3)
    c = curve(nmin=0, dim=dim)
    ax = axes(dim)
    kw = choose({}, {'color': 'red'}, {'linewidth': 2, 'marker': 'o'})
    args = choose((), ('r-',))
    p = CurvePlot(c, *args, axes=ax, **kw)
    same(p.axes is ax, True, 'the axes given are used')
    calls = drawn(ax, 'plot')
    same(len(calls), 1, 'one line is drawn')
    a, k = coordinates(calls[0], c, 'line')
    same(tuple(a), args, 'positional settings')
    same(dict(k), kw, 'keyword settings')
    same(len(ax.calls), 1, 'nothing else is drawn')
    same(len(ax.figure.bars), 0, 'no colour bar')


def s_new_axes():
    dim = choose(2, 3)
    c = curve(nmin=2, dim=dim)
    kw = choose({}, {'color': 'red'})
    k = mark()
    p = CurvePlot(c, **kw)
    same(named(p.axes, '3d'), dim == 3, 'new axes have the dimension of the curve')
    calls = calls_of(k, p.axes.plot)
    same(len(calls), 1, 'one line is drawn on the new axes')
    a, q = calls[0]
    for i in range(dim):
        same(a[i], c.data[:, i], 'coordinate ' + str(i))
    same(dict(q), kw, 'keyword settings')


def s_separate_new_axes():
    c, d = curve('c', 2, dim=choose(2, 3)), curve('d', 2, dim=choose(2, 3))
    k = mark()
    CurvePlot(c)
    CurvePlot(d)
    n = len([e for e in events('extcall', k) if e[0] in ('matplotlib.pyplot.figure', 'matplotlib.pyplot.subplots')])
    holds(n == 2, 'separate plots without axes get separate new axes')


def s_chain():
    dim = choose(2, 3)
    c, d, e = curve('c', 1, dim=dim), curve('d', 1, dim=dim, par=False), curve('e', 1, dim=dim, par=False)
    ax = axes(dim)
    first = choose({}, {'color': 'red', 'marker': 'o'})
    one = CurvePlot(c, 'r-', axes=ax, **first)
    two = one.curveplot(d, color='blue')
    three = two.curveplot(e, 'g:', linewidth=3)
    for p in (two, three):
        same(p.axes is ax, True, 'chained plots share the axes')
    calls = drawn(ax, 'plot')
    same(len(calls), 3, 'every chained plot draws one line')
    for call, curve_, args, kw in zip(calls, (c, d, e), (('r-',), (), ('g:',)), (first, {'color': 'blue'}, {'linewidth': 3})):
        a, k = coordinates(call, curve_, 'chained line')
        same(tuple(a), args, 'chained plots get their own positional settings')
        same(dict(k), kw, 'chained plots get their own keyword settings')
    same(len(ax.calls), 3, 'nothing else is drawn')


def s_chain_on_new_axes():
    dim = choose(2, 3)
    c, d = curve('c', 2, dim=dim), curve('d', 2, dim=dim, par=False)
    k = mark()
    p = CurvePlot(c)
    q = p.curveplot(d, color='blue')
    same(q.axes, p.axes, 'a chained plot shares the new axes')
    calls = calls_of(k, p.axes.plot)
    same(len(calls), 2, 'both lines are drawn on the same new axes')
    for i in range(dim):
        same(calls[1][0][i], d.data[:, i], 'coordinate ' + str(i) + ' of the chained line')
    same(dict(calls[1][1]), {'color': 'blue'}, 'settings of the chained line')


def s_chain_special_settings():
    """parameter colours and normals are settings of one plot"""
    c, d = curve('c', 4, dim=2, par=False), curve('d', 2, dim=2, par=False)
    ax = axes(2)
    which = choose('param', 'normals')
    one = CurvePlot(c, param='cumarclen', axes=ax) if which == 'param' else CurvePlot(c, show_normals=True, axes=ax)
    n, b = len(ax.calls), len(ax.figure.bars)
    two = one.curveplot(d)
    same([x[0] for x in ax.calls[n:]], ['plot'], 'a chained plot does not inherit ' + which)
    same(len(ax.figure.bars), b, 'a chained plot does not inherit ' + which)
    coordinates(ax.calls[n], d, 'chained line')


def s_chain_own_special_settings():
    c, d = curve('c', 2, dim=2, par=False), curve('d', 4, dim=2, par=False)
    ax = axes(2)
    one = CurvePlot(c, axes=ax)
    which = choose('param', 'normals')
    k = mark()
    two = one.curveplot(d, param='cumarclen', param_cmap='hot') if which == 'param' else one.curveplot(d, show_normals=True)
    same(two.axes is ax, True, 'chained plots share the axes')
    if which == 'param':
        same(len(drawn(ax, 'add_collection')), 1, 'a chained plot can have parameter colours')
        made = [e for e in events('extcall', k) if e[0].split('.')[-1] == 'LineCollection']
        colours(k, made[0], drawn(ax, 'add_collection')[0][1][0], ax.figure.bars[0][0], 'hot')
        same(ax.figure.bars[0][2].labels, ['cumarclen'], 'the colour bar of a chained plot is labelled')
    else:
        coordinates(drawn(ax, 'quiver')[0], d, 'normals of a chained plot')


def colours(k, e, lines, bar, cmap):
    """the lines and the colour bar use the same colour scale and the colour map requested"""
    scales = [x for x, y in calls_of(k, lines.set_norm)] + ([(e[2]['norm'],)] if 'norm' in e[2] else [])
    maps = [x for x, y in calls_of(k, lines.set_cmap)] + ([(e[2]['cmap'],)] if 'cmap' in e[2] else [])
    same(len(maps) > 0 and maps[-1][0], cmap, 'colour map of the lines')
    holds(len(scales) > 0 and named(scales[-1][0], 'Normalize'), 'the lines use the colour scale')
    if not named(bar, 'LineCollection') and not named(bar, 'Line3DCollection'):
        m = [x for x in events('extcall', k) if x[0].split('.')[-1] == 'ScalarMappable']
        holds(len(m) == 1, 'one mapping of values to colours for the colour bar')
        a = list(m[0][1]) + [None, None]
        norm, mp = m[0][2].get('norm', a[0]), m[0][2].get('cmap', a[1])
        same(mp, cmap, 'colour map of the colour bar')
        holds(named(norm, 'Normalize'), 'the colour bar uses the colour scale')


def quantity(c, dim):
    return choose('cumarclen', 't', 'speed', 'curvature') if dim == 2 else choose('cumarclen', 't', 'torsion')


def s_parameter():
    dim = choose(2, 3)
    c = curve(nmin=2, dim=dim)
    ax = axes(dim)
    name = quantity(c, dim)
    before = value(getattr(Curve(c.data, tdata=c.t) if c.isparametric else Curve(c.data), name))
    kw = choose({}, {'linewidth': 2}, {'marker': 'o', 'alpha': 0.5})
    mine = dict(kw)
    k = mark()
    p = CurvePlot(c, param=name, param_cmap='hot', axes=ax, **mine)
    same(p.axes is ax, True, 'the axes given are used')
    same(mine, kw, 'the option mapping of the caller is unchanged')
    same(value(getattr(c, name)), before, 'the quantity shown is unchanged')
    made = [e for e in events('extcall', k) if e[0].split('.')[-1] == ('LineCollection' if dim == 2 else 'Line3DCollection')]
    same(len(made), 1, 'one collection of lines is made')
    e = made[0]
    parts = e[1][0]
    same(parts.shape, (c.size - 1, 2, dim), 'one line per segment')
    same(parts[:, 0], c.data[:-1], 'every line starts at its point')
    same(parts[:, 1], c.data[1:], 'every line ends at the next point')
    for o in kw:
        if o != 'marker':
            same(e[2].get(o), kw[o], 'setting ' + o + ' of the lines')
    added = drawn(ax, 'add_collection' if dim == 2 else 'add_collection3d')
    same(len(added), 1, 'the lines are drawn on the axes')
    lines = added[0][1][0]
    same(named(lines, 'LineCollection' if dim == 2 else 'Line3DCollection'), True, 'the collection made is drawn')
    shown = [x[0] for x, y in calls_of(k, lines.set_array)] + ([e[2]['array']] if 'array' in e[2] else [])
    same(len(shown), 1, 'the lines show the quantity')
    same(shown[0], getattr(c, name), 'the lines show the quantity of the curve')
    n = [x for x in events('extcall', k) if x[0].split('.')[-1] == 'Normalize']
    same(len(n), 1, 'one colour scale')
    v = list(n[0][1]) + [n[0][2][o] for o in ('vmin', 'vmax') if o in n[0][2]]
    same(v[0], np.min(getattr(c, name)), 'colour scale from the smallest value')
    same(v[1], np.max(getattr(c, name)), 'colour scale to the largest value')
    dots = drawn(ax, 'scatter')
    same(len(dots), 1 if 'marker' in kw else 0, 'markers only if requested')
    for d in dots:
        a, q = coordinates(d, c, 'markers')
        same(q['marker'], 'o', 'marker requested')
        same(q['alpha'], 0.5, 'settings of the markers')
        holds('c' in q, 'the markers have the colours of their values')
    bars = ax.figure.bars
    same(len(bars), 1, 'one colour bar')
    same(bars[0][1]['ax'] is ax, True, 'the colour bar belongs to the axes')
    same(bars[0][2].labels, [name], 'the colour bar is labelled')
    colours(k, e, lines, bars[0][0], 'hot')
    holds(len(drawn(ax, 'autoscale')) + len(drawn(ax, 'auto_scale_xyz')) > 0, 'the axes are scaled to the curve')
    same(len(drawn(ax, 'plot')), 0, 'no plain line besides the coloured one')


def s_parameter_one_point():
    dim = choose(2, 3)
    c = curve(n=1, dim=dim, par=choose(True, False))
    ax = axes(dim)
    kw = choose({}, {'marker': 'o'})
    CurvePlot(c, param='t', axes=ax, **kw)
    same(len(drawn(ax, 'scatter')), 1 if 'marker' in kw else 0, 'markers only if requested')
    same(len(ax.figure.bars), 1, 'one colour bar')


def s_normals():
    c = curve(nmin=4, dim=2)
    ax = axes(2)
    CurvePlot(c, show_normals=True, axes=ax)
    coordinates(drawn(ax, 'plot')[0], c, 'line')
    q = drawn(ax, 'quiver')
    same(len(q), 1, 'normals are drawn')
    a, k = coordinates(q[0], c, 'normals')
    same(a[0], c.frenet2[:, 0], 'first coordinate of the normals')
    same(a[1], c.frenet2[:, 1], 'second coordinate of the normals')


def s_normals_in_space():
    c = curve(nmin=4, dim=3)
    ax = axes(3)
    kind, v = outcome(CurvePlot, c, show_normals=True, axes=ax)
    if kind == 'raise':
        same(excname(v), 'NotImplementedError', 'normals of a space curve are refused')
    else:
        holds(len(drawn(ax, 'quiver')) > 0, 'normals of a space curve are not dropped silently')


def s_normals_with_parameter():
    """showing a quantity as colour and the normals together draws both"""
    dim = choose(2, 3)
    c = curve(nmin=4, dim=dim, par=False)
    ax = axes(dim)
    kind, v = outcome(CurvePlot, c, param=choose('cumarclen', 'curvature'), show_normals=True, axes=ax)
    if dim == 3:
        if kind == 'raise':
            same(excname(v), 'NotImplementedError', 'normals of a space curve are refused')
        else:
            holds(len(drawn(ax, 'quiver')) > 0, 'normals of a space curve are not dropped silently')
        return
    holds(kind != 'raise', 'colour and normals can be shown together')
    q = drawn(ax, 'quiver')
    same(len(q), 1, 'normals are drawn with a quantity shown as colour')
    a, k = coordinates(q[0], c, 'normals')
    same(a[0], c.frenet2[:, 0], 'first coordinate of the normals')
    same(a[1], c.frenet2[:, 1], 'second coordinate of the normals')
    same(len(drawn(ax, 'add_collection')), 1, 'the coloured lines are drawn with the normals')
    same(len(ax.figure.bars), 1, 'the colour bar is drawn with the normals')


def s_curve_untouched():
    dim = choose(2, 3)
    d = arr('data', (nat('N', 4), dim), 'float64')
    t = incr('t', len(d))
    c = Curve(d, tdata=t)
    a = choose('plain', 'param', 'normals')
    if a == 'normals' and dim == 3:
        skip()
    f = Curve(d, tdata=t)
    names = ['cumarclen', 'curvature', 'frenet2', 'chordlen', 'speed']
    k = mark()
    if a == 'plain':
        CurvePlot(c, axes=axes(dim))
    elif a == 'param':
        CurvePlot(c, param='curvature', axes=axes(dim))
    else:
        CurvePlot(c, show_normals=True, axes=axes(dim))
    e = effects(k)
    fact(len(e) == 0, 'plotting changes no module state', '; '.join(e))
    same(c.data, d, 'the curve keeps its points')
    same(c.t, t, 'the curve keeps its parameters')
    same(frozen(c.data), True, 'the curve stays read-only')
    for n in names:
        same(getattr(c, n), getattr(f, n), 'the curve keeps its ' + n)


def s_too_many_dimensions():
    dim = choose(4, 5)
    c = curve(nmin=0, dim=dim)
    ax = choose(None, 'plane', 'space')
    ax = None if ax is None else axes(2 if ax == 'plane' else 3)
    k = mark()
    how = choose('plain', 'param', 'chained')
    if how == 'plain':
        raises(CurvePlot, ValueError, 'plotting a curve of more than three dimensions', c, axes=ax)
    elif how == 'param':
        raises(CurvePlot, ValueError, 'plotting a curve of more than three dimensions', c, param='cumarclen', axes=ax)
    else:
        p = CurvePlot(curve('d', 2, dim=2), axes=axes(2))
        raises(p.curveplot, ValueError, 'chaining a curve of more than three dimensions', c)
    if ax is not None:
        same(len(ax.calls), 0, 'nothing is drawn')


def s_chain_combinations():
    """a chained plot draws what the same plot draws on its own"""
    kinds = {'plain': {}, 'param': {'param': 'cumarclen'}, 'normals': {'show_normals': True},
             'all': {'param': 't', 'show_normals': True, 'param_cmap': 'hot'}, 'settings': {'color': 'red'}}
    c, d = curve('c', 4, dim=2, par=False), curve('d', 4, dim=2, par=False)
    ax, alone = axes(2), axes(2)
    first, second = choose('plain', 'param', 'normals', 'all', 'settings'), choose('plain', 'param', 'normals', 'all', 'settings')
    p = CurvePlot(c, axes=ax, **kinds[first])
    n = len(ax.calls)
    m = len(ax.figure.bars)
    p.curveplot(d, **kinds[second])
    CurvePlot(d, axes=alone, **kinds[second])
    same([x[0] for x in ax.calls[n:]], [x[0] for x in alone.calls], 'a chained plot draws what it draws on its own')
    same(len(ax.figure.bars) - m, len(alone.figure.bars), 'a chained plot has a colour bar exactly if it has one on its own')
    for x, y in zip(ax.calls[n:], alone.calls):
        same(sorted(x[2]), sorted(y[2]), 'a chained plot uses its own settings only')


def s_space_on_plane():
    c = curve(nmin=0, dim=3)
    ax = axes(2)
    how = choose('plain', 'param', 'normals', 'chained')
    if how == 'plain':
        raises(CurvePlot, TypeError, 'plotting a space curve on plane axes', c, axes=ax)
    elif how == 'param':
        raises(CurvePlot, TypeError, 'plotting a space curve on plane axes', c, param='cumarclen', axes=ax)
    elif how == 'normals':
        raises(CurvePlot, TypeError, 'plotting a space curve on plane axes', c, show_normals=True, axes=ax)
    else:
        p = CurvePlot(curve('d', 2, dim=2), axes=ax)
        ax.calls = []
        raises(p.curveplot, TypeError, 'chaining a space curve on plane axes', c)
    same(len(ax.calls), 0, 'nothing is drawn')


def s_plane_in_space():
    c = curve(nmin=2, dim=2)
    ax = axes(3)
    p = CurvePlot(c, 'r-', axes=ax)
    same(p.axes is ax, True, 'the axes given are used')
    calls = drawn(ax, 'plot')
    same(len(calls), 1, 'one line is drawn')
    coordinates(calls[0], c, 'line of a plane curve in space')
    q = p.curveplot(curve('d', 2, dim=3))
    same(q.axes is ax, True, 'a space curve joins a plane curve on space axes')
    same(len(drawn(ax, 'plot')), 2, 'both lines are drawn')


def s_alias():
    same(curveplot is CurvePlot, True, 'curveplot is the plot class')
