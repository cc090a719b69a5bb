def par(nmin=1, name='c', dim=None, dtype='float64'):
    """parametric curve; each point is paired with its parameter value"""
    c = curve(name, nmin, dim, True, dtype)
    return c, value(c.data), value(c.t)


def keeps(got, d, t, what):
    same(got.isparametric, True, what + ' is parametric')
    same(got.t, t, what + ' keeps the parameter values')
    same(got.data, d, what + ' keeps the points of the values')


def plain(got, what):
    same(got.isparametric, False, what + ' is not parametric')
    same(got.t, got.cumarclen, what + ' has its own arc length as parameter')


def s_slice():
    c, d, t = par()
    a = choose(None, 1, -2, 'i')
    b = choose(None, 3, -1)
    a = nat('a', -3, 6) if a == 'i' else a
    step = choose(None, 2, -1, -2, 3)
    keeps(c[a:b:step], d[a:b:step], t[a:b:step], 'slice')


def s_slice_empty():
    c, d, t = par(0)
    got = c[:0]
    same(got.isparametric, True, 'empty slice is parametric')
    same(got.t, t[:0], 'empty slice has no parameter values')


def s_indices():
    c, d, t = par(3)
    how = choose('array', 'list', 'negative', 'repeated', 'unsorted', 'unsigned', 'short')
    if how == 'array':
        idx = indices('idx', nat('k', 1), c.size)
    elif how == 'list':
        idx = [2, 0, 1]
    elif how == 'negative':
        idx = [-1, -2]
    elif how == 'unsorted':
        idx = np.array([2, 0])
    elif how == 'unsigned':
        idx = np.array([2, 0, 1], dtype=choose('uint8', 'uint64'))
    elif how == 'short':
        idx = np.array([1, -1, 0], dtype=choose('int8', 'int16', 'int32'))
    else:
        idx = (1, 1, 0)
    keeps(c[idx], d[np.asarray(idx)], t[np.asarray(idx)], 'selection')


def s_mask():
    c, d, t = par()
    m = arr('m', (c.size,), 'bool')
    keeps(c[m], d[m], t[m], 'masked selection')


def s_reverse():
    c, d, t = par(1, 'c', None, choose('float64', 'int64'))
    keeps(c.reverse(), d[::-1], t[::-1], 'reversed curve')
    same(c.t, t, 'source keeps its parameter values')
    keeps(c.reverse().reverse(), d, t, 'curve reversed twice')


def s_concat():
    dim = choose(2, 3, 4)
    c, d, t = par(0, 'c', dim)
    e, f, u = par(0, 'e', dim)
    keeps(c + e, np.vstack((d, f)), np.hstack((t, u)), 'sum')


def s_concat_three():
    c, d, t = par(1, 'c', 2)
    e, f, u = par(1, 'e', 2)
    g, h, v = par(1, 'g', 2)
    keeps(c + e + g, np.vstack((d, f, h)), np.hstack((t, u, v)), 'sum of three')


def s_concat_mixed():
    dim = choose(2, 3, 4)
    c, d, t = par(1, 'c', dim)
    e = curve('e', 1, dim, False)
    first = choose(True, False)
    got = c + e if first else e + c
    same(got.isparametric, False, 'sum with a curve without parameter vector')


def s_concat_plain():
    c, e = curve('c', 1, 2, False), curve('e', 1, 2, False)
    plain(c + e, 'sum of curves without parameter vector')


def s_copy():
    import copy
    c, d, t = par()
    keeps(copy.copy(c), d, t, 'copy')
    keeps(copy.deepcopy(c), d, t, 'deep copy')
    keeps(Curve(c), d, t, 'curve of a curve')


def s_delete():
    c, d, t = par(3)
    how = choose('index', 'negative', 'list', 'array', 'slice')
    if how == 'index':
        i = pt(c, 'i')
    elif how == 'negative':
        i = -2
    elif how == 'list':
        i = [0, 2]
    elif how == 'array':
        i = indices('idx', nat('k', 1), c.size)
    else:
        i = slice(1, 3)
    keeps(c.delete(i), np.delete(d, i, axis=0), np.delete(t, i), 'curve with deleted points')


def s_drop():
    c, d, t = par()
    how = choose('rows', 'matrix', 'positions')
    if how == 'rows':
        m = arr('m', (c.size,), 'bool')
        keep = ~m
        keeps(c.drop(lambda x: m), d[keep], t[keep], 'curve with dropped points')
    elif how == 'matrix':
        m = arr('m', (c.size, c.ndim), 'bool')
        keep = ~np.any(m, axis=1)
        keeps(c.drop(lambda x: m), d[keep], t[keep], 'curve with dropped points')
    else:
        idx = indices('idx', nat('k', 1), c.size)
        keeps(c.drop(lambda x: idx), np.delete(d, idx, axis=0), np.delete(t, idx), 'curve with dropped points')


def s_unique():
    c, d, t = par(1, 'c', None, choose('float64', 'int64'))
    u, first = np.unique(d, axis=0, return_index=True)
    k = np.sort(first)
    keeps(c.unique(), d[k], t[k], 'curve without duplicates')


def s_coorient():
    c = curve('c', 3, 2, True)
    d, t = value(c.data), value(c.t)
    got = c.coorientplane()
    same(got.isparametric, True, 'co-oriented curve is parametric')
    assume(np.any(d != d[::-1]))
    if truth(np.all(got.data == d)):
        same(got.t, t, 'co-oriented curve keeps the parameter values')
    else:
        same(got.t, t[::-1], 'co-oriented curve keeps the parameter value of each point')
        same(got.data, d[::-1], 'co-oriented curve keeps the points')


def s_subcurve():
    c, d, t = par(3)
    i, j = pt(c, 'i'), pt(c, 'j')
    assume(i <= j)
    e = choose(True, False)
    k = j + 1 if e else j
    keeps(c[i].subcurve(c[j], endpoint=e), d[i:k], t[i:k], 'sub-curve')


def s_point():
    c, d, t = par()
    i = pt(c, 'i')
    same(c[i].t, t[i], 'point carries its parameter value')
    same(c[-1].t, t[-1], 'last point carries its parameter value')


def s_chain():
    """several operations in a row"""
    c, d, t = par(4)
    got = c.reverse()[1:].delete(0)
    keeps(got, np.delete(d[::-1][1:], 0, axis=0), np.delete(t[::-1][1:], 0), 'curve reversed, sliced and shortened')
    m = arr('m', (c.size,), 'bool')
    got = c.drop(lambda x: m).reverse()
    keeps(got, d[~m][::-1], t[~m][::-1], 'curve with dropped points reversed')
    got = (c + c.reverse())[1:]
    keeps(got, np.vstack((d, d[::-1]))[1:], np.hstack((t, t[::-1]))[1:], 'sum with its reverse, sliced')


def s_lose():
    c, d, t = par(5, 'c', 3)
    x = Point(arr('x', (3,)))
    op = choose('insert', 'append', 'insertdim', 'appenddim', 'deletedim', 'insert curve', 'append curve')
    if op == 'insert':
        got = c.insert(1, x)
    elif op == 'append':
        got = c.append(x)
    elif op == 'insertdim':
        got = c.insertdim(0)
    elif op == 'appenddim':
        got = c.appenddim()
    elif op == 'deletedim':
        got = c.deletedim(1)
    elif op == 'insert curve':
        got = c.insert(1, c)
    else:
        got = c.append(c)
    same(got.isparametric, False, op + ' gives a curve without parameter vector')
    same(c.isparametric, True, op + ' leaves the source parametric')


def s_smooth():
    c, d, t = par(5, 'c', 2)
    got = c.smooth('savgol', window_length=5, polyorder=2)
    same(got.isparametric, False, 'smoothed curve is not parametric')
    got = c.smooth('window', window_size=3)
    same(got.isparametric, False, 'averaged curve is not parametric')


def s_never():
    """an operation on a curve without parameter vector never makes it parametric"""
    import copy
    c = curve('c', 3, choose(2, 3, 4), False)
    op = choose('slice', 'list', 'mask', 'reverse', 'copy', 'deepcopy', 'delete', 'drop', 'drop positions', 'unique', 'coorient', 'curve', 'subcurve', 'nonsingular')
    if op == 'slice':
        got = c[1:]
    elif op == 'list':
        got = c[[0, 1]]
    elif op == 'mask':
        got = c[arr('m', (c.size,), 'bool')]
    elif op == 'reverse':
        got = c.reverse()
    elif op == 'copy':
        got = copy.copy(c)
    elif op == 'deepcopy':
        got = copy.deepcopy(c)
    elif op == 'delete':
        got = c.delete(0)
    elif op == 'drop':
        got = c.drop(lambda x: x[:, 0] > 0.0)
    elif op == 'drop positions':
        got = c.drop(lambda x: [0])
    elif op == 'unique':
        got = c.unique()
    elif op == 'coorient':
        got = c.coorientplane()
    elif op == 'curve':
        got = Curve(c)
    elif op == 'subcurve':
        got = c[0].subcurve(c[1])
    else:
        got = c.nonsingular()
    same(got.isparametric, False, op + ' of a curve without parameter vector')
    # asking for the parametrization first changes nothing
    c.t
    c.cumarclen
    same(c.reverse().isparametric, False, 'asking for the parametrization does not make a curve parametric')


def s_nonsingular():
    c = curve('c', 2, 2, True)
    d, t = value(c.data), value(c.t)
    got = c.nonsingular()
    same(got.isparametric, True, 'nonsingular curve is parametric')
    same(len(got.t), got.size, 'one parameter value per point')
    if not truth(np.any(np.isclose(np.sum((d[1:] - d[:-1]) ** 2, axis=1), 0.0))):
        if truth(np.all(np.isfinite(d))):
            same(got.t, t, 'parameter values of a curve that is nonsingular already')


def s_nonsingular_repeats():
    """the parameter values of the dropped points are the ones that go"""
    dim = choose(2, 3)
    p, q, r = arr('p', (dim,)), arr('q', (dim,)), arr('r', (dim,))
    for u, v in ((p, q), (q, r), (p, r)):
        assume(not np.any(np.isclose(np.sum((u - v) ** 2), 0.0)))
    t = incr('t', 5)
    rows, kept = choose(([p, q, r, r, r], [0, 1, 2]), ([p, p, q, r, r], [0, 2, 3]), ([p, q, q, q, r], [0, 1, 4]), ([p, q, r, p, q], [0, 1, 2, 3, 4]), ([p, p, p, p, p], [0]))
    c = Curve(np.stack(rows), tdata=t)
    got = c.nonsingular()
    same(got.data, np.stack(rows)[np.array(kept)], 'points of the nonsingular curve')
    same(got.isparametric, True, 'nonsingular curve is parametric')
    same(got.t, t[np.array(kept)], 'parameter values of the nonsingular curve')


def s_curve_of_curve():
    """a curve built from a curve, whatever the type and the dimension asked for"""
    c, d, t = par(choose(0, 1), dim=choose(2, 3), dtype=choose('float64', 'int64', 'uint8'))
    how = choose('plain', 'dtype', 'ndmin', 'both', 'own dtype')
    if how == 'plain':
        got = Curve(c)
    elif how == 'dtype':
        got = Curve(c, dtype=choose('float32', 'int32', float, np.dtype('float64')))
    elif how == 'ndmin':
        got = Curve(c, ndmin=choose(2, 3, 4))
    elif how == 'both':
        got = Curve(c, ndmin=3, dtype='float32')
    else:
        got = Curve(c, dtype=c.dtype)
    same(got.isparametric, True, 'a curve of a parametric curve is parametric')
    same(got.t, t, 'a curve of a parametric curve has its parameter values')
    p = Curve(arr('q', (nat('nq', 1), 2)))
    same(Curve(p, dtype='float32').isparametric, False, 'a curve of a curve without parameter values has none')


ROWS = [[0.0, 0.0], [1.0, 3.0], [2.0, 1.0], [2.5, 1.5], [4.0, -1.0], [5.0, 0.0], [0.5, 7.0]]
VALUES = [[5.0, 1.0, 9.0, 1.0, -2.0, 0.5, 3.0], [7.0, 6.0, 5.0, 4.0, 3.0, 2.0, 1.0], [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0], [-1.0, 0.0, 2.0, 4.5, 8.0, 9.0, 9.5]]


def s_literal():
    """every operation, for parameter values in any order"""
    import copy
    v = choose(*VALUES)
    space = choose(False, True)
    rows = [r + [r[0] - r[1]] for r in ROWS] if space else ROWS
    c = Curve(np.array(rows), tdata=np.array(v))

    def want(got, ks, what):
        keeps(got, np.array([rows[k] for k in ks]), np.array([v[k] for k in ks]), what)
    want(c[1:5], [1, 2, 3, 4], 'slice')
    want(c[::-1], [6, 5, 4, 3, 2, 1, 0], 'reversed slice')
    want(c[5:0:-2], [5, 3, 1], 'slice of a negative step')
    want(c[-3:], [4, 5, 6], 'slice from the end')
    want(c[[3, 0, 3]], [3, 0, 3], 'repeated indices')
    want(c[np.array([-1, 2])], [6, 2], 'negative indices')
    want(c[(4, 1)], [4, 1], 'tuple of indices')
    want(c[[True, False, True, True, False, False, True]], [0, 2, 3, 6], 'mask')
    want(c.reverse(), [6, 5, 4, 3, 2, 1, 0], 'reversed curve')
    want(c.delete(2), [0, 1, 3, 4, 5, 6], 'curve without a point')
    want(c.delete(-1), [0, 1, 2, 3, 4, 5], 'curve without its last point')
    want(c.delete([5, 0]), [1, 2, 3, 4, 6], 'curve without two points')
    want(c.delete([-7, 6, 0]), [1, 2, 3, 4, 5], 'curve without its ends')
    want(c.delete(slice(1, 6, 2)), [0, 2, 4, 6], 'curve without a slice')
    want(c.unique(), [0, 1, 2, 3, 4, 5, 6], 'curve without duplicates')
    want((c + c).unique(), [0, 1, 2, 3, 4, 5, 6], 'doubled curve without duplicates')
    want((c.reverse() + c).unique(), [6, 5, 4, 3, 2, 1, 0], 'doubled reversed curve without duplicates')
    want(c[[2, 2, 0, 2, 6, 0]].unique(), [2, 0, 6], 'repeated points without duplicates')
    want(c.drop(lambda x: x[:, 0] > 2.2), [0, 1, 2, 6], 'curve with dropped points')
    want(c.drop(lambda x: x < 0.25), [1, 2, 3, 6] if not space else [2, 3], 'curve with dropped coordinates')
    want(c.drop(lambda x: [6, 1]), [0, 2, 3, 4, 5], 'curve with dropped positions')
    want(c.nonsingular(), [0, 1, 2, 3, 4, 5, 6], 'nonsingular curve')
    want(c[[0, 0, 1, 2, 2, 3]].nonsingular(), [0, 1, 2, 3], 'nonsingular curve of repeated points')
    want(c[2:4] + c[:2], [2, 3, 0, 1], 'sum')
    want(copy.copy(c), [0, 1, 2, 3, 4, 5, 6], 'copy')
    want(Curve(c), [0, 1, 2, 3, 4, 5, 6], 'curve of a curve')
    want(c[1].subcurve(c[4]), [1, 2, 3, 4], 'sub-curve')
    co = c.coorientplane()
    if truth(np.all(co.data == c.data)):
        want(co, [0, 1, 2, 3, 4, 5, 6], 'co-oriented curve')
    else:
        want(co, [6, 5, 4, 3, 2, 1, 0], 'co-oriented curve')


def s_concat_self():
    c, d, t = par(0)
    keeps(c + c, np.vstack((d, d)), np.hstack((t, t)), 'sum of a curve with itself')
    keeps(c + c + c, np.vstack((d, d, d)), np.hstack((t, t, t)), 'sum of a curve with itself')


def s_empty_operand():
    """an empty curve is a curve like any other"""
    c, d, t = par(1, 'c', 2)
    e = Curve(np.zeros((0, 2)))
    same((c + e).isparametric, False, 'sum with an empty curve without parameter vector')
    same((e + c).isparametric, False, 'sum of an empty curve without parameter vector')
    z = Curve(np.zeros((0, 2)), tdata=[])
    keeps(c + z, d, t, 'sum with an empty parametric curve')
    keeps(z + c, d, t, 'sum of an empty parametric curve')
    plain(c.append(e), 'appending an empty curve')
    plain(c.append(z), 'appending an empty curve')
    plain(c.insert(0, e), 'inserting an empty curve')
    plain(e.append(c), 'appending to an empty curve')
    plain(z.append(c), 'appending to an empty curve')
    same(z.append(c).data, d, 'appending to an empty curve gives the points')


def s_other_types():
    """parameter values are kept in full whatever the type of the coordinates"""
    import copy
    c, d, t = par(3, 'c', 2, choose('float32', 'int64', 'int8'))
    e, f, u = par(3, 'e', 2, choose('float32', 'float64'))
    op = choose('slice', 'indices', 'mask', 'reverse', 'sum', 'delete', 'drop', 'unique', 'copy', 'curve', 'subcurve', 'coorient', 'nonsingular', 'float32', 'float64')
    if op == 'sum':
        same((c + e).t, np.hstack((t, u)), 'sum keeps the parameter values')
        same((e + c).t, np.hstack((u, t)), 'sum keeps the parameter values')
    elif op == 'slice':
        same(c[1:].t, t[1:], 'slice keeps the parameter values')
        same(c[::-1].t, t[::-1], 'reversed slice keeps the parameter values')
    elif op == 'indices':
        same(c[[2, 0]].t, t[[2, 0]], 'selection keeps the parameter values')
    elif op == 'mask':
        m = arr('m', (c.size,), 'bool')
        same(c[m].t, t[m], 'masked curve keeps the parameter values')
    elif op == 'reverse':
        same(c.reverse().t, t[::-1], 'reversed curve keeps the parameter values')
    elif op == 'delete':
        same(c.delete(1).t, np.delete(t, 1), 'curve without a point keeps the parameter values')
    elif op == 'drop':
        m = arr('m', (c.size,), 'bool')
        same(c.drop(lambda x: m).t, t[~m], 'curve with dropped points keeps the parameter values')
    elif op == 'unique':
        k = value(np.sort(np.unique(d, axis=0, return_index=True)[1]))
        same(c.unique().t, t[k], 'curve without duplicates keeps the parameter values')
    elif op == 'copy':
        same(copy.copy(c).t, t, 'copy keeps the parameter values')
        same(copy.deepcopy(c).t, t, 'deep copy keeps the parameter values')
    elif op == 'curve':
        same(Curve(c).t, t, 'curve of a curve keeps the parameter values')
    elif op == 'subcurve':
        same(c[0].subcurve(c[2]).t, t[0:3], 'sub-curve keeps the parameter values')
    elif op == 'coorient':
        g = c.coorientplane()
        holds(truth(np.all(g.t == t)) or truth(np.all(g.t == t[::-1])), 'co-oriented curve keeps the parameter values')
    elif op in ('float32', 'float64'):
        same(Curve(c, dtype=op).t, t, 'curve of another type keeps the parameter values')
    else:
        g = c.nonsingular()
        same(g.isparametric, True, 'nonsingular curve is parametric')


def s_drop_matrix_of_one_column():
    c, d, t = par(1)
    if choose(True, False):
        c = c[-1:]
        d, t = d[-1:], t[-1:]
    m = arr('m', (c.size, 1), 'bool')
    keeps(c.drop(lambda x: m), d[~np.any(m, axis=1)], t[~np.any(m, axis=1)], 'curve with dropped points')
