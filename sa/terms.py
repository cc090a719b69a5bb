"""Value numbers: hash-consed terms, polynomial normal forms and the sign/bounds domain.

A term names the value an expression has on *every* execution that follows the analysed
path; two occurrences of one term denote the same value (value numbering).
"""
from fractions import Fraction
import math

_table = {}


class Term:
    __slots__ = ('op', 'args', 'sort', 'id', 'nfc', '__weakref__')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other

    def __reduce__(self):
        raise TypeError('terms are not pickled')


def ck(a):
    if type(a) is Term:
        return a.id
    if type(a) is tuple:
        return tuple(ck(x) for x in a)
    if type(a) is float and a != a:
        return ('nan',)
    if type(a) is NpInt:
        return ('int', int(a))
    if type(a) is NpFloat:
        return ('nan',) if a != a else ('float', float(a))
    return (type(a).__name__, a)


def mk(op, args=(), sort='o'):
    args = tuple(args)
    key = (op, sort, tuple(ck(a) for a in args))
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.sort, t.id, t.nfc = op, args, sort, len(_table) + 1, None
        _table[key] = t
    return t


INF = float('inf')


class NpInt(int):
    """constant element of an array (a numpy scalar)"""
    dtype = 'int64'


class NpFloat(float):
    dtype = 'float64'


def npscalar(x, dtype):
    if isinstance(x, bool) or not isinstance(x, (int, float)):
        return x
    r = NpInt(x) if isinstance(x, int) else NpFloat(x)
    r.dtype = dtype
    return r


def is_const(x):
    return not isinstance(x, Term)


def isint(x):
    if isinstance(x, Term):
        return x.sort in ('i', 'I')
    return isinstance(x, int)


NUM = ('i', 'I', 'f', 'F', 'b', 'B')


def show(t, depth=6):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, depth) for x in t) + ')'
        return repr(t) if not isinstance(t, Fraction) else str(t)
    if t.op == 'sym':
        return str(t.args[0])
    if depth <= 0:
        return '..'
    if t.op == 'poly':
        out = []
        for mono, c in t.args[0]:
            ms = '*'.join((show(a, depth - 1) if e == 1 else f'{show(a, depth - 1)}^{e}') for a, e in mono)
            out.append((f'{c}*{ms}' if c != 1 else ms) if ms else str(c))
        return '(' + ' + '.join(out) + ')'
    if t.op in ('add', 'sub', 'mul', 'div', 'lt', 'le', 'gt', 'ge', 'eq', 'ne') and len(t.args) == 2:
        s = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'eq': '==', 'ne': '!='}[t.op]
        return f'({show(t.args[0], depth - 1)} {s} {show(t.args[1], depth - 1)})'
    if t.op == 'getitem':
        return f'{show(t.args[0], depth - 1)}[{", ".join(showidx(x, depth - 1) for x in t.args[1])}]'
    return f'{t.op}({", ".join(show(a, depth - 1) for a in t.args)})'


def showidx(x, depth):
    if isinstance(x, tuple) and x and x[0] == 'slice':
        a, b, c = (('' if v is None else show(v, depth)) for v in x[1:])
        return f'{a}:{b}' + (f':{c}' if c else '')
    return show(x, depth)


# ------------------------------------------------------------------ polynomials

def P(x):
    if isinstance(x, Term):
        if x.op == 'poly':
            return dict(x.args[0])
        return {((x, 1),): Fraction(1)}
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float) and (x != x or x in (INF, -INF)):
        return {((mk('const', (x,), 'f'), 1),): Fraction(1)}
    return {(): Fraction(x)} if x != 0 else {}


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def mmul(m1, m2):
    d = {}
    for t, e in m1:
        d[t] = e
    for t, e in m2:
        e2 = d.get(t, 0) + e
        if e2:
            d[t] = e2
        else:
            d.pop(t, None)
    return tuple(sorted(d.items(), key=lambda te: te[0].id))


class TooBig(Exception):
    pass


def pmul(a, b, limit=4000):
    if len(a) * len(b) > limit:
        raise TooBig
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def pconst(p):
    """constant value of the polynomial, or None"""
    if not p:
        return Fraction(0)
    if len(p) == 1 and () in p:
        return p[()]
    return None


def mkey(m):
    return tuple((t.id, e) for t, e in m)


def mkpoly(p, sort):
    """term of the polynomial; constants and single atoms are returned as such"""
    c = pconst(p)
    if c is not None:
        if c.denominator == 1 and sort in ('i', 'I', 'f', 'F', 'A', 'b', 'B'):
            return int(c)
        return float(c) if Fraction(float(c)) == c else mk('frac', (c,), sort)
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(p.items(), key=lambda mc: mkey(mc[0])))
    return mk('poly', (items,), sort)


def pdivexact(a, b):
    """a / b if the division is exact, else None (multivariate, integer exponents)"""
    if not b:
        return None
    rest = dict(a)
    q = {}
    lead = max(b, key=lambda m: (sum(e for _, e in m), mkey(m)))
    steps = 0
    while rest:
        steps += 1
        if steps > 60:
            return None
        m = max(rest, key=lambda m: (sum(e for _, e in m), mkey(m)))
        d = dict(m)
        for t, e in lead:
            if d.get(t, 0) < e:
                return None
            d[t] = d[t] - e
            if not d[t]:
                del d[t]
        mq = tuple(sorted(d.items(), key=lambda te: te[0].id))
        c = rest[m] / b[lead]
        q[mq] = q.get(mq, 0) + c
        rest = padd(rest, pmul({mq: c}, b), -1)
    return q


# ------------------------------------------------------------------ scalar sorts

def rsort(*xs):
    """sort of an arithmetic result"""
    s = set()
    for x in xs:
        if isinstance(x, Term):
            s.add(x.sort)
        elif isinstance(x, (bool, int)):
            s.add('i')
        elif isinstance(x, float):
            s.add('f')
        else:
            s.add('o')
    if 'A' in s:
        return 'A'
    if 'o' in s or 's' in s:
        return 'o'
    np_ = any(z in s for z in 'IFB')
    fl = any(z in s for z in 'fF')
    return ('F' if fl else 'I') if np_ else ('f' if fl else 'i')


# ------------------------------------------------------------------ facts

class Facts:
    """What one analysed path knows: bounds of integer atoms, linear integer facts (p >= 0),
    signs of real polynomials and truth of opaque conditions."""

    def __init__(self, bounds=None):
        self.bounds = dict(bounds or {})
        self.ineqs = []
        self.signs = {}
        self.conds = {}
        self.eqs = []

    def atom_bounds(self, t):
        b = self.bounds.get(t)
        if b is not None:
            return b
        if t.op in ('len', 'slicelen', 'nnz', 'shape', 'size', 'count'):
            return (0, INF)
        if t.op in ('imax', 'imin'):
            (l1, h1), (l2, h2) = self.interval(P(t.args[0])), self.interval(P(t.args[1]))
            return (max(l1, l2), max(h1, h2)) if t.op == 'imax' else (min(l1, l2), min(h1, h2))
        if t.op == 'mod' and isinstance(t.args[1], int) and t.args[1] > 0:
            return (0, t.args[1] - 1)
        if t.op == 'floordiv':
            l, h = self.interval(P(t.args[0]))
            l2, h2 = self.interval(P(t.args[1]))
            if l >= 0 and l2 >= 0:
                return (0, h)
        return (-INF, INF)

    def interval(self, p):
        lo = hi = 0
        for m, c in p.items():
            a, b = 1, 1
            for t, e in m:
                if not isinstance(e, int) and e != int(e):
                    return (-INF, INF)
                e = int(e)
                if e < 0:
                    return (-INF, INF)
                l, h = self.atom_bounds(t)
                for _ in range(e):
                    xs = [_mul(a, l), _mul(a, h), _mul(b, l), _mul(b, h)]
                    a, b = min(xs), max(xs)
            c = float(c) if c.denominator != 1 else int(c)
            xs = [_mul(a, c), _mul(b, c)]
            lo, hi = lo + min(xs), hi + max(xs)
        return (lo, hi)

    def lower(self, p):
        """best provable lower bound of integer polynomial p"""
        best = self.interval(p)[0]
        if best >= 0 or not self.ineqs:
            return best
        for i, f in enumerate(self.ineqs):
            q = padd(p, f, -1)
            best = max(best, self.interval(q)[0])
            if best >= 0:
                return best
        for i, f in enumerate(self.ineqs):
            q = padd(p, f, -1)
            for g in self.ineqs[i:]:
                best = max(best, self.interval(padd(q, g, -1))[0])
                if best >= 0:
                    return best
        return best

    def sign_int(self, p):
        """set of possible signs of an integer polynomial"""
        c = pconst(p)
        if c is not None:
            return {(c > 0) - (c < 0)}
        den = 1
        for v in p.values():
            den = den * v.denominator // math.gcd(den, v.denominator)
        if den != 1:
            p = pscale(p, den)
        s = {-1, 0, 1}
        lo = self.lower(p)
        if lo > 0:
            return {1}
        if lo == 0:
            s.discard(-1)
        hi = -self.lower(pscale(p, -1))
        if hi < 0:
            return {-1}
        if hi == 0:
            s.discard(1)
        n, sg = norm_sign(p)
        k = mkpoly(n, 'i')
        if k in self.signs:
            s &= {x * sg for x in self.signs[k]}
        return s

    def sign_real(self, p):
        c = pconst(p)
        if c is not None:
            return {(c > 0) - (c < 0)}
        if all(isint(t) for m in p for t, _ in m):
            return self.sign_int(p)
        n, sg = norm_sign(p)
        k = mkpoly(n, 'f')
        s = self.signs.get(k)
        if s is None:
            return {-1, 0, 1}
        return {x * sg for x in s}

    def assume_sign(self, p, signs):
        ints = all(isint(t) for m in p for t, _ in m)
        cur = self.sign_int(p) if ints else self.sign_real(p)
        new = cur & set(signs)
        n, sg = norm_sign(p)
        self.signs[mkpoly(n, 'i' if ints else 'f')] = {x * sg for x in new}
        if ints:
            if new <= {0, 1}:
                self.ineqs.append(padd(p, {(): Fraction(1)}, -1) if new == {1} else p)
            if new <= {0, -1}:
                q = pscale(p, -1)
                self.ineqs.append(padd(q, {(): Fraction(1)}, -1) if new == {-1} else q)


def norm_sign(p):
    """(q, s) with p = s*|lead|*q; q has leading coefficient 1"""
    lead = max(p, key=lambda m: (len(m) > 0, mkey(m)))
    c = p[lead]
    return ({m: v / c for m, v in p.items()}, 1 if c > 0 else -1)


def _mul(a, b):
    if a == 0 or b == 0:
        return 0
    return a * b
