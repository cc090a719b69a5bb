"""Canonical forms of value numbers (polynomial/boolean normalisation) and their random
interpretation (value numbering by random interpretation, Gulwani & Necula, POPL 2004)."""
import math
import random
import warnings
from fractions import Fraction

import numpy as np

from .terms import (Term, mk, P, padd, pmul, pscale, pconst, mkpoly, norm_sign, TooBig, INF, mmul)

# ---------------------------------------------------------------- normal form

BOOLOPS = {'lt', 'le', 'gt', 'ge', 'eq', 'ne', 'and', 'or', 'not', 'isclose', 'isnan', 'isinf', 'isfinite',
           'pos', 'zero', 'all', 'any', 'conj'}


def isbool(t):
    if isinstance(t, (bool, np.bool_)):
        return True
    if not isinstance(t, Term):
        return False
    if t.op in BOOLOPS or t.sort in ('b', 'B'):
        return True
    if t.op == 'sym' and len(t.args) > 1 and isinstance(t.args[1], tuple) and 'bool' in t.args[1]:
        return True
    if t.op in ('getitem', 'transpose', 'reshape'):
        return isbool(t.args[0])
    return False


def _not(t):
    if isinstance(t, (bool, int)):
        return not t
    if t.op == 'not':
        return t.args[0]
    return mk('not', (t,), t.sort)


def _conj(parts, sort):
    flat = []
    for p in parts:
        if isinstance(p, Term) and p.op == 'conj':
            flat.extend(p.args)
        else:
            flat.append(p)
    out = []
    for p in flat:
        if not isinstance(p, Term):
            if not p:
                return False
            continue
        if p not in out:
            out.append(p)
    for p in out:
        if _not(p) in out:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return mk('conj', tuple(sorted(out, key=lambda t: t.id)), sort)


def _pos(p, sort):
    """canonical p > 0"""
    c = pconst(p)
    if c is not None:
        return c > 0
    n, s = norm_sign(p)
    return mk('pos', (mkpoly(n if s > 0 else pscale(n, -1), 'A'),), sort)


def _zero(p, sort):
    c = pconst(p)
    if c is not None:
        return c == 0
    n, s = norm_sign(p)
    return mk('zero', (mkpoly(n, 'A'),), sort)


def _frac(e):
    if isinstance(e, Fraction):
        return int(e) if e.denominator == 1 else e
    if isinstance(e, int):
        return e
    if isinstance(e, float) and math.isfinite(e):
        f = Fraction(e)
        if f.denominator <= 8:
            return int(f) if f.denominator == 1 else f
    return None


def ppow(p, e, depth=0):
    """p ** e as polynomial over (possibly new) atoms"""
    if not p:
        return {} if e > 0 else P(mk('const', (INF,), 'f'))
    if isinstance(e, int) and 0 <= e <= 4:
        r = {(): Fraction(1)}
        for _ in range(e):
            r = pmul(r, p)
        return r
    if len(p) == 1:
        (m, c), = p.items()
        ok = all((isinstance(e, int) or _nonneg(t, x)) for t, x in m)
        if ok:
            cc = None
            if isinstance(e, int):
                cc = Fraction(c) ** e
            elif c > 0:
                r = float(c) ** float(e)
                if Fraction(r).denominator < 2 ** 30 and abs(Fraction(r) ** (1 / Fraction(e)).numerator - 0) >= 0:
                    root = Fraction(r).limit_denominator(10 ** 6)
                    if root ** Fraction(e).denominator == Fraction(c) ** Fraction(e).numerator:
                        cc = root
                if cc is None and c != 1:
                    q = {}
                    mono = tuple((t, _frac(Fraction(x) * e)) for t, x in m)
                    base = mkpoly({(): c}, 'f')
                    at = mk('cpow', (c, Fraction(e)), 'f')
                    return {mmul(mono, ((at, 1),)): Fraction(1)}
                if c == 1:
                    cc = Fraction(1)
            if cc is not None:
                mono = tuple((t, _frac(Fraction(x) * e)) for t, x in m)
                return {mono: cc}
    n, s = norm_sign(p)
    # content: common positive factor is moved out
    lead = next(iter(p))
    k = abs(p[max(p, key=lambda m: (len(m) > 0, tuple((t.id, x) for t, x in m)))])
    base = {m: c / k for m, c in p.items()}
    if isinstance(e, int) and s < 0:
        base = pscale(base, -1)
        k = -k
    at = mk('base', (mkpoly(base, 'A'),), 'A')
    if isinstance(e, int):
        return {((at, e),): Fraction(k) ** e}
    if k == 1:
        return {((at, e),): Fraction(1)}
    kk = ppow({(): Fraction(k)}, e) if k > 0 else None
    if kk is None:
        at = mk('base', (mkpoly(p, 'A'),), 'A')
        return {((at, e),): Fraction(1)}
    return pmul(kk, {((at, e),): Fraction(1)})


def _nonneg(t, x):
    if isinstance(x, int) and x % 2 == 0:
        return False      # (t**2)**.5 is |t|, handled separately
    return t.op in ('abs', 'sqrt', 'base', 'sumsq', 'cpow') or (t.op == 'sum' and _sumsq(t.args[0]))


def _sumsq(x):
    p = P(x)
    return all(c > 0 and all(isinstance(e, int) and e % 2 == 0 for _, e in m) for m, c in p.items())


def _fixbase(p):
    """re-expand base atoms whose exponent became a positive integer"""
    again = False
    out = {}
    for m, c in p.items():
        exp = [(t, e) for t, e in m if t.op == 'base' and isinstance(e, int) and 0 < e <= 3]
        if not exp:
            out[m] = out.get(m, 0) + c
            if not out[m]:
                del out[m]
            continue
        again = True
        rest = tuple((t, e) for t, e in m if (t, e) not in exp)
        q = {rest: c}
        for t, e in exp:
            for _ in range(e):
                q = pmul(q, P(t.args[0]))
        out = padd(out, q)
    return _fixbase(out) if again else out


def poly(t):
    """polynomial of the canonical form of a term"""
    t = nf(t)
    return P(t)


ARITH = {'add', 'sub', 'mul', 'div', 'neg', 'pow', 'poly', 'sqrt', 'frac'}


def nf(t):
    if isinstance(t, tuple):
        return tuple(nf(x) for x in t)
    if not isinstance(t, Term):
        if isinstance(t, bool):
            return t
        if isinstance(t, float) and t == t and abs(t) < 1e15 and t == int(t):
            return int(t)
        return t
    if t.nfc is not None:
        return t.nfc
    try:
        r = _nf(t)
    except (TooBig, OverflowError, ZeroDivisionError, RecursionError):
        r = t
    if isinstance(r, Term):
        if r.nfc is None:
            r.nfc = r
    t.nfc = r
    return r


def _nf(t):
    op, a, s = t.op, t.args, t.sort
    if op in ARITH:
        if op == 'poly':
            r = {}
            for m, c in a[0]:
                q = {(): Fraction(c)}
                for at, e in m:
                    q = pmul(q, ppow(poly(at), e) if e != 1 else poly(at))
                r = padd(r, q)
            return mkpoly(_fixbase(r), s)
        if op == 'frac':
            return t
        if op == 'add':
            return mkpoly(padd(poly(a[0]), poly(a[1])), s)
        if op == 'sub':
            return mkpoly(padd(poly(a[0]), poly(a[1]), -1), s)
        if op == 'neg':
            return mkpoly(pscale(poly(a[0]), -1), s)
        if op == 'mul':
            return mkpoly(_fixbase(pmul(poly(a[0]), poly(a[1]))), s)
        if op == 'div':
            d = poly(a[1])
            if not d:
                return mk('div', (nf(a[0]), 0), s)
            return mkpoly(_fixbase(pmul(poly(a[0]), ppow(d, -1))), s)
        if op == 'sqrt':
            return _sqrt(poly(a[0]), s)
        if op == 'pow':
            e = _frac(nf(a[1])) if not isinstance(nf(a[1]), Term) else None
            if e is None:
                return mk('pow', (nf(a[0]), nf(a[1])), s)
            if e == Fraction(1, 2):
                return _sqrt(poly(a[0]), s)
            return mkpoly(_fixbase(ppow(poly(a[0]), e)), s)
    if op == 'abs':
        p = poly(a[0])
        c = pconst(p)
        if c is not None:
            return mkpoly({(): abs(c)}, s)
        return _abs(p, s)
    if op in ('lt', 'gt', 'le', 'ge'):
        x, y = (a[0], a[1]) if op in ('gt', 'le') else (a[1], a[0])
        d = padd(poly(x), poly(y), -1)
        r = _pos(d, s)
        return r if op in ('gt', 'lt') else _not(r)
    if op in ('eq', 'ne'):
        if isbool(a[0]) and isbool(a[1]):
            x, y = nf(a[0]), nf(a[1])
            if not isinstance(y, Term):
                r = x if y else _not(x)
            elif not isinstance(x, Term):
                r = y if x else _not(y)
            else:
                r = mk('beq', tuple(sorted((x, y), key=lambda q: q.id)), s)
        elif any(isinstance(x, (str, type(None), tuple)) or (isinstance(x, Term) and x.sort in 'so') for x in a):
            r = mk('same', tuple(nf(x) for x in a), s)
        else:
            r = _zero(padd(poly(a[0]), poly(a[1]), -1), s)
        return r if op == 'eq' else _not(r)
    if op == 'not':
        return _not(nf(a[0]))
    if op == 'and':
        return _conj([nf(x) for x in a], s)
    if op == 'or':
        return _not(_conj([_not(nf(x)) for x in a], s))
    if op == 'any':
        x = nf(a[0])
        return _not(nf(mk('all', (_not(x),) + a[1:], s))) if isbool(x) else mk('any', (x,) + a[1:], s)
    if op == 'all':
        x = nf(a[0])
        if not isinstance(x, Term):
            return bool(x)
        return mk('all', (x,) + a[1:], s)
    if op == 'isclose':
        x, y = nf(a[0]), nf(a[1])
        if y == 0 and isinstance(x, Term):
            p = P(x)
            n, sg = norm_sign(p)
            if sg < 0:
                x = mkpoly(pscale(p, -1), 'A')
        return mk('isclose', (x, y) + tuple(nf(z) for z in a[2:]), s)
    if op == 'where':
        c, x, y = (nf(z) for z in a)
        if not isinstance(c, Term):
            return x if c else y
        if c.op == 'not':
            c, x, y = c.args[0], y, x
        if x is y or (not isinstance(x, Term) and not isinstance(y, Term) and x == y):
            return x
        if c.op == 'pos':
            d = P(c.args[0])
            e = padd(P(x), P(y), -1)
            if e:
                n1, s1 = norm_sign(d)
                n2, s2 = norm_sign(e)
                if n1 == n2:
                    return _mm('max' if s1 == s2 else 'min', (x, y), s)
        return mk('where', (c, x, y), s)
    if op in ('max', 'min'):
        return _mm(op, tuple(nf(x) for x in a), s)
    if op == 'setitem':
        x, idx, v = a
        if len(idx) == 1 and isinstance(idx[0], Term) and isbool(idx[0]):
            if isinstance(v, Term) and v.op == 'getitem' and len(v.args[1]) == 1 and nf(v.args[1][0]) is nf(idx[0]):
                return nf(mk('where', (idx[0], v.args[0], x), s))
            if not isinstance(v, Term) or v.sort in ('i', 'I', 'f', 'F'):
                return nf(mk('where', (idx[0], v, x), s))
        return mk(op, tuple(nf(z) for z in a), s)
    if op == 'transpose':
        x, perm = nf(a[0]), a[1]
        if isinstance(x, Term) and x.op == 'transpose':
            perm = tuple(x.args[1][i] for i in perm)
            x = x.args[0]
        if perm == tuple(range(len(perm))):
            return x
        return mk(op, (x, perm), s)
    if op in ('sum',):
        return mk('sum', tuple(nf(x) for x in a), s)
    return mk(op, tuple(nf(x) for x in a), s)


def _mm(op, xs, s):
    flat = []
    for x in xs:
        if isinstance(x, Term) and x.op == op:
            flat.extend(x.args)
        else:
            flat.append(x)
    seen = []
    for x in flat:
        if not any(x is y or (not isinstance(x, Term) and not isinstance(y, Term) and x == y) for y in seen):
            seen.append(x)
    if len(seen) == 1:
        return seen[0]
    seen.sort(key=lambda x: (0, x.id) if isinstance(x, Term) else (1, float(x)))
    return mk(op, tuple(seen), s)


def _sqrt(p, s):
    c = pconst(p)
    if c is not None and c >= 0:
        r = Fraction(math.isqrt(c.numerator), math.isqrt(c.denominator))
        if r * r == c:
            return mkpoly({(): r}, s)
    if len(p) == 1:
        (m, c), = p.items()
        if c > 0 and m and all(isinstance(e, int) and e % 2 == 0 for _, e in m):
            root = ppow({(): c}, Fraction(1, 2))
            inner = {tuple((t, e // 2) for t, e in m): Fraction(1)}
            return mkpoly(pmul(root, P(_abs(inner, s))), s)
    return mkpoly(ppow(p, Fraction(1, 2)), s)


def _abs(p, s):
    if len(p) == 1:
        (m, c), = p.items()
        if all(_nonneg(t, 1) or (isinstance(e, int) and e % 2 == 0) for t, e in m):
            return mkpoly({m: abs(c)}, s)
    n, sg = norm_sign(p)
    lead = abs(p[max(p, key=lambda m: (len(m) > 0, tuple((t.id, x) for t, x in m)))])
    return mkpoly({((mk('abs', (mkpoly(n, 'A'),), s), 1),): Fraction(lead)}, s)


# ---------------------------------------------------------------- random interpretation

class EvalUnknown(Exception):
    """the term has parts the analysis knows nothing about"""


class EvalError(Exception):
    """the operation raises for this interpretation"""

    def __init__(self, exc):
        self.exc = exc


def fits(n, limit=100000):
    """interpretations with very large arrays are not evaluated"""
    if n > limit:
        raise EvalUnknown('size')
    return n


class OffPath(Exception):
    """this interpretation does not satisfy the side conditions of the path"""


def hash_rng(*key):
    return random.Random(repr(key))


# powers of two: floating point arithmetic scales exactly
SCALES = [1.0] * 20 + [2.0 ** 11, 2.0 ** -12, 2.0 ** -28]


class Env:
    """one random interpretation of the symbols"""

    def __init__(self, seed, syms=None):
        self.seed = seed
        self.vals = dict(syms or {})
        self.memo = {}
        self.rng = random.Random(seed)
        self.mode = self.rng.choice(['i2', 'i2', 'i3', 'i3', 'q', 'n', 'n', 'n', 'sp', 'col'])
        self.scale = self.rng.choice(SCALES)
        self.facts = None
        self.bounds = {}
        self.hints = ()
        self.binds = []

    # symbols -------------------------------------------------------------
    def sym(self, t):
        if t in self.vals:
            return self.vals[t]
        v = self.gen(t)
        self.vals[t] = v
        return v

    def gen(self, t):
        name = t.args[0]
        r = hash_rng(self.seed, name)
        if len(t.args) > 1 and isinstance(t.args[1], tuple) and t.args[1]:
            if t.args[1][0] == 'bound':
                raise EvalUnknown(t)
            if t.args[1][0] == 'loopidx':
                n = int(self.ev(t.args[1][1]))
                if n <= 0:
                    raise OffPath
                return r.choice([0, n - 1, r.randrange(n), r.randrange(n)])
        if t.sort in ('i', 'I'):
            lo, hi = self.bounds.get(t, (-INF, INF))
            if lo == -INF:
                lo = -5 if hi == INF else hi - 8
            else:
                lo = self.ev(lo) if isinstance(lo, Term) else lo
            if hi == INF:
                hi = lo + r.choice([0, 1, 2, 3, 5])
                hs = [int(h) + k for h in self.hints if h == int(h) and lo <= h <= 400 for k in (0, 1)]
                if hs and r.random() < .4:
                    lo = hi = r.choice(hs)
            v = r.randint(int(lo), int(hi))
            return v if t.sort == 'i' else np.int64(v)
        if t.sort in ('b', 'B'):
            return r.random() < .5
        if t.sort in ('f', 'F'):
            spec = t.args[1] if len(t.args) > 1 else ()
            if 'pos' in spec:
                v = r.choice([1.0, 2.0, 0.5, 0.25, 3.0, r.uniform(.1, 4)])
            elif 'tol' in spec:
                v = r.choice([1e-15, 1e-8, 1e-3, .5, 1.0, 1.0, 2.0]) * (self.scale if self.scale < 1 and r.random() < .7 else 1.0)
            elif 'unit' in spec:
                v = r.choice([0.0, 1.0, .5, .25, r.random()])
            else:
                v = r.choice([0.0, 1.0, -1.0, 2.0, 0.5, -2.0, 3.0, r.uniform(-3, 3), r.uniform(-3, 3)])
            if self.hints and 'unit' not in spec and r.random() < .6:
                v = r.choice(self.hints) * r.choice([.5, .999, 1.0, 1.001, 2.0, 20.0])
                if 'pos' in spec or 'tol' in spec:
                    v = abs(v)
            return np.float64(v) if t.sort == 'F' else float(v)
        if t.sort == 'A':
            shape, dtype, hint = t.args[1]
            shp = tuple(int(self.ev(d)) for d in shape)
            if any(d < 0 for d in shp):
                raise OffPath
            return self.array(r, shp, dtype, hint)
        if t.sort == 'o':
            return Opaque(t.args)
        if t.sort == 's':
            return f'str{r.randrange(5)}'
        raise EvalUnknown(t)

    def array(self, r, shp, dtype, hint):
        n = fits(int(np.prod([float(d) for d in shp]))) if shp else 1
        if self.hints and hint in ('', 'generic') and (not dtype or dtype.startswith('float')) and r.random() < .5:
            h = r.choice([x for x in self.hints if abs(x) < 100] or [1.0])
            ks = r.choice([[-1, 0, 1, 2, .5], [-2, -1, -.3, 0, .7, 1, 1.1, 3, 20]])
            return np.array([h * r.choice(ks) if r.random() < .8 else r.uniform(-3, 3) for _ in range(n)], dtype=dtype or float).reshape(shp)
        if dtype == 'bool':
            pr = r.choice([0.0, .2, .5, .5, .8, 1.0])
            return np.array([r.random() < pr for _ in range(n)], dtype=bool).reshape(shp)
        if isinstance(hint, tuple) and hint[0] == 'idx':
            m = int(self.ev(hint[1]))
            if m <= 0 and n:
                raise OffPath
            return np.array([r.randrange(-m, m) for _ in range(n)], dtype=np.int64).reshape(shp)
        if dtype in ('int8', 'int16', 'int32', 'uint8', 'uint16', 'uint32', 'uint64') and hint in ('', 'generic'):
            ii = np.iinfo(dtype)
            lo, hi = max(int(ii.min), -30000), min(int(ii.max), 30000)
            lo, hi = r.choice([(lo, hi), (max(lo, -6), 6), (max(lo, -1), 2)])
            return np.array([r.randint(lo, hi) for _ in range(n)], dtype=dtype).reshape(shp)
        if hint == 'incr':
            st = [r.choice([.25, .5, 1.0, 1.0, 2.0, r.uniform(.1, 2)]) for _ in range(n)]
            return (np.cumsum(st) + r.choice([0, -1, 2.5, -4])).reshape(shp)
        mode = self.mode
        if hint == 'generic' and mode in ('i2', 'i3', 'sp', 'col'):
            mode = 'n'
        if hint == 'exact':
            # values whose sums and products are exact
            return np.array([r.randrange(-12, 13) / 4 for _ in range(n)], dtype=dtype or float).reshape(shp)
        if hint == 'near':
            # values that are equal, equal within rounding, or different
            vals = [r.choice([0.0, 1.0, 1.0, .5, -2.0]) + r.choice([0.0, 0.0, 2.0 ** -40, -2.0 ** -40, 2.0 ** -30]) for _ in range(n)]
            arr = np.array(vals, dtype=float).reshape(shp)
            return arr.astype(dtype) if dtype and dtype != 'float64' else arr
        if hint == 'nan' and r.random() < .5:
            vals = [r.choice([0.0, 1.0, 1.0, 2.0, -1.0, float('nan'), INF, -INF, r.uniform(-2, 2)]) for _ in range(n)]
        elif mode == 'i2':
            vals = [float(r.choice([0, 1])) for _ in range(n)]
        elif mode == 'i3':
            vals = [float(r.choice([-2, -1, 0, 1, 2])) for _ in range(n)]
        elif mode == 'q':
            vals = [r.randrange(-12, 13) / 4 for _ in range(n)]
        elif mode == 'sp':
            c = r.choice([0.0, 1.0, 2.0])
            vals = [c] * n
        elif mode == 'col' and len(shp) >= 1:
            u = hash_rng(self.seed, 'dir')
            k = shp[-1] if shp else 1
            d = [u.choice([-1.0, 0.0, 1.0, 2.0]) for _ in range(k)]
            rows = [r.choice([-1, 0, 0, 1, 2, .5]) for _ in range(n // k if k else 0)]
            vals = [row * x for row in rows for x in d]
        else:
            vals = [r.uniform(-3, 3) for _ in range(n)]
        arr = np.array(vals, dtype=float).reshape(shp)
        if hint != 'nan' and self.scale != 1 and (self.scale > 1 or not dtype or dtype.startswith('f')):
            arr = arr * self.scale
        if dtype and dtype != 'float64':
            arr = arr.astype(dtype)
        return arr

    # evaluation ----------------------------------------------------------
    def ev(self, t):
        if not isinstance(t, Term):
            if isinstance(t, tuple):
                return tuple(self.ev(x) for x in t)
            if isinstance(t, Fraction):
                return float(t)
            return t
        m = self.memo
        if t in m:
            v = m[t]
            if isinstance(v, Exception):
                raise v
            return v
        try:
            v = self._ev(t)
        except (EvalUnknown, EvalError, OffPath) as e:
            m[t] = e
            raise
        except (ArithmeticError, ValueError, TypeError, IndexError, KeyError, AttributeError, AssertionError, np.linalg.LinAlgError) as e:
            e2 = EvalError(e)
            m[t] = e2
            raise e2
        except (MemoryError, OverflowError):
            e = m[t] = EvalUnknown(t)
            raise e
        m[t] = v
        return v

    def _ev(self, t):
        op = t.op
        f = OPS.get(op)
        if f is not None:
            return f(self, t)
        g = EL.get(op)
        if g is not None:
            return g(*[self.ev(x) for x in t.args])
        raise EvalUnknown(t)

    def bind(self, sym, val):
        """sub-environment with one symbol bound (bound index of a map term)"""
        e = Env.__new__(Env)
        e.__dict__.update(self.__dict__)
        e.vals = dict(self.vals)
        e.vals[sym] = val
        e.memo = {}
        return e


class Opaque:
    """uninterpreted value"""

    def __init__(self, key):
        self.key = key

    def __repr__(self):
        return f'<{self.key}>'

    def __eq__(self, o):
        return isinstance(o, Opaque) and repr(self.key) == repr(o.key)

    def __hash__(self):
        return hash(repr(self.key))


def digest(v):
    """value -> hashable key insensitive to rounding"""
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ('O', v.shape, tuple(digest(x) for x in v.ravel()))
        return ('A', v.shape, tuple(digest(x) for x in v.ravel().tolist()))
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return float(v)
    if isinstance(v, (float, np.floating)):
        if v != v:
            return 'nan'
        if v in (INF, -INF):
            return str(v)
        if abs(v) < 1e-9:
            return 0.0
        return float(f'{float(v):.7g}')
    if isinstance(v, (tuple, list)):
        return tuple(digest(x) for x in v)
    if isinstance(v, dict):
        return tuple(sorted((str(k), digest(x)) for k, x in v.items()))
    return repr(v)


def _scal(v):
    if isinstance(v, np.ndarray) and v.ndim == 0:
        return v[()]
    return v


def npcall(fn, *a, **k):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return fn(*a, **k)


def _div(a, b):
    with np.errstate(all='ignore'):
        if not isinstance(a, (np.ndarray, np.generic)) and not isinstance(b, (np.ndarray, np.generic)):
            if b == 0:
                raise ZeroDivisionError
            return a / b
        return np.true_divide(a, b)


def _pow(a, b):
    with np.errstate(all='ignore'):
        if isinstance(a, (int, float)) and not isinstance(a, bool) and isinstance(b, (int, float)):
            r = a ** b
            return r
        return np.power(np.asarray(a, dtype=float) if isinstance(b, int) and b < 0 else a, b)


def _q(f):
    def g(*a):
        with np.errstate(all='ignore'):
            return f(*a)
    return g


def _logic(npf, pyf):
    def g(*a):
        r = a[0]
        for x in a[1:]:
            r = npf(r, x)
        return r
    return g


def _not_ev(a):
    return np.logical_not(a) if isinstance(a, (np.ndarray, np.bool_)) else (not a)


EL = {
    'add': _q(lambda a, b: np.add(a, b) if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) else a + b),
    'sub': _q(lambda a, b: np.subtract(a, b) if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) else a - b),
    'mul': _q(lambda a, b: np.multiply(a, b) if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) else a * b),
    'div': _div,
    'floordiv': _q(lambda a, b: a // b),
    'mod': _q(lambda a, b: a % b),
    'pow': _pow,
    'neg': _q(lambda a: -a),
    'abs': _q(abs),
    'sqrt': _q(np.sqrt),
    'lt': _q(lambda a, b: a < b), 'le': _q(lambda a, b: a <= b),
    'gt': _q(lambda a, b: a > b), 'ge': _q(lambda a, b: a >= b),
    'eq': _q(lambda a, b: a == b), 'ne': _q(lambda a, b: a != b),
    'and': _logic(np.logical_and, None), 'or': _logic(np.logical_or, None), 'not': _not_ev,
    'conj': _logic(np.logical_and, None),
    'beq': lambda a, b: np.equal(a, b), 'same': lambda a, b: a == b,
    'pos': _q(lambda a: a > 0), 'zero': _q(lambda a: a == 0),
    'max': _q(lambda *a: _fold(np.maximum, a)), 'min': _q(lambda *a: _fold(np.minimum, a)),
    'imax': max, 'imin': min,
    'base': lambda a: a, 'const': lambda a: a, 'frac': lambda a: float(a), 'cpow': lambda c, e: float(c) ** float(e),
    'where': lambda c, a, b: _scal(np.where(c, a, b)),
    'isclose': _q(lambda a, b, *k: np.isclose(a, b, *k)),
    'isnan': np.isnan, 'isinf': np.isinf, 'isfinite': np.isfinite,
    'int': lambda x: int(x), 'float': lambda x: float(x), 'bool': lambda x: bool(x),
    'round': lambda x, *n: _round(x, *n),
    'list': lambda *a: list(a),
    'tuple': lambda *a: tuple(a),
    'len': lambda x: len(x),
    'nnz': lambda x: int(np.count_nonzero(x)),
    'strlen': lambda x: len(x),
}


def _round(x, *n):
    if n and n[0] is not None:
        return round(x, int(n[0]))
    return round(x)


def _fold(f, a):
    r = a[0]
    for x in a[1:]:
        r = f(r, x)
    return r


def _ev_poly(env, t):
    r = None
    with np.errstate(all='ignore'):
        for m, c in t.args[0]:
            x = int(c) if c.denominator == 1 else float(c)
            for at, e in m:
                v = env.ev(at)
                if e != 1:
                    e = int(e) if e == int(e) else float(e)
                    if isinstance(e, int) and e > 0:
                        v = v ** e
                    else:
                        v = np.power(np.asarray(v, dtype=float), float(e))
                        v = _scal(v)
                x = x * v
            r = x if r is None else r + x
    return r


def idx_ev(env, idx):
    out = []
    for c in idx:
        if isinstance(c, tuple) and c and c[0] == 'slice':
            a, b, s = (None if x is None else int(env.ev(x)) for x in c[1:])
            out.append(slice(a, b, s))
        elif c == 'newaxis':
            out.append(None)
        elif c == 'ellipsis':
            out.append(Ellipsis)
        else:
            v = env.ev(c)
            if isinstance(v, list):
                v = np.asarray(v)
            if isinstance(v, np.ndarray) and v.size == 0 and v.dtype != bool:
                v = v.astype(int)
            out.append(v)
    return tuple(out) if len(out) != 1 else out[0]


def _ev_getitem(env, t):
    x = env.ev(t.args[0])
    i = idx_ev(env, t.args[1])
    if isinstance(x, Opaque):
        return Opaque(('item', x.key, digest(i)))
    if isinstance(x, list):
        x = np.asarray(x)
    return x[i]


def _ev_setitem(env, t):
    x = np.array(env.ev(t.args[0]))
    x[idx_ev(env, t.args[1])] = env.ev(t.args[2])
    return x


def _ev_map(env, t):
    L, sym, body = t.args
    n = fits(int(env.ev(L)), 5000)
    vals = [env.bind(sym, i).ev(body) for i in range(n)]
    return np.array(vals) if vals else np.zeros((0,))


def _ev_maparr(env, t):
    # map with declared item shape (keeps shape when empty)
    L, sym, body, shape, dtype = t.args
    n = fits(int(env.ev(L)), 5000)
    if not n:
        return np.zeros((0,) + tuple(int(env.ev(d)) for d in shape), dtype=dtype or float)
    return np.array([env.bind(sym, i).ev(body) for i in range(n)])


def _red(f):
    def g(env, t):
        x = env.ev(t.args[0])
        ax = t.args[1] if len(t.args) > 1 else None
        if isinstance(ax, tuple):
            ax = tuple(int(env.ev(q)) for q in ax)
        elif isinstance(ax, Term):
            ax = int(env.ev(ax))
        return npcall(f, x, axis=ax)
    return g


def _kwargs(env, kw):
    return {k: env.ev(v) for k, v in kw}


def _ev_np(env, t):
    name, args, kw = t.args
    f = np
    for part in name.split('.'):
        f = getattr(f, part)
    a = [_narg(env.ev(x)) for x in args]
    k = {n: _narg(v) for n, v in _kwargs(env, kw).items()}
    for v in list(a) + list(k.values()):
        if isinstance(v, Opaque):
            raise EvalUnknown(t)
    if name == 'linspace':
        fits(k.get('num', a[2] if len(a) > 2 else 50))
    elif name == 'arange':
        fits(abs(float(a[1] if len(a) > 1 else a[0]) - (float(a[0]) if len(a) > 1 else 0)) / abs(float(a[2] if len(a) > 2 else 1) or 1))
    elif name in ('repeat', 'tile') and len(a) > 1:
        fits(np.max(a[1], initial=0) * np.size(a[0]))
    r = npcall(f, *a, **k)
    return r


def _narg(v):
    if isinstance(v, tuple) and len(v) == 4 and v[0] == 'slice':
        return slice(*v[1:])
    if isinstance(v, tuple) and len(v) == 2 and v[0] == 'dtype':
        return np.dtype(v[1])
    return v


def _ev_sp(env, t):
    """scipy function by dotted name"""
    import importlib
    name, args, kw = t.args
    mod, fn = name.rsplit('.', 1)
    f = getattr(importlib.import_module(mod), fn, None)
    if fn == 'wminkowski':
        f = wminkowski
    a = [_narg(env.ev(x)) for x in args]
    k = {n: _narg(v) for n, v in _kwargs(env, kw).items()}
    if mod == 'scipy.spatial.distance' and fn not in ('pdist', 'squareform'):
        a = [np.asarray(x, dtype=float) for x in a]
        try:
            return np.float64(npcall(f, *a, **k))
        except ValueError as e:
            raise EvalError(str(e))
    return npcall(f, *a, **k)


def wminkowski(u, v, p, w):
    return (np.abs(np.asarray(w) * (u - v)) ** p).sum() ** (1.0 / p)


# line parameters: inside, at the ends, beyond within rounding, beyond by a little, beyond
POOL01 = [0.0, 1.0, .5, .25, 1 + 1e-9, -1e-9, 1.5, -.5, .5, .25, .75, 1 + 4e-5, -3e-8, -4e-5, 1 + 2e-3]


def _ev_ext(env, t):
    """uninterpreted function: the same arguments give the same random result"""
    name, args, shape = t.args
    if name == 'interp1d linear':
        x, y, g = (env.ev(a) for a in args)
        x, y, g = np.asarray(x, float), np.asarray(y, float), np.asarray(g, float)
        if len(x) != len(y) or len(x) < 1 or np.any(g < x.min()) or np.any(g > x.max()):
            raise EvalError('interp1d outside its range')
        k = np.argsort(x, kind='mergesort')
        return np.interp(g, x[k], y[k])
    key = (name, digest(env.ev(args)))
    r = hash_rng(key)
    if shape is None:
        return Opaque(key)
    if shape == 'float':
        return np.float64(r.choice([0.0, 1.0, .5, .25, 2.0, -1.0, r.uniform(-1, 2), r.uniform(0, 1)]))
    if shape == 'pool01':
        return np.float64(r.choice(POOL01 + [r.uniform(0, 1), r.uniform(-.5, 1.5)]))
    if shape == 'bool':
        return r.random() < .5
    if shape == 'int':
        return np.int64(r.randrange(0, 5))
    if shape and shape[0] == 'pool01':
        shp = tuple(int(env.ev(d)) for d in shape[1:])
        n = fits(int(np.prod([float(d) for d in shp]))) if shp else 1
        return np.array([r.choice(POOL01 + [r.uniform(0, 1), r.uniform(-.5, 1.5)]) for _ in range(n)]).reshape(shp)
    if shape and shape[0] == 'boolarr':
        shp = tuple(int(env.ev(d)) for d in shape[1:])
        n = fits(int(np.prod([float(d) for d in shp]))) if shp else 1
        return np.array([r.random() < .5 for _ in range(n)], dtype=bool).reshape(shp)
    shp = tuple(int(env.ev(d)) for d in shape)
    n = fits(int(np.prod([float(d) for d in shp]))) if shp else 1
    return np.array([r.uniform(-2, 2) for _ in range(n)]).reshape(shp)


def _ev_empty(env, t):
    shp = tuple(int(env.ev(d)) for d in t.args[0])
    r = hash_rng('empty', t.id, env.seed)
    n = fits(int(np.prod([float(d) for d in shp]))) if shp else 1
    return np.array([r.uniform(1e3, 1e4) for _ in range(n)]).reshape(shp).astype(t.args[1] or float)


def _ev_sel(env, t):
    """first alternative whose condition holds"""
    for c, v in t.args[0]:
        if env.ev(c):
            return env.ev(v)
    raise OffPath


def _ev_slicelen(env, t):
    n, a, b, s = (None if x is None else int(env.ev(x)) for x in t.args)
    return len(range(*slice(a, b, s).indices(n)))


def _ev_shape(env, t):
    x = env.ev(t.args[0])
    if isinstance(x, Opaque):
        raise EvalUnknown(t)
    if t.args[1] == 'ndim':
        return int(np.ndim(x))
    if t.args[1] == 'size':
        return int(np.size(x))
    sh = np.shape(x)
    if t.args[1] >= len(sh):
        raise IndexError
    return int(sh[t.args[1]])


def _ev_astype(env, t):
    return np.asarray(env.ev(t.args[0])).astype(t.args[1])


def _ev_array(env, t):
    v = env.ev(t.args[0])
    return np.array(v, dtype=t.args[1]) if t.args[1] else np.array(v)


def _ev_full(env, t):
    shp = tuple(int(env.ev(d)) for d in t.args[0])
    fits(np.prod([float(d) for d in shp]))
    return np.full(shp, env.ev(t.args[1]), dtype=t.args[2])


def _ev_attr(env, t):
    x = env.ev(t.args[0])
    return Opaque(('attr', getattr(x, 'key', repr(x)), t.args[1]))


def _ev_concat(env, t):
    return np.concatenate([np.asarray(env.ev(x)) for x in t.args[1]], axis=t.args[0])


def _ev_stack(env, t):
    return np.stack([np.asarray(env.ev(x)) for x in t.args[1]], axis=t.args[0])


def _ev_item(env, t):
    x = env.ev(t.args[0])
    i = env.ev(t.args[1])
    if isinstance(x, Opaque):
        return Opaque(('item', x.key, digest(i)))
    return x[i]


def _ev_fstr(env, t):
    return ''.join(str(digest(env.ev(x))) for x in t.args)


def _ev_seqset(env, t):
    L, sym, body = t.args
    n = int(env.ev(L))
    return tuple(sorted(digest(env.bind(sym, i).ev(body)) for i in range(n)))


def mentions(t, sym):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x is sym:
            return True
        if isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, Term) and x.id not in seen:
            seen.add(x.id)
            stack.extend(x.args)
    return False


def _ev_proj(env, t):
    v = env.ev(t.args[0])
    if isinstance(v, Opaque):
        raise EvalUnknown(t)
    return v[t.args[1]]


def _ev_raises(env, t):
    try:
        env.ev(t.args[0])
        return False
    except EvalError:
        return True


def _ev_conv(env, t):
    v = env.ev(t.args[0])
    if isinstance(v, Opaque):
        raise EvalUnknown(t)
    v = _scal(np.asarray(v).reshape(())[()])
    return {'f': float, 'i': int, 'b': bool, 'F': np.float64, 'I': np.int64, 'B': np.bool_}[t.sort](v)


def _ev_int(env, t):
    return int(env.ev(t.args[0]))


def _ev_loopset(env, t):
    x, L, i, idx, v = t.args
    a = np.array(env.ev(x))
    for k in range(fits(int(env.ev(L)), 5000)):
        e = env.bind(i, k)
        a[idx_ev(e, idx)] = e.ev(v)
    return a


def _ev_key(env, t):
    return Opaque((t.op,) + tuple(digest(env.ev(a)) for a in t.args))


def _ev_fn(env, t):
    return Opaque((t.op,) + tuple(digest(env.ev(a)) for a in t.args))


def _ev_rbool(env, t):
    return hash_rng(env.seed if t.op == 'callable' else 0, t.op, tuple(digest(env.ev(a)) for a in t.args)).random() < .5


def _ev_same(env, t):
    a, b = env.ev(t.args[0]), env.ev(t.args[1])
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return a == b
    return bool(digest(a) == digest(b))


def _ev_len(env, t):
    v = env.ev(t.args[0])
    if isinstance(v, Opaque):
        return hash_rng('len', v.key).randrange(0, 4)
    return len(v)


def _ev_in(env, t):
    x, xs = env.ev(t.args[0]), env.ev(t.args[1])
    if isinstance(xs, Opaque):
        raise EvalUnknown(t)
    d = digest(x)
    return any(digest(y) == d for y in xs)


def _ev_round(env, t):
    return round(float(env.ev(t.args[0])))


def _ev_nnz(env, t):
    return int(np.count_nonzero(env.ev(t.args[0])))


OPS = {
    'proj': _ev_proj, 'raises': _ev_raises, 'conv': _ev_conv, 'int': _ev_int, 'loopset': _ev_loopset, 'fn': _ev_fn, 'inst': _ev_key, 'dict': _ev_key,
    'setv': _ev_key, 'enum': _ev_key, 'isinst': _ev_rbool, 'callable': _ev_rbool, 'flag': _ev_rbool, 'same': _ev_same, 'len': _ev_len, 'in': _ev_in, 'nnz': _ev_nnz,
    'id': _ev_key, 'hash': _ev_key,
    'sym': lambda env, t: env.sym(t),
    'poly': _ev_poly,
    'getitem': _ev_getitem,
    'setitem': _ev_setitem,
    'map': _ev_map,
    'maparr': _ev_maparr,
    'seqset': _ev_seqset,
    'sum': _red(np.sum), 'all': _red(np.all), 'any': _red(np.any), 'amin': _red(np.min), 'amax': _red(np.max),
    'prod': _red(np.prod), 'mean': _red(np.mean),
    'np': _ev_np,
    'sp': _ev_sp,
    'ext': _ev_ext,
    'empty': _ev_empty,
    'sel': _ev_sel,
    'slicelen': _ev_slicelen,
    'shape': _ev_shape,
    'astype': _ev_astype,
    'array': _ev_array,
    'full': _ev_full,
    'attr': _ev_attr,
    'item': _ev_item,
    'concat': _ev_concat,
    'stack': _ev_stack,
    'fstr': _ev_fstr,
    'transpose': lambda env, t: np.transpose(env.ev(t.args[0]), t.args[1]),
    'reshape': lambda env, t: np.reshape(env.ev(t.args[0]), tuple(int(env.ev(d)) for d in t.args[1])),
}


def close(a, b, scale=1.0):
    """do two interpreted values agree up to rounding"""
    atol = 1e-9 * scale ** 2 if scale > 1 else max(1e-9 * scale, 1e-13)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return a == b
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a == b
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(close(x, y, scale) for x, y in zip(a, b))
    try:
        x, y = np.asarray(a), np.asarray(b)
        if x.dtype == object or y.dtype == object:
            return digest(a) == digest(b)
        if x.shape != y.shape:
            return False
        if x.dtype.kind in 'US' or y.dtype.kind in 'US':
            return bool(np.array_equal(x, y))
        with np.errstate(all='ignore'):
            return bool(np.allclose(x.astype(complex if 'c' in (x.dtype.kind, y.dtype.kind) else float),
                                    y.astype(complex if 'c' in (x.dtype.kind, y.dtype.kind) else float),
                                    rtol=3e-9, atol=atol, equal_nan=True))
    except (TypeError, ValueError):
        return repr(a) == repr(b)
