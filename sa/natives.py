"""Functions the scenario files call: symbols, choices, obligations and queries about the abstract heap."""
from .terms import Term, mk, INF, is_const, P, padd, NUM
from .values import *
from .npm import kind
from .models import mentions_text


def make(E):
    I = E.I
    M = I.M

    def nat(name, lo=0, hi=INF):
        s = mk('sym', (name, ()), 'i')
        I.symbounds[s] = (lo, hi)
        if isinstance(lo, Term) or isinstance(hi, Term):
            I.facts.bounds[s] = (lo if is_const(lo) else -INF, hi if is_const(hi) else INF)
            if isinstance(lo, Term):
                I.facts.ineqs.append(padd(P(s), P(lo), -1))
            if isinstance(hi, Term):
                I.facts.ineqs.append(padd(P(hi), P(s), -1))
        else:
            I.facts.bounds[s] = (lo, hi)
        return s

    def real(name, *spec):
        s = mk('sym', (name, tuple(spec)), 'f')
        if 'pos' in spec:
            I.facts.assume_sign(P(s), {1})
        return s

    def npreal(name, *spec):
        return mk('sym', (name, tuple(spec)), 'F')

    def flag(name):
        return mk('sym', (name, ()), 'b')

    def arr(name, shape, dtype='float64', hint=''):
        if isinstance(shape, Lst):
            shape = tuple(shape.items)
        if not isinstance(shape, tuple):
            shape = (shape,)
        dtype = M.to_dtype(dtype)
        t = mk('sym', (name, (tuple(shape), dtype, hint)), 'A')
        return I.new(NdArr(t, tuple(shape), dtype, origin='input:' + name))

    def incr(name, n):
        return arr(name, (n,), 'float64', 'incr')

    def indices(name, n, size):
        return arr(name, (n,), 'int64', ('idx', size))

    def objs(name):
        return mk('sym', (name, ()), 'o')

    def string(name):
        return mk('sym', (name, ()), 's')

    def choose(*vals):
        k = I.decide(len(vals)) if len(vals) > 1 else 0
        E.choices.append(f'{vals[k]!r}'[:60])
        return vals[k]

    def assume(c):
        if isinstance(c, NdArr):
            c = M.array_truth(c)
        if isinstance(c, bool) or c is None or not isinstance(c, Term):
            if not I.truth(c):
                raise Infeasible
            return
        I.assume(c)

    def skip():
        raise Infeasible

    def same(got, want, what='value'):
        E.same(got, want, what)

    def holds(c, what='condition'):
        if isinstance(c, NdArr):
            E.cond(c, what)
        elif isinstance(c, Term) and c.sort in 'bB':
            E.cond(c, what)
        else:
            E.fact(I.truth(c), what, 'condition is false')

    def outcome(fn, *args, **kw):
        try:
            return ('ok', I.call(fn, list(args), kw))
        except AbsRaise as e:
            return ('raise', e.exc)

    def excname(e):
        return e.cls.name if isinstance(e, Inst) else None

    def raises(fn, exc, what, *args, **kw):
        """calling fn raises exc"""
        try:
            v = I.call(fn, list(args), kw)
        except AbsRaise as e:
            if e.exc.cls.name == 'UnknownError':
                E.oblige('undecided', what, 'an unknown exception is raised')
                return e.exc
            ok = I.truth(M.isinstance_(e.exc, exc))
            E.fact(ok, what, f'{e.exc.cls.name}{e.exc.attrs.get("args", ())} raised at {E.where(e.site)}')
            return e.exc
        E.fact(False, what, f'no exception: returns {M.typename(v)}')
        return None

    def is_same(a, b):
        return I.is_(a, b)

    def frozen(a):
        if isinstance(a, (NdArr, ObjArr)):
            r = a
            return bool(a.frozen)
        return True

    def root(a):
        while getattr(a, 'base', None) is not None:
            a = a.base
        return a

    def rootfrozen(a):
        """no writable handle: the array and every array it is a view of are protected"""
        while a is not None:
            if not a.frozen:
                return False
            a = getattr(a, 'base', None)
        return True

    def alias(a, b):
        """do two arrays (or objects) share memory"""
        return root(a) is root(b)

    def isarray(a):
        return isinstance(a, (NdArr, ObjArr))

    def isterm(a):
        return isinstance(a, Term)

    def origin(a):
        return root(a).origin

    def concretise():
        I.concretise = True

    def mark():
        return len(I.events)

    def shown(v):
        return I.new(Dct({I.hkey(k): (k, x) for k, x in v.items()})) if type(v) is dict else v

    def events(kind_, since=0):
        return I.new(Lst([tuple(shown(v) for v in e[1:-2]) for e in I.events[since:] if e[0] == kind_]))

    def calls_of(since, f):
        """arguments of the calls of an opaque function"""
        f = M.reify(f)
        return I.new(Lst([(e[2], shown(e[3])) for e in I.events[since:] if e[0] == 'opaquecall' and M.reify(e[1]) is f]))

    def effects(since=0):
        """writes to objects that existed before the scenario and reads of the environment"""
        out = []
        for e in I.events[since:]:
            k = e[0]
            if k in ('basewrite', 'modset', 'clsset'):
                o = e[1]
                out.append(k + ' ' + (getattr(o, 'name', None) or type(o).__name__ + ' ' + str(getattr(getattr(o, 'cls', None), 'name', ''))) + ' at ' + str(e[-2]))
            elif k == 'extset' and isinstance(e[1], Ext):
                out.append('changes ' + e[1].path + ' at ' + str(e[-2]))
            elif k == 'impure':
                out.append('uses ' + e[1] + ' at ' + str(e[-2]))
            elif k == 'lru' and not e[2]:
                out.append('result remembered by identity of mutable or approximately equal objects at ' + str(e[-2]))
        return I.new(Lst(sorted(set(out))))

    def named(v, text):
        """the value number of v mentions the text"""
        return text in repr(M.reify(v)) if not isinstance(v, Term) else mentions_text(v, text, set())

    def warnings_since(k):
        return I.new(Lst([e[1] for e in I.events[k:] if e[0] == 'warn']))

    def warned(k, cat):
        return any(e[0] == 'warn' and (cat is None or I.truth(M.issub(e[1], cat))) for e in I.events[k:])

    def value(a):
        """snapshot of the value an array has now"""
        if isinstance(a, NdArr):
            return M.array_copy(a)
        return a

    def callable_(name, result=None):
        """opaque user function"""
        t = mk('sym', (name, ('callable',)), 'o')
        if result is not None:
            I.opaque_shapes[t] = lambda a, k: I.call(result, list(a), k)
        else:
            I.opaque_shapes[t] = None
        return t

    def native(fn):
        return Native('harness', lambda *a, **k: I.call(fn, list(a), k))

    def ext_array(name, args, shape, dtype='float64'):
        """uninterpreted array-valued function of the arguments"""
        if not isinstance(shape, tuple):
            shape = (shape,)
        t = mk('ext', (name, tuple(M.reify(a) for a in (args.items if isinstance(args, Lst) else args)), tuple(shape)), 'A')
        return I.new(NdArr(t, tuple(shape), dtype))

    def ext_real(name, args, sort='f'):
        return mk('ext', (name, tuple(M.reify(a) for a in (args.items if isinstance(args, Lst) else args)), 'float'), sort)

    def ext_bool(name, args):
        return mk('ext', (name, tuple(M.reify(a) for a in (args.items if isinstance(args, Lst) else args)), 'bool'), 'b')

    def fact(ok, what, detail=''):
        E.fact(I.truth(ok), what, detail if isinstance(detail, str) else '')

    def undecided(what):
        E.oblige('undecided', what)

    def typename(v):
        return M.typename(v)

    def truth(c):
        return I.truth(c)

    def knownfalse(c):
        return I.known(c) is False if isinstance(c, Term) else not c

    def attrs(o):
        return I.new(Lst(sorted(o.attrs)))

    def rawattr(o, n):
        return o.attrs.get(n)

    def classname(o):
        return o.cls.name

    def dtname(a):
        return a.dtype if isinstance(a, NdArr) else ({'F': 'float64', 'I': 'int64', 'B': 'bool', 'f': 'float', 'i': 'int', 'b': 'bool'}.get(a.sort) if isinstance(a, Term) else type(a).__name__)

    def snapshot(o):
        """public attribute identity of an object: raw state for later comparison"""
        return I.new(Lst([(k, o.attrs[k]) for k in sorted(o.attrs)]))

    def note(x):
        print('NOTE', x, [str(t) for t in I.trace][-3:])

    def modvar(mod, name):
        return I.modules[mod].ns.get(name)

    def hasmod(mod, name):
        return name in I.modules[mod].ns

    def prepare(t):
        return t

    def nevents():
        return I.new(Lst([(e[0],) for e in I.events]))

    env = dict(locals())
    out = {}
    for k, v in env.items():
        if callable(v) and k not in ('E', 'I', 'M', 'kind', 'make'):
            out['callable' if False else k] = Native(k, v)
    out['INF'] = INF
    return out

