"""Builtin functions, methods of builtin types, attributes of values."""
import math

from .terms import (Term, mk, P, padd, is_const, isint, INF, NUM, NpInt, NpFloat, npscalar)
from .values import *
from .npm import kind
from .npcalls import PyConst, CtxV

from .values import MISSING
STRM = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'format', 'join', 'split', 'startswith', 'endswith', 'replace', 'title', 'capitalize', 'isdigit',
        'isidentifier', 'partition', 'rpartition', 'rsplit', 'splitlines', 'find', 'count', 'index', 'zfill', 'center', 'ljust', 'rjust', 'islower', 'isupper',
        'isalpha', 'encode', 'casefold', 'swapcase', 'removeprefix', 'removesuffix', 'isalnum', 'isspace', 'expandtabs', 'rfind'}


class PyBuiltins:
    # ------------------------------------------------------------ decorators
    def deco_property(self, fget=None, fset=None, fdel=None, doc=None):
        return Prop(fget, fset, )

    def deco_staticmethod(self, f):
        return StaticM(f)

    def deco_classmethod(self, f):
        return ClassM(f)

    # ------------------------------------------------------------ builtin types as constructors
    def builtin_type(self, c, args, kw):
        I = self.I
        n = c.name
        if n == 'object':
            return I.new(Inst(self.obj))
        if n == 'list':
            return I.new(Lst(I.iterate_seq(args[0]) if args else []))
        if n == 'tuple':
            if not args:
                return ()
            if isinstance(args[0], tuple):
                return args[0]
            parts = I.iterate_seq(args[0])
            if any(isinstance(x, (Each, SymSeq)) for x in parts):
                # a tuple of symbolic length behaves as an immutable list
                out = []
                for x in parts:
                    if isinstance(x, SymSeq) and isinstance(x.length, int):
                        out.extend(x.get(i) for i in range(x.length))
                    else:
                        out.append(x)
                if any(isinstance(x, (Each, SymSeq)) for x in out):
                    return I.new(Lst(out, origin='tuple'))
                return tuple(out)
            return tuple(parts)
        if n == 'dict':
            d = I.new(Dct())
            if args:
                if isinstance(args[0], Dct):
                    d.d.update(args[0].d)
                else:
                    for kv in I.concrete_list(args[0]):
                        k, v = I.concrete_list(kv)
                        d.d[I.hkey(k)] = (k, v)
            for k, v in kw.items():
                d.d[I.hkey(k)] = (k, v)
            return d
        if n in ('set', 'frozenset'):
            return self.make_set(I.iterate_seq(args[0]) if args else [])
        if n == 'int':
            if len(args) > 1:
                if is_const(args[0]):
                    return int(args[0], args[1])
                raise Unsupported('int(x, base)')
            return self.bi_int_conv(args[0]) if args else 0
        if n == 'float':
            return self.bi_float_conv(args[0]) if args else 0.0
        if n == 'bool':
            return self.bi_bool_conv(args[0]) if args else False
        if n == 'str':
            return self.bi_str_conv(args[0]) if args else ''
        if n == 'slice':
            a = list(args)
            if len(a) == 1:
                a = [None, a[0], None]
            elif len(a) == 2:
                a = a + [None]
            return SliceV(*a)
        if n == 'range':
            a = [I.num(x) for x in args]
            for x in a:
                if not isint(x):
                    if isinstance(x, Inst):
                        raise Unsupported('range of an object')
                    I.throw('TypeError', 'object cannot be interpreted as an integer')
            if len(a) == 1:
                return RangeV(0, a[0], 1)
            if len(a) == 2:
                return RangeV(a[0], a[1], 1)
            if a[2] == 0:
                I.throw('ValueError', 'range() arg 3 must not be zero')
            return RangeV(*a)
        if n == 'type':
            if len(args) == 1:
                return self.type_of(args[0])
            name, bases, ns = args
            d = {k: v for k, v in ns.d.values()}
            return self.make_class(name, list(bases), d, I.modules.get('skcurve'), [], {})
        if n == 'complex':
            if all(is_const(a) for a in args):
                return complex(*args)
        if c in (self.enum, self.intenum):
            raise Unsupported('functional enum')
        if c is self.seq:
            I.throw('TypeError', "Can't instantiate abstract class Sequence")
        raise Unsupported(f'constructor {n}')

    # ------------------------------------------------------------ conversions
    def dunder(self, v, name):
        if isinstance(v, Inst):
            f, _ = v.cls.lookup(name)
            if f is not None:
                return self.I.bind(f, v, v.cls)
        return None

    def to_scalar(self, v, what):
        """0-d / one-element array -> scalar; None when v is not an array"""
        if isinstance(v, NdArr):
            if v.shape is None:
                raise Unsupported('scalar of an array of unknown shape')
            if not v.shape:
                return self.wrap(self.cur(v), (), v.dtype)
            n = self.size(v.shape)
            if self.I.truth(self.I.cmp('eq', n, 1)):
                return self.array_getitem(v, tuple(0 for _ in v.shape))
            self.I.throw('TypeError', 'only size-1 arrays can be converted to Python scalars')
        return None

    def bi_int_conv(self, v):
        I = self.I
        s = self.to_scalar(v, 'int')
        if s is not None:
            v = s
        v = I.num(v)
        if isinstance(v, (bool, int)):
            return int(v)
        if isinstance(v, float):
            try:
                return int(v)
            except (ValueError, OverflowError) as e:
                I.throw(type(e).__name__, str(e))
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError as e:
                I.throw('ValueError', str(e))
        if isinstance(v, Term) and v.sort in NUM:
            if v.sort == 'i':
                return v
            if v.sort == 'I':
                return mk('conv', (v,), 'i')
            return mk('int', (v,), 'i')
        f = self.dunder(v, '__int__') or self.dunder(v, '__index__') or self.dunder(v, '__trunc__')
        if f:
            return I.call(f, [], {})
        if isinstance(v, Term):
            return mk('ext', ('int', (v,), 'int'), 'i')
        I.throw('TypeError', 'int() argument must be a string, a bytes-like object or a number')

    def bi_float_conv(self, v):
        I = self.I
        s = self.to_scalar(v, 'float')
        if s is not None:
            v = s
        v = I.num(v)
        if isinstance(v, (bool, int, float)):
            return float(v)
        if isinstance(v, str):
            try:
                return float(v)
            except ValueError as e:
                I.throw('ValueError', str(e))
        if isinstance(v, Term) and v.sort in NUM:
            return v if v.sort == 'f' else mk('conv', (v,), 'f')
        f = self.dunder(v, '__float__') or self.dunder(v, '__index__')
        if f:
            return I.call(f, [], {})
        if isinstance(v, Term):
            return mk('ext', ('float', (v,), 'float'), 'f')
        I.throw('TypeError', 'float() argument must be a string or a number')

    def bi_bool_conv(self, v):
        if isinstance(v, Term) and v.sort in 'bB':
            return v if v.sort == 'b' else mk('conv', (v,), 'b')
        return self.I.truth(v)

    def bi_str_conv(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, (int, float, bool)) or v is None:
            return str(v)
        f = self.dunder(v, '__str__') or self.dunder(v, '__repr__')
        if f:
            return self.I.call(f, [], {})
        if isinstance(v, Inst) and v.cls.kind == 'exc' and len(v.attrs.get('args', ())) == 1:
            return self.bi_str_conv(v.attrs['args'][0])
        if isinstance(v, Term) and v.sort == 's':
            return v
        return mk('fstr', (self.reify(v),), 's')

    def bi_repr(self, v):
        if isinstance(v, (str, int, float, bool)) or v is None:
            return repr(v)
        f = self.dunder(v, '__repr__')
        if f:
            return self.I.call(f, [], {})
        return mk('fstr', ('repr', self.reify(v)), 's')

    def bi_format(self, v, spec=''):
        return mk('fstr', (self.reify(v), spec), 's')

    # ------------------------------------------------------------ functions
    def bi_len(self, v):
        return self.I.length(v)

    def bi_isinstance(self, v, t):
        return self.isinstance_(v, t)

    def bi_issubclass(self, c, t):
        return self.issub(c, t)

    def bi_callable(self, v):
        if isinstance(v, Inst):
            return v.cls.lookup('__call__')[0] is not None
        if isinstance(v, Term):
            return True if v.sort == 'o' and v in self.I.opaque_shapes else (mk('callable', (v,), 'b') if v.sort == 'o' else False)
        return isinstance(v, (Fn, Bound, Native, Cls, Partial, Lru, Ext, StaticM))

    def bi_getattr(self, o, name, *d):
        if not isinstance(name, str):
            if isinstance(name, Term):
                return mk('attr', (self.reify(o), name), 'o')
            self.I.throw('TypeError', 'attribute name must be string')
        return self.I.getattr(o, name, *d)

    def bi_hasattr(self, o, name):
        try:
            self.I.getattr(o, name)
            return True
        except AbsRaise as e:
            if self.exc_is(e.exc, 'AttributeError'):
                return False
            raise

    def bi_setattr(self, o, name, v):
        self.I.setattr(o, name, v)

    def bi_delattr(self, o, name):
        if isinstance(o, Inst) and name in o.attrs:
            self.I.touch(o)
            self.I.event('delattr', o, name)
            del o.attrs[name]
            return
        self.I.throw('AttributeError', name)

    def bi_vars(self, o):
        if isinstance(o, Inst):
            return self.I._getattr(o, '__dict__')
        raise Unsupported('vars')

    def bi_dir(self, *a):
        raise Unsupported('dir')

    def bi_id(self, o):
        return mk('id', (self.I.label(o) if not isinstance(o, Term) else o,), 'i')

    def bi_hash(self, v):
        I = self.I
        I.hkey(v)
        f = self.dunder(v, '__hash__')
        if f and isinstance(f, Bound) and isinstance(f.fn, Fn):
            return I.call(f, [], {})
        return mk('hash', (self.reify(v),), 'i')

    def bi_print(self, *a, **k):
        self.I.event('print')

    def bi_open(self, *a, **k):
        self.I.event('impure', 'open')
        return mk('unk', ('open', self.I.count('unk')), 'o')

    def bi_input(self, *a):
        self.I.event('impure', 'input')
        return mk('unk', ('input', self.I.count('unk')), 's')

    def bi_eval(self, *a):
        raise Unsupported('eval')

    bi_exec = bi_compile = bi_globals = bi_locals = bi___import__ = bi_eval

    def bi_abs(self, v):
        I = self.I
        v = I.num(v)
        if isinstance(v, NdArr):
            return self.elementwise('abs', v)
        if is_const(v) and isinstance(v, (int, float, complex)):
            return abs(v)
        if isinstance(v, Term) and v.sort in NUM:
            r = I.known(mk('ge', (v, 0), 'b'))
            if r is True:
                return v
            return mk('abs', (v,), v.sort)
        f = self.dunder(v, '__abs__')
        if f:
            return I.call(f, [], {})
        I.throw('TypeError', 'bad operand type for abs()')

    def bi_round(self, number, ndigits=None):
        I = self.I
        v, n = number, ndigits
        if is_const(v) and isinstance(v, (int, float)) and (n is None or isinstance(n, int)):
            return round(v, n) if n is not None else round(v)
        if isinstance(v, Term) and v.sort in NUM:
            if n is None:
                return mk('round', (v,), 'i')
            return mk('np', ('round', (v, n), ()), v.sort)
        f = self.dunder(v, '__round__')
        if f:
            return I.call(f, [] if n is None else [n], {})
        if isinstance(v, NdArr):
            return self.np_call('round', [v] + ([n] if n is not None else []), {})
        I.throw('TypeError', 'round()')

    def bi_pow(self, a, b, *m):
        if m:
            raise Unsupported('pow modulo')
        return self.I.binop('pow', a, b)

    def bi_divmod(self, a, b):
        return (self.I.binop('floordiv', a, b), self.I.binop('mod', a, b))

    def bi_sum(self, it, start=0):
        I = self.I
        src = I.iterate(it)
        parts = src if isinstance(src, list) else [src]
        r = start
        for p in parts:
            if isinstance(p, SymSeq):
                a = self.asarray(I.new(Lst([p])))
                if not isinstance(a, NdArr) or a.shape is None or len(a.shape) < 1 or kind(a.dtype) == 'O':
                    raise Unsupported('sum of objects')
                s = self.np_reduce('sum', a, axis=0)
                r = I.binop('add', r, s)
            elif isinstance(p, Each):
                a = self.asarray(I.new(Lst([p])))
                r = I.binop('add', r, self.np_reduce('sum', a, axis=0))
            else:
                r = I.binop('add', r, p)
        return r

    def minmax(self, op, args, kw):
        I = self.I
        key = kw.get('key')
        if len(args) == 1:
            src = I.iterate(args[0])
            parts = src if isinstance(src, list) else [src]
            if any(isinstance(x, (Each, SymSeq)) for x in parts):
                if key is None:
                    a = self.asarray(I.new(Lst(parts)))
                    return self.np_reduce('amin' if op == 'lt' else 'amax', a)
                raise Unsupported('min/max of a symbolic sequence with key')
            args = parts
            if not args:
                if 'default' in kw:
                    return kw['default']
                I.throw('ValueError', 'arg is an empty sequence')
        best, bk = args[0], (I.call(key, [args[0]], {}) if key is not None else args[0])
        for x in args[1:]:
            k = I.call(key, [x], {}) if key is not None else x
            if key is None and I.scalar(x) and I.scalar(best) and (isinstance(x, Term) or isinstance(best, Term)):
                c = I.cmp(op, x, best)
                if isinstance(c, Term):
                    r = mk('min' if op == 'lt' else 'max', (best, x), 'f' if any(isinstance(q, Term) and q.sort in 'fF' or isinstance(q, float) for q in (x, best)) else 'i')
                    if r.sort == 'i':
                        # integer bounds keep their facts when split
                        best = x if I.truth(c) else best
                    else:
                        best = r
                    bk = best
                    continue
                if c:
                    best = bk = x
                continue
            if I.truth(I.cmp(op, k, bk)):
                best, bk = x, k
        return best

    def bi_min(self, *args, **kw):
        return self.minmax('lt', list(args), kw)

    def bi_max(self, *args, **kw):
        return self.minmax('gt', list(args), kw)

    def quant(self, it, want):
        """any / all"""
        I = self.I
        src = I.iterate(it)
        parts = src if isinstance(src, list) else [src]
        rest = []
        for p in parts:
            if isinstance(p, (SymSeq, Each)):
                n = p.length if isinstance(p, SymSeq) else p.loop.length
                if isinstance(p, SymSeq):
                    i = I.fresh_bound()
                    body = p.get(i)
                else:
                    if not p.full:
                        raise Unsupported('any/all over a filtered sequence')
                    i, body = p.loop.index, p.value
                if isinstance(body, bool):
                    if body == want:
                        if I.truth(I.cmp('gt', n, 0)):
                            return want
                    continue
                if isinstance(body, Term) and body.sort in 'bB':
                    arr = self.maparr(n, i, body, (), 'bool')
                    t = mk('any' if want else 'all', (self.cur(arr),), 'b')
                    rest.append(t)
                    continue
                raise Unsupported('any/all of symbolic objects')
            else:
                if isinstance(p, Term) and p.sort in 'bB' and I.known(p) is None:
                    if I.truth(p) == want:
                        return want
                elif I.truth(p) == want:
                    return want
        r = not want
        for t in rest:
            if I.truth(t) == want:
                return want
        return r

    def bi_any(self, it):
        return self.quant(it, True)

    def bi_all(self, it):
        return self.quant(it, False)

    def parts(self, it):
        return self.I.iterate_seq(it)

    def bi_iter(self, it, *s):
        if isinstance(it, Iter):
            return it
        if isinstance(it, Inst) and it.cls.kind != 'namedtuple':
            f = self.dunder(it, '__iter__')
            if f:
                return self.I.call(f, [], {})
        return self.I.new(Iter(self.parts(it)))

    def bi_next(self, it, *d):
        I = self.I
        if isinstance(it, Inst):
            f = self.dunder(it, '__next__')
            return I.call(f, [], {})
        if isinstance(it, Iter) and isinstance(it.src, list):
            if it.pos < len(it.src):
                x = it.src[it.pos]
                if isinstance(x, SymSeq):
                    if I.truth(I.cmp('gt', x.length, 0)):
                        v = x.get(0)
                        rest = SymSeq(I.binop('sub', x.length, 1), lambda i: x.get(I.binop('add', i, 1)))
                        I.touch(it)
                        it.src = it.src[:it.pos] + [rest] + it.src[it.pos + 1:]
                        return v
                    I.touch(it)
                    it.pos += 1
                    return self.bi_next(it, *d)
                if isinstance(x, Each):
                    raise Unsupported('next of a filtered sequence')
                I.touch(it)
                it.pos += 1
                return x
            if d:
                return d[0]
            I.throw('StopIteration', '')
        raise Unsupported('next')

    def seqs(self, its):
        """parts of several iterables, aligned; None when they cannot be aligned"""
        return [self.parts(x) for x in its]

    def bi_zip(self, *its, **kw):
        I = self.I
        ps = self.seqs(its)
        if not ps:
            return I.new(Iter([]))
        if not any(isinstance(x, (Each, SymSeq)) for p in ps for x in p):
            return I.new(Iter([tuple(t) for t in zip(*ps)]))
        out = []
        # aligned prefix of parts of the same kind
        ps = [list(p) for p in ps]
        while all(ps):
            heads = [p[0] for p in ps]
            if not any(isinstance(h, (Each, SymSeq)) for h in heads):
                out.append(tuple(heads))
                for p in ps:
                    p.pop(0)
                continue
            if all(isinstance(h, Each) for h in heads) and len({h.loop for h in heads}) == 1 and all(h.full for h in heads):
                e = Each(heads[0].loop, tuple(h.value for h in heads))
                e.full = True
                out.append(e)
                for p in ps:
                    p.pop(0)
                continue
            seqs = []
            for h, p in zip(heads, ps):
                if isinstance(h, SymSeq):
                    seqs.append(h)
                elif isinstance(h, Each) and h.full and len(p) == 1:
                    seqs.append(SymSeq(h.loop.length, lambda i, h=h: self.subst_value(h.value, h.loop.index, i)))
                elif all(not isinstance(x, (Each, SymSeq)) for x in p):
                    q = list(p)
                    seqs.append(SymSeq(len(q), lambda i, q=q: self.seq_getitem(tuple(q), i)))
                else:
                    raise Unsupported('zip of mixed sequences')
            if not all(len(p) == 1 or not isinstance(p[0], SymSeq) for p in ps):
                raise Unsupported('zip of mixed sequences')
            n = seqs[0].length
            for s in seqs[1:]:
                if not self.same_dim(n, s.length):
                    n = n if I.truth(I.cmp('le', n, s.length)) else s.length
            if isinstance(n, int):
                out.extend(tuple(s.get(k) for s in seqs) for k in range(n))
            else:
                out.append(SymSeq(n, lambda i: tuple(s.get(i) for s in seqs)))
            break
        return I.new(Iter(out))

    def bi_enumerate(self, it, start=0):
        I = self.I
        out = []
        pos = start
        for p in self.parts(it):
            if isinstance(p, SymSeq):
                out.append(SymSeq(p.length, lambda i, p=p, pos=pos: (I.binop('add', pos, i), p.get(i))))
                pos = I.binop('add', pos, p.length)
            elif isinstance(p, Each):
                if p.full:
                    e = Each(p.loop, (I.binop('add', pos, p.loop.index), p.value))
                    e.full = True
                    out.append(e)
                    pos = I.binop('add', pos, p.loop.length)
                else:
                    k = mk('unk', ('enum', I.count('unk')), 'i')
                    I.enumidx[k] = p
                    out.append(Each(p.loop, (k, p.value)))
            else:
                out.append((pos, p))
                pos = I.binop('add', pos, 1)
        return I.new(Iter(out))

    def bi_map(self, f, *its):
        I = self.I
        if len(its) > 1:
            z = self.bi_zip(*its)
            g = lambda v: I.call(f, list(v), {})
            parts = self.parts(z)
        else:
            g = lambda v: I.call(f, [v], {})
            parts = self.parts(its[0])
        out = []
        for p in parts:
            if isinstance(p, SymSeq):
                if I.truth(I.cmp('gt', p.length, 0)):
                    I.generic_item(lambda i, p=p: g(p.get(i)), p.length)
                out.append(SymSeq(p.length, lambda i, p=p: g(p.get(i))))
            elif isinstance(p, Each):
                k = len(I.trace)
                e = Each(p.loop, g(p.value))
                e.full = p.full and k == len(I.trace)
                out.append(e)
            else:
                out.append(g(p))
        return I.new(Iter(out))

    def bi_filter(self, f, it):
        I = self.I
        out = []
        for p in self.parts(it):
            if isinstance(p, (SymSeq, Each)):
                if isinstance(p, SymSeq):
                    if not I.truth(I.cmp('gt', p.length, 0)):
                        continue
                    loop = Loop(I.fresh_index(p.length), p.length, I.site)
                    loop.tracelen = len(I.trace)
                    v = p.get(loop.index)
                else:
                    loop, v = p.loop, p.value
                if I.truth(v if f is None else I.call(f, [v], {})):
                    out.append(Each(loop, v))
            elif I.truth(p if f is None else I.call(f, [p], {})):
                out.append(p)
        return I.new(Iter(out))

    def bi_reversed(self, it):
        I = self.I
        f = self.dunder(it, '__reversed__')
        if f:
            return I.call(f, [], {})
        parts = self.parts(it)
        out = []
        for p in reversed(parts):
            if isinstance(p, SymSeq):
                out.append(SymSeq(p.length, lambda i, p=p: p.get(I.binop('sub', I.binop('sub', p.length, 1), i))))
            elif isinstance(p, Each):
                if not p.full:
                    raise Unsupported('reversed filtered sequence')
                out.append(SymSeq(p.loop.length, lambda i, p=p: self.subst_value(p.value, p.loop.index, I.binop('sub', I.binop('sub', p.loop.length, 1), i))))
            else:
                out.append(p)
        return I.new(Iter(out))

    def bi_sorted(self, it, key=None, reverse=False):
        I = self.I
        items = self.parts(it)
        if any(isinstance(x, (Each, SymSeq)) for x in items):
            raise Unsupported('sorted symbolic sequence')
        out = []
        dec = [(I.call(key, [x], {}) if key is not None else x, x) for x in items]
        for k, x in dec:
            pos = len(out)
            while pos > 0:
                less = I.truth(I.cmp('gt' if reverse else 'lt', k, out[pos - 1][0]))
                if not less:
                    break
                pos -= 1
            out.insert(pos, (k, x))
        return I.new(Lst([x for _, x in out]))

    def bi_chr(self, v):
        return chr(v)

    def bi_ord(self, v):
        return ord(v)

    def bi_super(self, cls, obj):
        return SuperV(cls, obj)

    # ------------------------------------------------------------ attributes
    def object_method(self, name, o, super_=False):
        I = self.I
        if name == '__setattr__':
            if o is None:
                return Native(name, lambda ob, n, v: I.setattr(ob, n, v, force=True))
            return Native(name, lambda n, v: I.setattr(o, n, v, force=True))
        if name == '__init__':
            if super_ or o is not None:
                def init(*a, **k):
                    if isinstance(o, Inst) and o.cls.kind == 'exc':
                        I.touch(o)
                        o.attrs['args'] = tuple(a)
                return Native(name, init)
        if name == '__new__':
            def new(cls, *a, **k):
                if cls.kind == 'namedtuple':
                    return self.new_namedtuple(cls, a, k)
                ob = I.new(Inst(cls))
                if cls.kind == 'exc':
                    ob.attrs['args'] = tuple(a)
                return ob
            return Native(name, new)
        if name == '__init_subclass__':
            return Native(name, lambda *a, **k: None)
        if o is None:
            if name in ('__eq__', '__ne__', '__hash__', '__repr__', '__str__', '__getattribute__', '__setitem__', '__getitem__', '__len__'):
                return Native(name, lambda ob, *a: I.call(I.getattr(ob, name), list(a), {}))
            return None
        if name == '__getattribute__':
            return Native(name, lambda n: I.inst_attr(o, n))
        if name == '__eq__':
            return Native(name, lambda x: True if x is o else NOTIMPL)
        if name == '__ne__':
            return Native(name, lambda x: False if x is o else NOTIMPL)
        if name == '__hash__':
            return Native(name, lambda: mk('id', (I.label(o),), 'i'))
        if name in ('__repr__', '__str__'):
            return Native(name, lambda: mk('fstr', (self.reify(o),), 's'))
        if name == '__format__':
            return Native(name, lambda s: mk('fstr', (self.reify(o), s), 's'))
        if name == '__reduce_ex__' or name == '__reduce__':
            raise Unsupported(name)
        if name == '__doc__':
            return I.new(Lst([])) if False else Native('__doc__', lambda: None)
        if isinstance(o, Inst):
            if o.cls.kind == 'enum':
                if name == 'value':
                    return o.attrs['_value_']
                if name == 'name':
                    return o.attrs['_name_']
            if o.cls.kind == 'namedtuple':
                t = tuple(o.attrs[f] for f in o.cls.fields)
                if name == '_fields':
                    return tuple(o.cls.fields)
                if name == '_asdict':
                    return Native(name, lambda: I.new(Dct({I.hkey(f): (f, o.attrs[f]) for f in o.cls.fields})))
                if name == '_replace':
                    def rep(**k):
                        n = I.new(Inst(o.cls, dict(o.attrs)))
                        for f, v in k.items():
                            if f not in o.cls.fields:
                                I.throw('ValueError', 'Got unexpected field names')
                            n.attrs[f] = v
                        return n
                    return Native(name, rep)
                if name in ('index', 'count'):
                    return self.value_attr(t, name)
                if name == '__iter__':
                    return Native(name, lambda: I.new(Iter(list(t))))
                if name == '__len__':
                    return Native(name, lambda: len(t))
                if name == '__getitem__':
                    return Native(name, lambda i: self.seq_getitem(t, i))
            if o.cls.kind == 'exc':
                if name == 'with_traceback':
                    return Native(name, lambda tb: o)
        return None

    def value_attr(self, o, name):
        I = self.I
        if isinstance(o, NdArr):
            return self.arr_attr(o, name)
        if isinstance(o, ObjArr):
            return self.objarr_attr(o, name)
        if isinstance(o, Flags):
            if name == 'writeable':
                return not o.arr.frozen
            return mk('flag', (name, I.label(o.arr)), 'b')
        if isinstance(o, Ext):
            return self.ext_attr(o, name)
        if isinstance(o, PyConst):
            v = getattr(o.obj, name)
            return v.item() if hasattr(v, 'item') else v
        if isinstance(o, DType):
            import numpy as np
            if o.name in ('object', 'str'):
                d = {'kind': 'O' if o.name == 'object' else 'U', 'name': o.name, 'itemsize': 8}
                if name in d:
                    return d[name]
            d = np.dtype(o.name if o.name != 'str' else 'U')
            if name in ('kind', 'name', 'itemsize', 'char', 'str', 'num', 'hasobject', 'isnative', 'alignment', 'ndim'):
                return getattr(d, name)
            if name == 'type':
                return Ext('numpy.' + d.type.__name__)
        if isinstance(o, str):
            if name in STRM:
                def smeth(*a, **k):
                    if name == 'join':
                        parts = I.concrete_list(a[0])
                        if all(isinstance(x, str) for x in parts):
                            return o.join(parts)
                        return mk('fstr', (o,) + tuple(self.reify(x) for x in parts), 's')
                    if all(isinstance(x, (str, int, float, tuple)) or x is None for x in list(a) + list(k.values())):
                        try:
                            r = getattr(o, name)(*a, **k)
                        except (ValueError, KeyError, IndexError, TypeError) as e:
                            I.throw(type(e).__name__, str(e))
                        return I.new(Lst(r)) if isinstance(r, list) else r
                    return mk('fstr', (o,) + tuple(self.reify(x) for x in a) + tuple((n, self.reify(x)) for n, x in sorted(k.items())), 's')
                return Native(name, smeth)
        if isinstance(o, (Lst, Dct, SetV, tuple, SymSeq)):
            m = self.container_method(o, name)
            if m is not None:
                return m
        if isinstance(o, Fn):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__wrapped__':
                I.throw('AttributeError', name)
            if name == '__dict__':
                return I.new(Dct())
            if name == '__defaults__':
                return tuple(o.defaults) or None
            if name == '__get__':
                return Native('__get__', lambda ob, c=None: Bound(o, ob) if ob is not None else o)
        if isinstance(o, Lru):
            if name == 'cache_clear':
                return Native(name, lambda: (I.touch(o), o.cache.clear())[1])
            if name == '__wrapped__':
                return o.fn
            return I.getattr(o.fn, name)
        if isinstance(o, Bound):
            if name == '__func__':
                return o.fn
            if name == '__self__':
                return o.self
            return I.getattr(o.fn, name) if not isinstance(o.fn, Native) else o.fn.name
        if isinstance(o, Native):
            if name in ('__name__', '__qualname__'):
                return o.name
            if name == '__doc__':
                return None
        if isinstance(o, Partial):
            if name == 'func':
                return o.fn
            if name == 'args':
                return tuple(o.args)
            if name == 'keywords':
                return I.new(Dct({I.hkey(k): (k, v) for k, v in o.kwargs.items()}))
        if isinstance(o, Prop):
            if name in ('fget', 'fset'):
                return getattr(o, name)
            if name == 'setter':
                return Native('setter', lambda f: Prop(o.fget, f))
            if name == 'getter':
                return Native('getter', lambda f: Prop(f, o.fset))
            if name == 'deleter':
                return Native('deleter', lambda f: o)
            if name == '__doc__':
                return None
        if isinstance(o, CachedProp):
            if name in ('func', 'fget'):
                return o.fn
            if name == '__doc__':
                return None
        if isinstance(o, (StaticM, ClassM)) and name == '__func__':
            return o.fn
        if isinstance(o, SliceV):
            d = {'start': o.a, 'stop': o.b, 'step': o.s}
            if name in d:
                return d[name]
            if name == 'indices':
                return Native(name, lambda n: self.slice_indices(o, n))
        if isinstance(o, RangeV):
            d = {'start': o.a, 'stop': o.b, 'step': o.s}
            if name in d:
                return d[name]
        if isinstance(o, Iter):
            if name in ('__next__', 'send'):
                return Native(name, lambda *a: self.bi_next(o))
            if name == '__iter__':
                return Native(name, lambda: o)
            if name == 'close':
                return Native(name, lambda: None)
        if isinstance(o, Term):
            return self.term_attr(o, name)
        if isinstance(o, (bool, int, float)):
            if name in ('real',):
                return o
            if name == 'imag':
                return 0
            if isinstance(o, float) and name == 'is_integer':
                return Native(name, lambda: o.is_integer())
            if isinstance(o, int) and name == '__index__':
                return Native(name, lambda: int(o))
            if isinstance(o, (NpInt, NpFloat)) and name in ('sum', 'min', 'max', 'mean', 'prod', 'any', 'all', 'squeeze', 'ravel', 'copy', 'astype', 'reshape', 'round', 'clip',
                                                            'flatten', 'T', 'transpose', 'shape', 'ndim', 'size', 'dtype', 'item', 'tolist'):
                if name in ('item', 'tolist'):
                    return Native(name, lambda: int(o) if isinstance(o, int) else float(o))
                return self.arr_attr(self.arr(int(o) if isinstance(o, int) else float(o), (), o.dtype), name)
            if isinstance(o, float) and (o != o or o in (float('inf'), float('-inf'))) and name in ('dtype', 'shape', 'ndim', 'size', 'item', 'copy', 'astype'):
                # element of an array of literals: kept as the bare value
                return {'dtype': DType('float64'), 'shape': (), 'ndim': 0, 'size': 1}.get(name, Native(name, lambda *a, **k: o))
        if name == '__class__':
            return self.type_of(o)
        if name in ('__len__', '__iter__', '__getitem__', '__contains__', '__next__', '__call__') and self.supports(o, name):
            return self.dunder_native(o, name)
        if name == '__doc__':
            return None
        I.throw('AttributeError', f"'{self.typename(o)}' object has no attribute '{name}'")

    def supports(self, o, name):
        if name == '__call__':
            return self.bi_callable(o) is True
        return isinstance(o, (Lst, Dct, SetV, tuple, str, NdArr, ObjArr, RangeV, SymSeq))

    def dunder_native(self, o, name):
        I = self.I
        return Native(name, {'__len__': lambda: I.length(o), '__iter__': lambda: self.bi_iter(o), '__getitem__': lambda i: I.getitem(o, i),
                             '__contains__': lambda x: I.contains(o, x), '__next__': lambda: self.bi_next(o),
                             '__call__': lambda *a, **k: I.call(o, list(a), k)}[name])

    def slice_indices(self, sl, n):
        a, b, s = (None if x is None else self.I.num(x) for x in (sl.a, sl.b, sl.s))
        if all(x is None or isinstance(x, int) for x in (a, b, s, n)):
            return slice(a, b, s).indices(n)
        if s in (None, 1):
            lo, hi, _, m = self.slice_of(SliceV(a, b, None), n)
            return (lo, hi, 1)
        raise Unsupported('slice.indices')

    def term_attr(self, o, name):
        I = self.I
        if o.sort in ('F', 'I', 'B'):
            d = {'F': 'float64', 'I': 'int64', 'B': 'bool'}[o.sort]
            if name == 'dtype':
                return DType(d)
            if name == 'shape':
                return ()
            if name == 'ndim':
                return 0
            if name == 'size':
                return 1
            if name in ('item', 'tolist'):
                return Native(name, lambda: mk('conv', (o,), o.sort.lower()))
            if name in ('sum', 'min', 'max', 'mean', 'prod', 'any', 'all', 'squeeze', 'ravel', 'copy', 'astype', 'reshape', 'round', 'clip', 'flatten', 'T', 'transpose'):
                a = self.arr(o, (), d)
                return self.arr_attr(a, name)
        if o.sort in NUM:
            if name == 'real':
                return o
            if name == 'is_integer':
                return Native(name, lambda: mk('eq', (mk('np', ('floor', (o,), ()), 'F'), o), 'b'))
            if name == '__class__':
                return self.type_of(o)
            I.throw('AttributeError', f'number has no attribute {name}')
        if o.sort == 's':
            if name in STRM:
                return Native(name, lambda *a, **k: mk('ext', ('str.' + name, (o,) + tuple(self.reify(x) for x in a), None), 's'))
        if name == '__name__' and o.sort == 'o':
            return mk('attr', (o, name), 's')
        if o.sort == 'A':
            return self.arr_attr(self.arr(o, None, None), name)
        if o in I.opaque_attrs and name in I.opaque_attrs[o]:
            return I.opaque_attrs[o][name]
        return mk('attr', (o, name), 'o')

    def objarr_attr(self, o, name):
        I = self.I
        if name == 'size':
            return I.parts_len(o.seq)
        if name == 'shape':
            return (I.parts_len(o.seq),)
        if name == 'ndim':
            return 1
        if name == 'dtype':
            return DType('object')
        if name == 'flags':
            return Flags(o)
        if name == 'copy':
            return Native(name, lambda *a, **k: I.new(ObjArr(list(o.seq))))
        if name == 'tolist':
            return Native(name, lambda: I.new(Lst(list(o.seq))))
        if name == 'setflags':
            def sf(write=None, **k):
                if write is not None:
                    self.array_setattr(Flags(o), 'writeable', write)
            return Native(name, sf)
        if name in ('ravel', 'flatten', 'reshape'):
            return Native(name, lambda *a, **k: o if name == 'ravel' else I.new(ObjArr(list(o.seq))))
        if name == 'T':
            return o
        if name in ('__len__', '__iter__', '__getitem__'):
            return self.dunder_native(o, name)
        raise Unsupported(f'object array attribute {name}')

    def container_method(self, o, name):
        I = self.I
        if isinstance(o, (Lst, tuple, SymSeq)):
            if name in ('index', 'count'):
                def find(x, *a):
                    items = I.concrete_list(o)
                    if name == 'count':
                        return sum(1 for y in items if I.truth(I.cmp('eq', y, x)))
                    for k, y in enumerate(items):
                        if y is x or I.truth(I.cmp('eq', y, x)):
                            return k
                    I.throw('ValueError', 'x not in list')
                return Native(name, find)
        if isinstance(o, Lst):
            if name == 'append':
                return Native(name, lambda v: I.list_append(o, v))
            if name == 'extend':
                return Native(name, lambda v: I.list_extend(o, v))
            if name == 'copy':
                return Native(name, lambda: I.new(Lst(o.items)))
            if name in ('pop', 'insert', 'remove', 'sort', 'reverse', 'clear'):
                def mut(*a, **k):
                    if not o.concrete or (I.loops and name != 'clear'):
                        raise Unsupported(f'list.{name} of a symbolic list')
                    I.touch(o)
                    I.event('listwrite', o)
                    if name == 'pop':
                        if not o.items:
                            I.throw('IndexError', 'pop from empty list')
                        try:
                            return o.items.pop(*a)
                        except IndexError:
                            I.throw('IndexError', 'pop index out of range')
                    if name == 'insert':
                        if not isinstance(a[0], int):
                            raise Unsupported('insert position')
                        o.items.insert(a[0], a[1])
                    elif name == 'remove':
                        for kk, y in enumerate(o.items):
                            if y is a[0] or I.truth(I.cmp('eq', y, a[0])):
                                del o.items[kk]
                                return
                        I.throw('ValueError', 'x not in list')
                    elif name == 'sort':
                        o.items = self.bi_sorted(Lst(o.items), **k).items
                    elif name == 'reverse':
                        o.items.reverse()
                    else:
                        o.items.clear()
                return Native(name, mut)
        if isinstance(o, Dct):
            if name == 'keys':
                return Native(name, lambda: I.new(Lst([k for k, _ in o.d.values()])))
            if name == 'values':
                return Native(name, lambda: I.new(Lst([v for _, v in o.d.values()])))
            if name == 'items':
                return Native(name, lambda: I.new(Lst([(k, v) for k, v in o.d.values()])))
            if name == 'get':
                def get(k, d=None):
                    h = I.hkey(k)
                    if h in o.d:
                        return o.d[h][1]
                    if isinstance(k, Term):
                        raise Unsupported('dict lookup with a symbolic key')
                    return d
                return Native(name, get)
            if name == 'copy':
                return Native(name, lambda: I.new(Dct(o.d)))
            if name in ('update', 'setdefault', 'pop', 'clear', 'popitem'):
                def dm(*a, **k):
                    I.touch(o)
                    I.event('dictwrite', o, None)
                    if name == 'update':
                        if a:
                            for key, v in (self.builtin_type(self.types['dict'], [a[0]], {})).d.values():
                                o.d[I.hkey(key)] = (key, v)
                        for key, v in k.items():
                            o.d[I.hkey(key)] = (key, v)
                    elif name == 'setdefault':
                        h = I.hkey(a[0])
                        if h not in o.d:
                            o.d[h] = (a[0], a[1] if len(a) > 1 else None)
                        return o.d[h][1]
                    elif name == 'pop':
                        h = I.hkey(a[0])
                        if h in o.d:
                            return o.d.pop(h)[1]
                        if len(a) > 1:
                            return a[1]
                        I.throw('KeyError', '')
                    elif name == 'clear':
                        o.d.clear()
                    else:
                        if not o.d:
                            I.throw('KeyError', '')
                        return o.d.pop(list(o.d)[-1])
                return Native(name, dm)
        if isinstance(o, SetV):
            if name in ('add', 'discard', 'remove', 'update'):
                def sm(*a):
                    I.touch(o)
                    if name == 'add':
                        if I.loops:
                            o.items.append(Each(I.loops[-1], a[0]))
                            o.src = 'sym'
                        elif not I.in_list(a[0], o.items):
                            o.items.append(a[0])
                    elif name == 'update':
                        for x in I.concrete_list(a[0]):
                            if not I.in_list(x, o.items):
                                o.items.append(x)
                    else:
                        for k, y in enumerate(o.items):
                            if y is a[0] or I.truth(I.cmp('eq', y, a[0])):
                                del o.items[k]
                                return
                        if name == 'remove':
                            I.throw('KeyError', '')
                return Native(name, sm)
            ops = {'union': 'or_', 'intersection': 'and_', 'difference': 'sub', 'symmetric_difference': 'xor', 'issubset': 'le', 'issuperset': 'ge'}
            if name in ops:
                def so(*bs):
                    r = o
                    for b in bs:
                        b = b if isinstance(b, SetV) else self.make_set(self.parts(b))
                        if ops[name] in ('le', 'ge'):
                            return self.set_cmp(ops[name], r, b)
                        r = self.set_op(ops[name], r, b)
                    return r if r is not o else I.new(SetV(list(o.items)))
                return Native(name, so)
            if name == 'copy':
                return Native(name, lambda: I.new(SetV(list(o.items), o.src)))
        return None
