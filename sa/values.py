"""Abstract values and heap objects of the interpreter."""
import builtins as _b
from .terms import Term


class HObj:
    """mutable abstract heap object (undo-logged when it belongs to the module heap)"""
    __slots__ = ('epoch', '__weakref__')
    FIELDS = ()

    def snap(self):
        out = []
        for f in self.FIELDS:
            v = getattr(self, f)
            if type(v) is list:
                v = list(v)
            elif type(v) is dict:
                v = dict(v)
            out.append(v)
        return out

    def restore(self, s):
        for f, v in zip(self.FIELDS, s):
            cur = getattr(self, f)
            if type(cur) is dict and type(v) is dict:       # frames may hold the same dictionary
                cur.clear()
                cur.update(v)
            else:
                setattr(self, f, v)


class NdArr(HObj):
    __slots__ = ('term', 'base', 'vop', 'shape', 'dtype', 'frozen', 'origin', 'site', 'maybe')
    FIELDS = ('term', 'base', 'vop', 'shape', 'dtype', 'frozen', 'origin')

    def __init__(self, term, shape, dtype, base=None, vop=None, origin='fresh', frozen=False, site=None, maybe=False):
        self.epoch = None
        self.term, self.shape, self.dtype = term, shape, dtype
        self.base, self.vop, self.origin, self.frozen, self.site = base, vop, origin, frozen, site
        self.maybe = maybe      # may (not must) share memory with its base

    def __repr__(self):
        return f'<array {self.term} shape={self.shape} {self.dtype}>'


class ObjArr(HObj):
    """1-d array of objects"""
    __slots__ = ('seq', 'frozen', 'origin', 'base')
    FIELDS = ('seq', 'frozen', 'origin', 'base')

    def __init__(self, seq, frozen=False, origin='fresh', base=None):
        self.epoch = None
        self.seq, self.frozen, self.origin, self.base = seq, frozen, origin, base


class SymSeq:
    """immutable sequence of symbolic length: get(i) gives the generic element"""
    __slots__ = ('length', 'get', 'tag')

    def __init__(self, length, get, tag=''):
        self.length, self.get, self.tag = length, get, tag


class Each:
    """items a summarised loop appended: one per iteration (of those that follow this path)"""
    __slots__ = ('loop', 'value', 'full', 'one')

    def __init__(self, loop, value, full=False, one=False):
        self.loop, self.value, self.full = loop, value, full     # full: every iteration contributes exactly this value
        self.one = one          # every iteration contributes exactly one item (maybe of another form)


class Loop:
    __slots__ = ('index', 'length', 'site', 'seqlist', 'tracelen')

    def __init__(self, index, length, site, tracelen=0):
        self.index, self.length, self.site, self.seqlist, self.tracelen = index, length, site, None, tracelen


class Lst(HObj):
    __slots__ = ('items', 'origin', 'loop')
    FIELDS = ('items', 'origin')

    def __init__(self, items=(), origin='fresh'):
        self.epoch = None
        self.loop = None
        self.items = list(items)
        self.origin = origin

    @property
    def concrete(self):
        return not any(isinstance(x, (Each, SymSeq)) for x in self.items)


class Dct(HObj):
    __slots__ = ('d', 'origin')
    FIELDS = ('d', 'origin')

    def __init__(self, d=None, origin='fresh'):
        self.epoch = None
        self.d = dict(d or {})      # key -> (keyvalue, value)
        self.origin = origin


class SetV(HObj):
    __slots__ = ('items', 'src')
    FIELDS = ('items', 'src')

    def __init__(self, items=(), src=None):
        self.epoch = None
        self.items = list(items)
        self.src = src


class Inst(HObj):
    __slots__ = ('cls', 'attrs', 'origin')
    FIELDS = ('cls', 'attrs', 'origin')

    def __init__(self, cls, attrs=None, origin='fresh'):
        self.epoch = None
        self.cls, self.attrs, self.origin = cls, dict(attrs or {}), origin

    def __repr__(self):
        return f'<{self.cls.name} object>'


class Mod(HObj):
    __slots__ = ('name', 'ns', 'path', 'done')
    FIELDS = ('ns',)

    def __init__(self, name, path):
        self.epoch = None
        self.name, self.path, self.ns, self.done = name, path, {}, False

    def __repr__(self):
        return f'<module {self.name}>'


class Frame(HObj):
    __slots__ = ('vars', 'parent', 'fn', 'mod', 'locals', 'globals_', 'nonlocals', 'selfcls')
    FIELDS = ('vars',)

    def __init__(self, fn, mod, parent, locals_, globals_, nonlocals):
        self.epoch = None
        self.vars, self.fn, self.mod, self.parent = {}, fn, mod, parent
        self.locals, self.globals_, self.nonlocals = locals_, globals_, nonlocals
        self.selfcls = None


class Cls(HObj):
    __slots__ = ('name', 'bases', 'ns', 'mro', 'mod', 'builtin', 'kind', 'extra', 'qualname', 'fields')
    FIELDS = ('ns',)

    def __init__(self, name, bases, ns, mod=None, builtin=False):
        self.epoch = None
        self.name, self.bases, self.ns, self.mod, self.builtin = name, list(bases), ns, mod, builtin
        self.qualname = name
        self.kind = 'class'
        self.extra = None
        self.fields = None
        self.mro = self._mro()

    def _mro(self):
        seqs = [list(b.mro) for b in self.bases if isinstance(b, Cls)] + [[b for b in self.bases if isinstance(b, Cls)]]
        out = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                c = s[0]
                if not any(c in q[1:] for q in seqs):
                    break
            else:
                c = seqs[0][0]
            out.append(c)
            for s in seqs:
                if s[0] is c:
                    del s[0]

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def __repr__(self):
        return f'<class {self.name}>'


class Fn(HObj):
    __slots__ = ('node', 'mod', 'closure', 'defaults', 'kwdefaults', 'name', 'qualname', 'attrs', 'cls', 'scope', 'isgen')
    FIELDS = ('attrs', 'name')

    def __init__(self, node, mod, closure, defaults, kwdefaults, name, qualname, scope, isgen, cls=None):
        self.epoch = None
        self.node, self.mod, self.closure, self.defaults, self.kwdefaults = node, mod, closure, defaults, kwdefaults
        self.name, self.qualname, self.attrs, self.scope, self.isgen, self.cls = name, qualname, {}, scope, isgen, cls

    def __repr__(self):
        return f'<function {self.qualname}>'


class Native:
    """function implemented by the analyser"""
    __slots__ = ('name', 'f')

    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return f'<native {self.name}>'


class Ext:
    """object of an external library, named by its import path"""
    __slots__ = ('path',)
    _all = {}

    def __new__(cls, path):
        e = cls._all.get(path)
        if e is None:
            e = object.__new__(cls)
            e.path = path
            cls._all[path] = e
        return e

    def __repr__(self):
        return f'<{self.path}>'


class Bound:
    __slots__ = ('fn', 'self')

    def __repr__(self):
        return f'<bound {self.fn}>'

    def __init__(self, fn, self_):
        self.fn, self.self = fn, self_


class Partial:
    __slots__ = ('fn', 'args', 'kwargs')

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class Prop:
    __slots__ = ('fget', 'fset', 'doc')

    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class CachedProp:
    __slots__ = ('fn', 'key', 'lib')

    def __init__(self, fn, key, lib):
        self.fn, self.key, self.lib = fn, key, lib


class StaticM:
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


class ClassM:
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


class Lru(HObj):
    """memoised function (functools.lru_cache)"""
    __slots__ = ('fn', 'cache')
    FIELDS = ('cache',)

    def __init__(self, fn):
        self.epoch = None
        self.fn, self.cache = fn, {}


class SliceV:
    __slots__ = ('a', 'b', 's')

    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s


class DType:
    __slots__ = ('name',)
    _all = {}

    def __new__(cls, name):
        d = cls._all.get(name)
        if d is None:
            d = object.__new__(cls)
            d.name = name
            cls._all[name] = d
        return d

    def __repr__(self):
        return f"dtype('{self.name}')"


class Flags:
    __slots__ = ('arr',)

    def __init__(self, arr):
        self.arr = arr


class SuperV:
    __slots__ = ('cls', 'obj')

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Iter(HObj):
    """iterator with position over a concrete list (or over a symbolic sequence)"""
    __slots__ = ('src', 'pos')
    FIELDS = ('pos',)

    def __init__(self, src):
        self.epoch = None
        self.src, self.pos = src, 0


class RangeV:
    __slots__ = ('a', 'b', 's')

    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s


NOTIMPL = Ext('builtins.NotImplemented')


class AbsRaise(Exception):
    """an exception raised by the analysed program"""

    def __init__(self, exc, site=None):
        super().__init__()
        self.exc = exc
        self.site = site


class Unsupported(Exception):
    """construct outside the analysed subset: the obligation stays undecided"""


class PathLimit(Exception):
    pass


class Infeasible(Exception):
    """contradictory path"""


MISSING = Ext('<missing>')
