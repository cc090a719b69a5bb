"""Python objects, builtins and standard library functions as the abstract interpreter sees them."""
import ast
import builtins
import math

import numpy as np

from .terms import (Term, mk, P, padd, pscale, mkpoly, is_const, isint, INF, NUM)
from .values import *
from .npm import kind, mentions
from .npcalls import NumpyCalls, PyConst, CtxV
from .pybuiltins import PyBuiltins

from .values import MISSING

EXC_TREE = {
    'BaseException': None, 'Exception': 'BaseException', 'ArithmeticError': 'Exception', 'ZeroDivisionError': 'ArithmeticError',
    'FloatingPointError': 'ArithmeticError', 'OverflowError': 'ArithmeticError', 'AssertionError': 'Exception', 'AttributeError': 'Exception',
    'LookupError': 'Exception', 'IndexError': 'LookupError', 'KeyError': 'LookupError', 'NameError': 'Exception', 'UnboundLocalError': 'NameError',
    'TypeError': 'Exception', 'ValueError': 'Exception', 'UnicodeError': 'ValueError', 'RuntimeError': 'Exception', 'NotImplementedError': 'RuntimeError',
    'RecursionError': 'RuntimeError', 'StopIteration': 'Exception', 'ImportError': 'Exception', 'ModuleNotFoundError': 'ImportError', 'OSError': 'Exception',
    'FileNotFoundError': 'OSError', 'MemoryError': 'Exception', 'KeyboardInterrupt': 'BaseException', 'SystemExit': 'BaseException', 'GeneratorExit': 'BaseException',
    'Warning': 'Exception', 'UserWarning': 'Warning', 'RuntimeWarning': 'Warning', 'DeprecationWarning': 'Warning', 'FutureWarning': 'Warning',
    'PendingDeprecationWarning': 'Warning', 'SyntaxWarning': 'Warning', 'LinAlgError': 'Exception', 'UnknownError': 'Exception'}
for _n, _c in vars(builtins).items():
    if isinstance(_c, type) and issubclass(_c, BaseException) and _c.__name__ == _n and _n not in EXC_TREE:
        EXC_TREE[_n] = 'BaseException' if _n.endswith('Group') else _c.__base__.__name__

BUILTIN_TYPES = ['int', 'float', 'bool', 'str', 'list', 'tuple', 'dict', 'set', 'frozenset', 'slice', 'bytes', 'complex', 'range', 'type', 'NoneType', 'function', 'module', 'generator']
ABC_ALL = {'Sequence', 'MutableSequence', 'Iterable', 'Iterator', 'Sized', 'Container', 'Collection', 'Callable', 'Hashable', 'Mapping', 'MutableMapping', 'Set', 'Generator', 'Reversible'}


def mentions_text(t, text, seen):
    if isinstance(t, str):
        return text in t
    if isinstance(t, tuple):
        return any(mentions_text(x, text, seen) for x in t)
    if isinstance(t, Term) and t.id not in seen:
        seen.add(t.id)
        return any(mentions_text(x, text, seen) for x in t.args)
    return False


class Models(PyBuiltins, NumpyCalls):
    def __init__(self, interp):
        self.I = interp
        obj = Cls('object', [], {}, builtin=True)
        self.obj = obj
        self.types = {'object': obj}
        for n in BUILTIN_TYPES:
            self.types[n] = Cls(n, [self.types['int']] if n == 'bool' else [obj], {}, builtin=True)
        self.excs = {}
        for n, b in EXC_TREE.items():
            self.excs[n] = Cls(n, [self.excs[b] if b else obj], {}, builtin=True)
            self.excs[n].kind = 'exc'
        self.excs['IOError'] = self.excs['EnvironmentError'] = self.excs['OSError']
        ax = Cls('AxisError', [self.excs['ValueError'], self.excs['IndexError']], {}, builtin=True)
        ax.kind = 'exc'
        self.excs['AxisError'] = ax
        self.enum_bases()
        self.builtins = {}
        self.builtins.update({k: v for k, v in self.excs.items() if k not in ('LinAlgError', 'AxisError', 'UnknownError')})
        self.builtins.update({k: v for k, v in self.types.items() if k not in ('NoneType', 'function', 'module', 'generator')})
        self.builtins.update({'NotImplemented': NOTIMPL, 'Ellipsis': Ellipsis, '__debug__': True})
        for n in dir(self):
            if n.startswith('bi_'):
                self.builtins[n[3:]] = Native(n[3:], getattr(self, n))
        for n in ('property', 'staticmethod', 'classmethod'):
            self.builtins[n] = Native(n, getattr(self, 'deco_' + n))
        from .libs import Libs
        self.libs = Libs(self)

    # ------------------------------------------------------------ classes
    def enum_bases(self):
        I = self.I
        self.enum = Cls('Enum', [self.obj], {}, builtin=True)
        self.enum.kind = 'enumbase'
        self.intenum = Cls('IntEnum', [self.enum, self.types['int']], {}, builtin=True)
        self.intenum.kind = 'enumbase'
        self.intenum.extra = 'int'
        self.seq = Cls('Sequence', [self.obj], {}, builtin=True)

        def seq_iter(s):
            n = I.length(s)
            g, _ = s.cls.lookup('__getitem__')
            if isinstance(n, int):
                return I.new(Iter([I.call(Bound(g, s), [i], {}) for i in range(n)]))
            return I.new(Iter([SymSeq(n, lambda i: I.call(Bound(g, s), [i], {}))]))

        def seq_contains(s, x):
            return I.contains(I.new(Lst(I.iterate_seq(seq_iter(s)))), x)

        def seq_reversed(s):
            return self.bi_reversed(I.new(Lst(I.iterate_seq(seq_iter(s)))))

        def seq_index(s, value, start=0, stop=None):
            items = I.concrete_list(seq_iter(s))
            for k, y in enumerate(items):
                if I.truth(I.cmp('eq', y, value)):
                    return k
            I.throw('ValueError', '')

        def seq_count(s, value):
            return sum(1 for y in I.concrete_list(seq_iter(s)) if I.truth(I.cmp('eq', y, value)))
        for n, f in (('__iter__', seq_iter), ('__contains__', seq_contains), ('__reversed__', seq_reversed), ('index', seq_index), ('count', seq_count)):
            self.seq.ns[n] = Native(n, f)

    def make_class(self, name, bases, ns, mod, annotations, kws):
        I = self.I
        kws.pop('metaclass', None)
        if any(b is Ext('typing.NamedTuple') for b in bases):
            fields = list(annotations)
            c = I.new(Cls(name, [self.types['tuple']], ns, mod))
            c.kind, c.fields = 'namedtuple', fields
            c.extra = [ns[f] for f in fields if f in ns]
            for f in fields:
                ns.pop(f, None)
            self.setcls(c, ns)
            return c
        real = [b for b in bases if isinstance(b, Cls)]
        if not real:
            real = [self.obj]
        c = I.new(Cls(name, real, ns, mod))
        c.bases += [b for b in bases if isinstance(b, Ext)]
        q = ns.get('__qualname__')
        if isinstance(q, str):
            c.qualname = q
        for b in c.mro[1:]:
            if b.kind in ('exc', 'namedtuple', 'enum', 'enumbase'):
                c.kind = 'enum' if b.kind == 'enumbase' else b.kind
                c.fields = b.fields
                c.extra = b.extra
                break
        self.setcls(c, ns)
        if c.kind == 'enum' and any(b.kind == 'enumbase' for b in c.mro):
            self.make_enum(c, ns)
        c.ns = ns
        for b in c.mro[1:]:
            h = b.ns.get('__init_subclass__')
            if h is not None:
                I.call(Bound(h.fn if isinstance(h, ClassM) else h, c), [], kws)
                break
        for k, v in list(ns.items()):
            if isinstance(v, Inst) and isinstance(v.cls.lookup('__set_name__')[0], Fn):
                I.call(Bound(v.cls.lookup('__set_name__')[0], v), [c, k], {})
        return c

    def setcls(self, c, ns):
        def mark(v):
            if isinstance(v, Fn):
                if v.cls is None:
                    v.cls = c
            elif isinstance(v, (Prop,)):
                mark(v.fget)
                mark(v.fset)
            elif isinstance(v, (CachedProp, StaticM, ClassM, Lru)):
                mark(v.fn)
        for k, v in ns.items():
            mark(v)
            if isinstance(v, CachedProp) and v.key is None:
                v.key = k

    def make_enum(self, c, ns):
        I = self.I
        members = []
        last = 0
        for k, v in list(ns.items()):
            if k.startswith('_') or isinstance(v, (Fn, Prop, StaticM, ClassM, CachedProp, Lru, Native)):
                continue
            if isinstance(v, CtxV) and v.kind == 'auto':
                v = last + 1
            if isinstance(v, (int, float)):
                last = v
            dup = next((m for m in members if isinstance(v, (int, str, float)) and m.attrs['_value_'] == v), None)
            if dup is not None:
                ns[k] = dup
                continue
            m = I.new(Inst(c, {'_name_': k, '_value_': v}))
            init, oc = c.lookup('__init__')
            if isinstance(init, Fn):
                I.call(Bound(init, m), list(v) if isinstance(v, tuple) else [v], {})
            members.append(m)
            ns[k] = m
        c.ns = ns
        if c.extra != 'int':
            c.extra = 'enum'
        c.ns['__members_list__'] = members

    def enum_members(self, c):
        for k in c.mro:
            if '__members_list__' in k.ns:
                return list(k.ns['__members_list__'])
        return []

    def class_attr(self, c, name):
        I = self.I
        if name == '__members__' and c.kind == 'enum':
            d = I.new(Dct())
            for m in self.enum_members(c):
                k = m.attrs['_name_']
                d.d[I.hkey(k)] = (k, m)
            return d
        if name == '_fields' and c.kind == 'namedtuple':
            return tuple(c.fields)
        if name == '_make' and c.kind == 'namedtuple':
            return Native('_make', lambda it: self.instantiate(c, I.concrete_list(it), {}))
        if name == '__dict__':
            return I.new(Dct({I.hkey(k): (k, v) for k, v in c.ns.items()}))
        if name == '__annotations__':
            return I.new(Dct())
        if name == '__subclasses__':
            raise Unsupported('__subclasses__')
        if c.builtin:
            if name == '__new__':
                return Native('__new__', lambda cls, *a, **k: I.new(Inst(cls)))
            if c.name in ('list', 'dict', 'str', 'tuple', 'set', 'int', 'float'):
                if name == 'fromkeys':
                    def fk(keys, v=None):
                        d = I.new(Dct())
                        for k in I.concrete_list(keys):
                            d.d[I.hkey(k)] = (k, v)
                        return d
                    return Native(name, fk)
                return Native(name, lambda s, *a, **k: I.call(self.value_attr(s, name), list(a), k))
        r = self.object_method(name, None, super_=True)
        return r

    def instantiate(self, c, args, kw):
        I = self.I
        if c.builtin and c.kind != 'exc':
            return self.builtin_type(c, args, kw)
        if c.kind == 'enum':
            if len(args) == 1:
                v = args[0]
                if isinstance(v, Inst) and v.cls is c:
                    return v
                for m in self.enum_members(c):
                    r = I.cmp('eq', m.attrs['_value_'], v) if not isinstance(v, Inst) else I.is_(m.attrs['_value_'], v)
                    if I.truth(r):
                        return m
                I.throw('ValueError', f'invalid {c.name}')
            raise Unsupported('functional enum')
        ab = [k for k in self.abstract_names(c)]
        if ab:
            I.throw('TypeError', f"Can't instantiate abstract class {c.name} with abstract methods {', '.join(ab)}")
        new, oc = c.lookup('__new__')
        if c.kind == 'namedtuple' and not isinstance(new, (Fn, StaticM)):
            return self.new_namedtuple(c, args, kw)
        if isinstance(new, StaticM):
            new = new.fn
        if isinstance(new, Fn):
            o = I.call(new, [c] + list(args), kw)
            if not (isinstance(o, Inst) and c in o.cls.mro):
                return o
        else:
            o = I.new(Inst(c))
        if c.kind == 'exc':
            o.attrs['args'] = tuple(args)
        init, oc = c.lookup('__init__')
        if init is not None:
            I.call(I.bind(init, o, c), list(args), kw)
        elif (args or kw) and c.kind not in ('exc', 'namedtuple') and not isinstance(new, Fn):
            I.throw('TypeError', f'{c.name}() takes no arguments')
        return o

    def new_namedtuple(self, c, args, kw):
        I = self.I
        o = I.new(Inst(c))
        nd = len(c.extra or ())
        kw = dict(kw)
        if len(args) > len(c.fields):
            I.throw('TypeError', 'too many arguments')
        for k, f in enumerate(c.fields):
            if k < len(args):
                if f in kw:
                    I.throw('TypeError', 'multiple values')
                o.attrs[f] = args[k]
            elif f in kw:
                o.attrs[f] = kw.pop(f)
            elif k >= len(c.fields) - nd:
                o.attrs[f] = c.extra[k - (len(c.fields) - nd)]
            else:
                I.throw('TypeError', f'missing argument {f}')
        if kw:
            I.throw('TypeError', 'unexpected keyword')
        return o

    def abstract_names(self, c):
        seen = set()
        for k in c.mro:
            for n, v in k.ns.items():
                if n in seen:
                    continue
                seen.add(n)
                f = v
                while isinstance(f, (Prop, StaticM, ClassM)):
                    f = f.fget if isinstance(f, Prop) else f.fn
                if isinstance(f, Fn) and f.attrs.get('__isabstractmethod__'):
                    yield n

    # ------------------------------------------------------------ exceptions
    def exception(self, name, msg=''):
        c = self.excs.get(name) or self.excs['UnknownError']
        return self.I.new(Inst(c, {'args': (msg,)}))

    def exc_is(self, exc, name):
        return self.excs[name] in exc.cls.mro

    def opaque_exception(self, v):
        if isinstance(v, Term):
            e = self.I.new(Inst(self.excs['UnknownError'], {'args': (), 'term': v}))
            return e
        self.I.throw('TypeError', 'exceptions must derive from BaseException')

    def suppresses(self, cm, exc):
        if isinstance(cm, CtxV) and cm.kind == 'suppress':
            return any(self.I.truth(self.isinstance_(exc, t)) for t in cm.data)
        return False

    def ctx_enter(self, cm):
        if isinstance(cm, CtxV):
            if cm.kind == 'catch_warnings':
                cm.data['depth'] = len(self.I.events)
                self.I.warnctx.append(cm)
                return self.I.new(Lst([])) if cm.data.get('record') else None
            if cm.kind == 'nullcontext':
                return cm.data
        return cm

    def ctx_exit(self, cm):
        if isinstance(cm, CtxV) and cm.kind == 'catch_warnings' and cm in self.I.warnctx:
            self.I.warnctx.remove(cm)

    # ------------------------------------------------------------ type tests
    def typename(self, v):
        t = self.type_of(v)
        return t.name if isinstance(t, Cls) else (t.path if isinstance(t, Ext) else 'object')

    def type_of(self, v):
        T = self.types
        if isinstance(v, Inst):
            return v.cls
        if v is None:
            return T['NoneType']
        for ty, n in ((bool, 'bool'), (int, 'int'), (float, 'float'), (str, 'str'), (tuple, 'tuple'), (complex, 'complex'), (bytes, 'bytes')):
            if isinstance(v, ty):
                return T[n]
        if isinstance(v, Term):
            return {'i': T['int'], 'f': T['float'], 'b': T['bool'], 's': T['str'], 'I': Ext('numpy.int64'), 'F': Ext('numpy.float64'), 'B': Ext('numpy.bool_')}.get(v.sort, Ext('opaque'))
        if isinstance(v, (NdArr, ObjArr)):
            return Ext('numpy.ndarray')
        if isinstance(v, Lst):
            return T['list']
        if isinstance(v, Dct):
            return T['dict']
        if isinstance(v, SetV):
            return T['set']
        if isinstance(v, SliceV):
            return T['slice']
        if isinstance(v, RangeV):
            return T['range']
        if isinstance(v, Cls):
            return T['type']
        if isinstance(v, Mod):
            return T['module']
        if isinstance(v, Iter):
            return T['generator']
        if isinstance(v, DType):
            return Ext('numpy.dtype')
        return T['function']

    ABC = {
        'Sequence': (tuple, str, Lst, RangeV, bytes), 'Iterable': (tuple, str, Lst, RangeV, Dct, SetV, NdArr, ObjArr, Iter, SymSeq),
        'Sized': (tuple, str, Lst, RangeV, Dct, SetV, NdArr, ObjArr), 'Collection': (tuple, str, Lst, RangeV, Dct, SetV), 'Container': (tuple, str, Lst, RangeV, Dct, SetV, NdArr),
        'Mapping': (Dct,), 'MutableMapping': (Dct,), 'MutableSequence': (Lst,), 'Set': (SetV,), 'Iterator': (Iter,), 'Generator': (Iter,),
        'Reversible': (tuple, str, Lst, Dct)}
    NUMT = {'Number': 'bifcBIF', 'Complex': 'bifcIF', 'Real': 'bifIF', 'Rational': 'biI', 'Integral': 'biI'}

    def numsort(self, v):
        if isinstance(v, bool):
            return 'b'
        if isinstance(v, int):
            return 'i'
        if isinstance(v, float):
            return 'f'
        if isinstance(v, complex):
            return 'c'
        if isinstance(v, Term) and v.sort in NUM:
            return v.sort
        if isinstance(v, Inst) and v.cls.kind == 'enum' and v.cls.extra == 'int':
            return 'i'
        return None

    def isinstance_(self, v, t):
        I = self.I
        if isinstance(t, tuple):
            res = False
            for x in t:
                r = self.isinstance_(v, x)
                if r is True:
                    return True
                if r is not False:
                    res = r if res is False else mk('or', (res, r), 'b')
            return res
        if isinstance(t, Native) and t.name in self.types:
            t = self.types[t.name]
        if isinstance(v, Term) and v.sort == 'o' and v.op == 'sym' and 'callable' in v.args[1]:
            return t is self.obj or getattr(t, 'name', '') in ('Callable', 'function', 'FunctionType')
        if isinstance(v, Term) and v.op == 'ext' and isinstance(t, Ext) and t.path.endswith('.Axes3D') and any(mentions_text(v, x, set()) for x in ('add_subplot', 'subplot', 'gca')):
            return mentions_text(v, '3d', set())
        if isinstance(v, Term) and v.sort == 'o' and not v.op == 'sym_none':
            return mk('isinst', (v, self.reify(t)), 'b')
        if isinstance(t, Cls):
            if t is self.obj:
                return True
            if isinstance(v, Inst):
                return t in v.cls.mro or (t is self.types['tuple'] and v.cls.kind == 'namedtuple')
            if not t.builtin:
                return False
            n = t.name
            s = self.numsort(v)
            if n == 'int':
                return s in ('i', 'b')
            if n == 'bool':
                return s == 'b'
            if n == 'float':
                return s in ('f', 'F')
            if n == 'Sequence':
                return isinstance(v, self.ABC['Sequence'])
            if n == 'type':
                return isinstance(v, Cls) or (isinstance(v, Ext) and v.path.split('.')[-1][:1].isupper())
            if n == 'NoneType':
                return v is None
            ty = self.type_of(v)
            return ty is t
        if isinstance(t, Ext):
            p = t.path
            last = p.split('.')[-1]
            if p.startswith('numbers.'):
                s = self.numsort(v)
                return s is not None and s in self.NUMT[last]
            if p.startswith(('collections.abc.', 'typing.', 'typing_extensions.')):
                if last == 'Any':
                    return True
                if last == 'Callable':
                    return self.bi_callable(v)
                if last == 'Hashable':
                    return not isinstance(v, (Lst, Dct, SetV, NdArr))
                if isinstance(v, Inst):
                    need = {'Sized': ['__len__'], 'Iterable': ['__iter__'], 'Container': ['__contains__'], 'Iterator': ['__next__'],
                            'Collection': ['__len__', '__iter__', '__contains__']}.get(last)
                    if need:
                        return all(v.cls.lookup(m)[1] is not None for m in need) or v.cls.kind == 'namedtuple'
                    if last == 'Sequence':
                        return self.seq in v.cls.mro or v.cls.kind == 'namedtuple'
                    return False
                if last in self.ABC:
                    return isinstance(v, self.ABC[last])
                return False
            if p.startswith('numpy.'):
                s = self.numsort(v) if isinstance(v, Term) else None
                if last == 'ndarray':
                    return isinstance(v, (NdArr, ObjArr))
                if last == 'dtype':
                    return isinstance(v, DType)
                table = {'integer': 'I', 'signedinteger': 'I', 'int64': 'I', 'int_': 'I', 'floating': 'F', 'float64': 'F', 'inexact': 'F', 'number': 'IF', 'generic': 'IFB', 'bool_': 'B'}
                if last in ('int',):
                    return self.isinstance_(v, self.types['int'])
                if last in ('float', 'bool', 'str', 'object'):
                    return self.isinstance_(v, self.types[last])
                if last in table:
                    return s is not None and s in table[last]
                return False
            if isinstance(v, Ext) or isinstance(v, Term):
                return mk('isinst', (self.reify(v), self.reify(t)), 'b')
            if isinstance(v, Inst):
                names = {b.path.split('.')[-1] for c in v.cls.mro for b in c.bases if isinstance(b, Ext)}
                return last in names or (last in ('Axes', '_AxesBase', 'Artist') and bool(names & {'Axes3D', 'Axes'}))
            return False
        if isinstance(t, Term):
            return mk('isinst', (self.reify(v), t), 'b')
        I.throw('TypeError', 'isinstance() arg 2 must be a type')

    def issub(self, c, t):
        if isinstance(t, tuple):
            return any(self.issub(c, x) for x in t)
        if isinstance(c, Cls) and isinstance(t, Cls):
            return t in c.mro
        if isinstance(c, Ext) and isinstance(t, Ext):
            return c is t
        if not isinstance(c, (Cls, Ext)):
            self.I.throw('TypeError', 'issubclass() arg 1 must be a class')
        return False

    # ------------------------------------------------------------ value numbers of objects
    def reify(self, v):
        """term naming the value of any object (by content; identity where content means nothing)"""
        I = self.I
        if v is None or isinstance(v, (bool, int, float, str, Term)):
            return v
        if isinstance(v, (bytes, complex)) or v is Ellipsis:
            return repr(v)
        if isinstance(v, tuple):
            return tuple(self.reify(x) for x in v)
        if isinstance(v, NdArr):
            return self.cur(v)
        if isinstance(v, ObjArr):
            return ('objarr', self.reify_seq(list(v.seq)))
        if isinstance(v, Lst):
            return self.reify_seq(list(v.items))
        if isinstance(v, SymSeq):
            return self.reify_seq([v])
        if isinstance(v, Dct):
            return mk('dict', tuple(sorted(((self.reify(k), self.reify(x)) for k, x in v.d.values()), key=repr)), 'o')
        if isinstance(v, SetV):
            return mk('setv', tuple(sorted((self.reify(x) for x in v.items), key=repr)), 'o')
        if isinstance(v, Inst):
            if v.cls.kind == 'enum':
                if v.cls.extra == 'int':
                    return v.attrs['_value_']
                return mk('enum', (v.cls.name, v.attrs['_name_']), 'o')
            if v.cls.kind == 'namedtuple':
                return tuple(self.reify(v.attrs[f]) for f in v.cls.fields)
            if v.cls.lookup('__array__')[1] is not None:
                try:
                    return mk('inst', (v.cls.name, self.reify(self.asarray(v))), 'o')
                except (Unsupported, AbsRaise):
                    pass
            return mk('inst', (v.cls.name, I.label(v)), 'o')
        if isinstance(v, SliceV):
            return ('slice', self.reify(v.a), self.reify(v.b), self.reify(v.s))
        if isinstance(v, RangeV):
            return ('range', self.reify(v.a), self.reify(v.b), self.reify(v.s))
        if isinstance(v, DType):
            return ('dtype', v.name)
        if isinstance(v, Ext):
            n = self.to_dtype(v, soft=True)
            if n is not None:
                return ('dtype', n)
            return mk('fn', (v.path,), 'o')
        if isinstance(v, Cls):
            if v.builtin and v.name in ('int', 'float', 'bool', 'str', 'object'):
                return ('dtype', self.to_dtype(v))
            return mk('fn', ('class ' + v.name,), 'o')
        if isinstance(v, Fn):
            return mk('fn', (v.mod.name + '.' + v.qualname, I.label(v.closure) if v.closure is not None and v.closure.locals is not None else 0), 'o')
        if isinstance(v, Native):
            return mk('fn', ('builtins.' + v.name,), 'o')
        if isinstance(v, Bound):
            return mk('fn', ('bound', self.reify(v.fn), self.reify(v.self)), 'o')
        if isinstance(v, Partial):
            return mk('fn', ('partial', self.reify(v.fn), tuple(self.reify(a) for a in v.args)), 'o')
        if isinstance(v, Each):
            return mk('each', (v.loop.index, v.loop.length, self.reify(v.value)), 'o')
        if isinstance(v, Iter):
            return self.reify_seq(list(v.src[v.pos:]) if isinstance(v.src, list) else [v.src])
        if isinstance(v, PyConst):
            return repr(v.obj)
        return mk('fn', (type(v).__name__, I.label(v)), 'o')

    def reify_seq(self, parts):
        I = self.I
        if isinstance(parts, SymSeq):
            parts = [parts]
        out = []
        for p in parts:
            if isinstance(p, SymSeq):
                i = mk('sym', (f'k{I.count("reify")}', ('bound',)), 'i')
                I.facts.bounds[i] = (0, INF)
                out.append(mk('map', (p.length, i, self.reify(p.get(i))), 'o'))
            elif isinstance(p, Each):
                out.append(self.reify(p))
            else:
                out.append(self.reify(p))
        if len(out) == 1 and isinstance(out[0], Term) and out[0].op == 'map':
            return out[0]
        return tuple(out)

    # ------------------------------------------------------------ dtypes
    DT = {'int': 'int64', 'float': 'float64', 'bool': 'bool', 'object': 'object', 'str': 'str', 'int_': 'int64', 'float_': 'float64', 'bool_': 'bool',
          'double': 'float64', 'single': 'float32', 'half': 'float16', 'intp': 'int64', 'object_': 'object', 'str_': 'str', 'O': 'object', 'f8': 'float64',
          'f4': 'float32', 'i8': 'int64', 'i4': 'int32', 'f': 'float32', 'd': 'float64', 'i': 'int32', '?': 'bool', 'complex': 'complex128',
          'longdouble': 'float128', 'uint': 'uint64'}
    DTN = {'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float16', 'float32', 'float64', 'complex64', 'complex128', 'float128'}

    def to_dtype(self, d, soft=False):
        n = None
        if isinstance(d, DType):
            return d.name
        if isinstance(d, Cls) and d.builtin and d.name in self.DT:
            n = d.name
        elif isinstance(d, Ext) and d.path.startswith('numpy.'):
            n = d.path[6:]
        elif isinstance(d, str):
            n = d.lstrip('<=|')
        elif d is None and not soft:
            return 'float64'
        elif isinstance(d, Term) and d.op == 'sym' and not soft:
            raise Unsupported('symbolic dtype')
        if n is not None:
            if n in self.DT:
                return self.DT[n]
            if n in self.DTN:
                return n
        if soft:
            return None
        self.I.throw('TypeError', 'data type not understood')

    # ------------------------------------------------------------ sequences
    def seq_getitem(self, o, i):
        I = self.I
        i = I.num(i)
        if isinstance(i, Inst):
            f, _ = i.cls.lookup('__index__')
            if f is None:
                I.throw('TypeError', 'indices must be integers')
            i = I.call(Bound(f, i), [], {})
        items = o.items if isinstance(o, Lst) else o
        if isinstance(i, SliceV):
            if isinstance(o, Lst) and not o.concrete:
                if i.a is None and i.b is None and i.s in (None, 1):
                    return I.new(Lst(items))
                n = I.length(o)
                if len(items) == 1 and isinstance(items[0], SymSeq):
                    a, b, s, m = self.resolve_slice(i, n)[:4] if False else self.slice_of(i, n)
                    p = items[0]
                    return I.new(Lst([SymSeq(m, lambda k: p.get(I.binop('add', a, I.binop('mul', k, s))))]))
                raise Unsupported('slice of a symbolic list')
            a, b, s = (None if x is None else I.num(x) for x in (i.a, i.b, i.s))
            if all(x is None or isinstance(x, int) for x in (a, b, s)):
                if s == 0:
                    I.throw('ValueError', 'slice step cannot be zero')
                r = items[a:b:s]
                return I.new(Lst(r)) if isinstance(o, Lst) else r
            raise Unsupported('symbolic slice of a list')
        if isinstance(i, bool):
            i = int(i)
        if isinstance(i, int):
            if isinstance(o, Lst) and not o.concrete:
                if len(items) == 1 and isinstance(items[0], SymSeq):
                    p = items[0]
                    n = p.length
                    if i >= 0:
                        if not I.truth(I.cmp('lt', i, n)):
                            I.throw('IndexError', 'list index out of range')
                        return p.get(i)
                    if not I.truth(I.cmp('le', -i, n)):
                        I.throw('IndexError', 'list index out of range')
                    return p.get(I.binop('add', n, i))
                if i >= 0 and not any(isinstance(x, (Each, SymSeq)) for x in items[:i + 1]):
                    return items[i]
                if i < 0 and len(items) >= -i and not any(isinstance(x, (Each, SymSeq)) for x in items[i:]):
                    return items[i]
                if isinstance(items[-1 if i < 0 else 0], Each) and i in (0, -1):
                    raise Unsupported('element of a filtered list')
                raise Unsupported('index into a symbolic list')
            try:
                return items[i]
            except IndexError:
                I.throw('IndexError', 'index out of range')
        if isinstance(i, Term) and i.sort in ('i', 'I'):
            if isinstance(o, Lst) and not o.concrete:
                if len(items) == 1 and isinstance(items[0], SymSeq):
                    p = items[0]
                    if not I.truth(I.cmp('ge', i, 0)):
                        i2 = I.binop('add', i, p.length)
                        if not I.truth(I.cmp('ge', i2, 0)):
                            I.throw('IndexError', 'list index out of range')
                        return p.get(i2)
                    if not I.truth(I.cmp('lt', i, p.length)):
                        I.throw('IndexError', 'list index out of range')
                    return p.get(i)
                for l in reversed(I.loops):
                    if l.index is i:
                        for part in items:
                            if isinstance(part, Each) and part.loop is l:
                                return part.value
                if i in I.enumidx and any(p is I.enumidx[i] for p in items):
                    return I.enumidx[i].value
                raise Unsupported('index into a symbolic list')
            # small concrete list: split on the index
            n = len(items)
            for k in range(n):
                if I.truth(I.cmp('eq', i, k)):
                    return items[k]
            for k in range(1, n + 1):
                if I.truth(I.cmp('eq', i, -k)):
                    return items[-k]
            I.throw('IndexError', 'index out of range')
        if isinstance(i, Term) and i.sort == 'o':
            return mk('item', (self.reify(o), i), 'o')
        I.throw('TypeError', 'indices must be integers or slices')

    def slice_of(self, sl, n):
        a, b, s = sl.a, sl.b, 1 if sl.s is None else sl.s
        if s != 1:
            if s == -1 and a is None and b is None:
                return self.dadd(n, -1), None, -1, n
            raise Unsupported('stepped slice of a symbolic list')
        I = self.I

        def clamp(x, d):
            if x is None:
                return d
            if not I.truth(I.cmp('ge', x, 0)):
                x = I.binop('add', x, n)
                if not I.truth(I.cmp('ge', x, 0)):
                    return 0
            if I.truth(I.cmp('gt', x, n)):
                return n
            return x
        lo, hi = clamp(a, 0), clamp(b, n)
        m = I.binop('sub', hi, lo)
        if not I.truth(I.cmp('ge', m, 0)):
            m = 0
        return lo, hi, 1, m

    def objarr_getitem(self, o, i):
        I = self.I
        i = I.num(i)
        if isinstance(i, tuple) and len(i) == 1:
            i = i[0]
        if i is Ellipsis:
            return o
        if isinstance(i, NdArr) and kind(i.dtype) == 'b':
            seq = list(o.seq)
            if not any(isinstance(x, (Each, SymSeq)) for x in seq):
                keep = [x for k, x in enumerate(seq) if I.truth(self.array_getitem(i, k))]
                return I.new(ObjArr(keep))
            if len(seq) == 1 and isinstance(seq[0], SymSeq):
                p = seq[0]
                idx = self.np_flatnonzero(i)
                return I.new(ObjArr([SymSeq(idx.shape[0], lambda k: p.get(self.array_getitem(idx, k)))]))
            raise Unsupported('mask of an object array')
        if isinstance(i, (Lst, NdArr)):
            idx = self.asarray(i)
            if kind(idx.dtype) not in ('i', 'u') or idx.shape is None or len(idx.shape) != 1:
                raise Unsupported('index of an object array')
            n = idx.shape[0]
            if isinstance(n, int):
                return I.new(ObjArr([self.objarr_getitem(o, self.array_getitem(idx, k)) for k in range(n)]))
            lst = Lst(list(o.seq))
            return I.new(ObjArr([SymSeq(n, lambda k: self.seq_getitem(lst, self.array_getitem(idx, k)))]))
        r = self.seq_getitem(I.new(Lst(list(o.seq))), i)
        if isinstance(r, Lst):
            v = I.new(ObjArr(r.items, frozen=o.frozen, base=o))
            return v
        return r

    def range_len(self, r):
        I = self.I
        if all(isinstance(x, int) for x in (r.a, r.b, r.s)):
            return len(range(r.a, r.b, r.s))
        s = r.s
        if s == 1:
            n = I.binop('sub', r.b, r.a)
        elif s == -1:
            n = I.binop('sub', r.a, r.b)
        elif isinstance(s, int) and s != 0:
            if s > 0:
                n = I.binop('floordiv', I.binop('add', I.binop('sub', r.b, r.a), s - 1), s)
            else:
                n = I.binop('floordiv', I.binop('add', I.binop('sub', r.a, r.b), -s - 1), -s)
        else:
            raise Unsupported('range step')
        if I.truth(I.cmp('ge', n, 0)):
            return n
        return 0

    def range_items(self, r):
        n = self.range_len(r)
        I = self.I
        if isinstance(n, int):
            if n > 400:
                raise Unsupported('long range')
            return [I.binop('add', r.a, k * r.s) for k in range(n)]
        return SymSeq(n, lambda k: I.binop('add', r.a, I.binop('mul', k, r.s)))

    def range_get(self, r, i):
        I = self.I
        if isinstance(i, SliceV):
            if i.s in (None, 1) and all(isinstance(x, int) for x in (r.a, r.b, r.s)):
                q = range(r.a, r.b, r.s)[i.a:i.b]
                return RangeV(q.start, q.stop, q.step)
            raise Unsupported('slice of a range')
        n = self.range_len(r)
        if not I.truth(I.cmp('ge', i, 0)):
            i = I.binop('add', i, n)
        if not (I.truth(I.cmp('ge', i, 0)) and I.truth(I.cmp('lt', i, n))):
            I.throw('IndexError', 'range object index out of range')
        return I.binop('add', r.a, I.binop('mul', i, r.s))

    # ------------------------------------------------------------ sets
    def make_set(self, items):
        I = self.I
        if any(isinstance(x, (Each, SymSeq)) for x in items):
            return I.new(SetV(list(items), src='sym'))
        out = []
        for x in items:
            I.hkey(x)
            if not I.in_list(x, out):
                out.append(x)
        return I.new(SetV(out))

    def set_op(self, op, a, b):
        I = self.I
        if a.src or b.src:
            raise Unsupported('operation on symbolic sets')
        ina, inb = (lambda x: I.in_list(x, a.items)), (lambda x: I.in_list(x, b.items))
        if op == 'and_':
            r = [x for x in a.items if inb(x)]
        elif op == 'or_':
            r = a.items + [x for x in b.items if not ina(x)]
        elif op == 'sub':
            r = [x for x in a.items if not inb(x)]
        elif op == 'xor':
            r = [x for x in a.items if not inb(x)] + [x for x in b.items if not ina(x)]
        else:
            I.throw('TypeError', 'unsupported operand type(s)')
        return I.new(SetV(r))

    def set_cmp(self, op, a, b):
        I = self.I
        sub = all(I.in_list(x, b.items) for x in a.items)
        sup = all(I.in_list(x, a.items) for x in b.items)
        return {'eq': sub and sup, 'ne': not (sub and sup), 'le': sub, 'lt': sub and not sup, 'ge': sup, 'gt': sup and not sub}[op]

    def set_contains(self, c, x):
        return mk('in', (self.reify(x), self.reify_seq(c.items)), 'b')

    # ------------------------------------------------------------ calls
    def call_lru(self, f, args, kw):
        I = self.I
        try:
            key = (tuple(I.hkey(a) for a in args), tuple(sorted((k, I.hkey(v)) for k, v in kw.items())))
        except AbsRaise:
            raise
        if key in f.cache:
            return f.cache[key]
        r = I.call(f.fn, args, kw)
        if f.epoch == 0 and I.path_epoch and not any(o is f for o, _ in I.journal):
            I.journal.append((f, f.snap()))
        plain = (str, int, float, bool, type(None), Cls, Fn, Ext, Term)
        exact = all(isinstance(a, plain) for a in list(args) + list(kw.values()))
        I.event('lru', f, exact and (isinstance(r, plain) or isinstance(r, tuple) and all(isinstance(x, plain) for x in r)))
        f.cache[key] = r
        return r

    def call_opaque(self, fn, args, kw):
        """call of a value the analysis knows nothing about: an uninterpreted function of the arguments"""
        I = self.I
        I.event('opaquecall', fn, tuple(args), dict(kw))
        ka = tuple(sorted((k, self.reify(v)) for k, v in kw.items()))
        shape = I.opaque_shapes.get(fn)
        if callable(shape):
            return shape(args, kw)
        key = (fn, tuple(self.reify(a) for a in args), ka)
        return mk('ext', ('call', key, shape), 'o')

    def call_ext(self, fn, args, kw):
        p = fn.path
        if p.startswith('numpy.') and not p.startswith('numpy.linalg.linalg'):
            n = p[6:]
            c = self.scalar_class(n, args, kw)
            if c is not MISSING:
                return c
            return self.np_call(n, list(args), dict(kw))
        return self.libs.call(p, list(args), dict(kw))

    def scalar_class(self, n, args, kw):
        I = self.I
        if n in ('float64', 'float_', 'double', 'float32', 'float16', 'float'):
            f = self.bi_float_conv(args[0] if args else 0.0)
            return f if n == 'float' else self.resort_scalar(f, 'F')
        if n in ('int64', 'int_', 'int32', 'intp', 'int'):
            f = self.bi_int_conv(args[0] if args else 0)
            return f if n == 'int' else self.resort_scalar(f, 'I')
        if n in ('bool_', 'bool'):
            return self.bi_bool_conv(args[0] if args else False)
        if n in ('object',):
            return I.new(Inst(self.obj))
        if n in ('ndenumerate', 'ndindex'):
            if n == 'ndindex':
                shape = [a for x in args for a in (x if isinstance(x, tuple) else [x])]
                if all(isinstance(d, int) for d in shape):
                    return I.new(Iter([tuple(int(q) for q in ix) for ix in np.ndindex(*shape)]))
                raise Unsupported('ndindex')
            a = self.asarray(args[0])
            if a.shape is not None and all(isinstance(d, int) for d in a.shape):
                return I.new(Iter([(tuple(int(q) for q in ix), self.array_getitem(a, tuple(int(q) for q in ix))) for ix in np.ndindex(*a.shape)]))
            raise Unsupported('ndenumerate')
        return MISSING

    def resort_scalar(self, v, s):
        if isinstance(v, Term):
            return mk('conv', (v,), s) if v.sort != s else v
        return v

    def ext_getitem(self, o, i):
        if o.path.startswith(('typing', 'collections', 'numpy.typing')):
            return o
        if o.path == 'numpy.s_' or o.path == 'numpy.index_exp':
            return i
        if o.path in ('numpy.r_', 'numpy.c_'):
            return self.r_c(o.path, i)
        return mk('item', (self.reify(o), self.reify(i)), 'o')

    def r_c(self, path, i):
        parts = i if isinstance(i, tuple) else (i,)
        if any(isinstance(x, (str, SliceV)) for x in parts):
            raise Unsupported('np.r_ with slices')
        arrs = [self.np_atleast_1d(self.asarray(x)) for x in parts]
        if path == 'numpy.r_':
            return self.concat(arrs, 0)
        return self.np_column_stack(tuple(arrs))

    def ext_attr(self, m, name):
        p = m.path + '.' + name
        if p in ('os.environ', 'sys.argv', 'sys.flags', 'sys.modules', 'os.environb'):
            self.I.event('impure', p)
        v = self.libs.attr(p)
        if v is not MISSING:
            return v
        return Ext(p)
