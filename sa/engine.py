"""Decides the obligations of a property.

A property is written as scenario functions (sa/scen/*.py).  They are analysed source like the repository itself:
the abstract interpreter follows them, and every call leads it into the source of /repo.  A scenario quantifies over
all values of its symbols (array contents, sizes, indices, tolerances).  On every partition of the traces the two
sides of an obligation are value numbers; they are compared by canonical form first and, where the forms differ, by
random interpretation of the two value numbers (Gulwani/Necula), which can only err towards "equal".
"""
import json
import os
import sys
import time
import traceback

import numpy as np

from .terms import Term, mk, INF, show, is_const, isint, NUM
from .values import *
from . import nf as NF
from .nf import nf, Env, EvalError, EvalUnknown, OffPath, Opaque, close
from .interp import Interp
from .npm import kind

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
PROVED, SAMPLED, REFUTED, UNDECIDED, UNREACHED = 'proved', 'sampled', 'refuted', 'undecided', 'unreached'


class Skip(Exception):
    """the path is outside the scenario"""


class Obl:
    __slots__ = ('status', 'what', 'scen', 'detail', 'site', 'trace', 'choices', 'stack', 'witness', 'envs', 'iterations')


class Engine:
    def __init__(self, pid, files, tier='quick', seed=1, budget=300):
        self.pid, self.files, self.tier, self.seed = pid, files, tier, seed
        self.deadline = time.time() + budget
        self.obls = []
        self.paths = 0
        self.pathlog = {}
        self.cut = []
        self.problems = []
        self.choices = []
        self.scen = None
        self.npool = 120 if tier == 'quick' else 240
        self.maxcold = 40 if tier == 'quick' else 600
        self.maxpaths = 600 if tier == 'quick' else 3000

    # ------------------------------------------------------------ set-up
    def setup(self):
        self.I = I = Interp([('skcurve', os.path.join(REPO, 'skcurve'))])
        self.eng_natives()
        mods = sorted(f[:-3] for f in os.listdir(os.path.join(REPO, 'skcurve')) if f.endswith('.py') and f != '__init__.py')
        I.load('skcurve')
        for m in mods:
            I.load('skcurve.' + m)
        self.scens = []
        env = dict(self.natives)
        path = os.path.join(HERE, 'scen', 'common.py')
        with open(path, encoding='utf-8') as fh:
            m = I.load_source('scen.common', fh.read(), path, env)
        env.update({k: v for k, v in m.ns.items() if not k.startswith('__')})
        for f in self.files:
            path = os.path.join(HERE, 'scen', f)
            with open(path, encoding='utf-8') as fh:
                src = fh.read()
            m = I.load_source('scen.' + f[:-3], src, path, env)
            for k, v in m.ns.items():
                if k.startswith('s_') and isinstance(v, Fn) and v.mod is m:
                    self.scens.append((k, v))
        I.events = []
        I.path_epoch = 1

    # ------------------------------------------------------------ exploration
    def run(self):
        t0 = time.time()
        try:
            self.setup()
        except AbsRaise as e:
            self.problems.append(f'loading the sources raises {e.exc.cls.name} {e.exc.attrs.get("args")} at {e.site}')
            self.fatal = True
            return
        except Unsupported as e:
            self.problems.append(f'cannot analyse: {e} at {self.I.site}')
            return
        share = len(self.scens)
        for k, (name, fn) in enumerate(self.scens):
            left = self.deadline - time.time()
            if left <= 1:
                self.problems.append(f'{name}: out of time')
                continue
            self.explore(name, fn, time.time() + max(left / max(1, share - k) * 2.5, 2))

    def explore(self, name, fn, until):
        I = self.I
        self.scen = name
        I.symbounds = {}
        I.opaque_shapes, I.opaque_attrs = dict(getattr(self, 'base_shapes', {})), {}
        I.pool = []
        I.exits = {}
        first = len(self.obls)
        self.nenv = 0

        def fresh():
            e = Env(self.seed * 100003 + self.nenv)
            self.nenv += 1
            e.bounds = I.symbounds
            return e
        I.fresh_env = fresh
        I.pool = [fresh() for k in range(self.npool)]
        I.reserve = self.npool * 10
        hot, cold = [([], False)], []
        n = nc = 0
        while hot or cold:
            if time.time() > min(until, self.deadline) or n >= self.maxpaths or (not hot and nc >= self.maxcold):
                self.cut.append((name, len(hot), len(cold)))
                break
            if not hot:
                nc += 1
            # depth first and breadth first in turn, so that every choice of the scenario is reached early
            prefix, iscold = hot.pop(-1 if n % 2 else 0) if hot else cold.pop(0)
            I.reset_path(prefix)
            I.path_deadline = time.time() + 60
            self.choices = []
            n += 1
            nob = len(self.obls)
            try:
                I.call(fn, [], {})
                end = 'end'
            except AbsRaise as e:
                end = 'raise'
                self.fact(False, f'no unexpected exception ({e.exc.cls.name})', f'{e.exc.cls.name}{e.exc.attrs.get("args", ())} raised at {self.where(e.site)}',
                          unknown=e.exc.cls.name == 'UnknownError')
            except (Infeasible, Skip):
                end = 'skip'
                del self.obls[nob:]
            except Unsupported as e:
                end = 'unsupported'
                self.oblige(UNDECIDED, f'analysable ({e})', f'{e} at {self.where(I.site)}')
            except RecursionError:
                end = 'unsupported'
                self.oblige(UNDECIDED, 'analysable (recursion)', '')
            except Exception as e:      # a defect of the analyser: nothing is decided on this path
                end = 'error'
                tb = traceback.extract_tb(e.__traceback__)
                loc = ' < '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb[-3:][::-1])
                self.oblige(UNDECIDED, f'analysable (internal {type(e).__name__})', f'{e} [{loc}] at {self.where(I.site)}')
                if os.environ.get('SA_DEBUG'):
                    traceback.print_exc()
            self.pathlog[(name, end)] = self.pathlog.get((name, end), 0) + 1
            for p, c in I.alts:
                (cold if c or iscold else hot).append((p, c or iscold))
            I.undo()
            I.path_epoch = 1
        self.paths += n
        for o in self.obls[first:]:
            if o.status == REFUTED and o.iterations:
                good = [e for e in o.envs if I.iterations_agree(e, o.iterations)]
                if len(good) < 2:
                    o.status = UNDECIDED
                    o.detail += ' (another iteration leaves the loop in these interpretations)'
                else:
                    o.witness = self.witness(good)

    def where(self, site):
        if not site:
            return '?'
        return f'{os.path.relpath(site[0], REPO) if site[0].startswith(REPO) else os.path.basename(site[0])}:{site[1]}'

    # ------------------------------------------------------------ obligations
    def oblige(self, status, what, detail='', witness=None, envs=()):
        I = self.I
        o = Obl()
        if status == UNDECIDED and I.trace and not I.live():
            status = UNREACHED      # no sample interpretation follows this path; it may well be infeasible
        o.status, o.what, o.scen, o.detail, o.witness = status, what, self.scen, detail, witness
        o.site = self.where(I.last_return) if I.last_return else self.where(I.site)
        o.trace = [(t, v, s) for t, v, s in I.trace]
        o.choices = list(self.choices)
        o.envs, o.iterations = list(envs), list(I.iterations) if status == REFUTED else []
        o.stack = None
        self.obls.append(o)
        return o

    def fact(self, ok, what, detail='', unknown=False):
        """an obligation whose truth is already decided on this path"""
        if ok:
            return self.oblige(PROVED, what)
        if unknown:
            return self.oblige(UNDECIDED, what, detail)
        live = self.I.live()
        if not self.I.trace or len(live) >= 2:
            return self.oblige(REFUTED, what, detail, self.witness(live), live)
        return self.oblige(UNDECIDED, what, detail + ' (path not confirmed feasible)')

    def witness(self, envs):
        if not envs:
            return {}
        e = envs[0]
        out = {}
        for t, v in list(e.vals.items()):
            if t.op == 'sym' and len(out) < 12:
                try:
                    out[str(t.args[0])] = np.asarray(v).tolist() if isinstance(v, (np.ndarray, np.generic)) else (v if isinstance(v, (int, float, str, bool)) else repr(v))
                except Exception:
                    pass
        return out

    def cond(self, c, what, detail=''):
        """the condition holds on this path"""
        I = self.I
        if isinstance(c, NdArr):
            c = I.M.term_of(I.M.np_reduce('all', c))
        if not isinstance(c, Term):
            return self.fact(bool(c), what, detail)
        r = I.known(c)
        if r is True:
            return self.oblige(PROVED, what)
        live = I.live()
        bad, good, unk = [], 0, 0
        for e in live:
            try:
                if bool(e.ev(c)):
                    good += 1
                else:
                    bad.append(e)
            except EvalUnknown:
                unk += 1
            except (EvalError, OffPath, ValueError, TypeError):
                unk += 1
        if len(bad) >= 2:
            return self.oblige(REFUTED, what, f'{detail} condition {show(c, 5)} is false', self.witness(bad), bad)
        if bad or not good:
            return self.oblige(UNDECIDED, what, f'{show(c, 4)}')
        return self.oblige(SAMPLED, what, f'{good} interpretations')

    def eqterm(self, a, b, what, seqset=False):
        """two value numbers denote equal values on this path"""
        if a is b:
            return self.oblige(PROVED, what)
        if is_const(a) and is_const(b) and not isinstance(a, tuple) and not isinstance(b, tuple):
            ok = (a == b) or (a != a and b != b)
            if not ok and isinstance(a, (int, float)) and isinstance(b, (int, float)):
                ok = close(a, b)
            return self.fact(ok, what, f'{a!r} instead of {b!r}')
        try:
            if isinstance(a, Term) or isinstance(b, Term):
                if nf(a) is nf(b) or (is_const(nf(a)) and is_const(nf(b)) and nf(a) == nf(b)):
                    return self.oblige(PROVED, what)
        except Exception:
            pass
        live = self.I.live()
        bad, good, unk, err = [], 0, 0, []
        for e in live:
            x = y = None
            try:
                y = e.ev(b)
            except (EvalUnknown, EvalError, OffPath, ValueError, TypeError):
                unk += 1
                continue
            try:
                x = e.ev(a)
            except EvalError:
                err.append(e)
                continue
            except (EvalUnknown, OffPath, ValueError, TypeError):
                unk += 1
                continue
            if close(x, y, e.scale):
                good += 1
            else:
                bad.append((e, x, y))
        if len(bad) >= 2:
            e, x, y = bad[0]
            heads = self.heads(a) ^ self.heads(b)
            if heads and heads <= {'call', 'scipy.interpolate.interp1d'}:
                # linear interpolants are evaluated: they may be written differently
                heads = self.heads(a, True) ^ self.heads(b, True)
            d = f'{self.val(x)} instead of {self.val(y)}; value number {show(a, 5)[:400]} versus {show(b, 5)[:400]}'
            if heads and self.only_opaque(a, b, heads):
                return self.oblige(UNDECIDED, what, 'different uninterpreted functions ' + ', '.join(sorted(heads))[:200])
            return self.oblige(REFUTED, what, d, self.witness([e]), [x[0] for x in bad])
        if bad or not good:
            return self.oblige(UNDECIDED, what, f'{len(bad)} differ, {unk} unknown, {len(err)} raise of {len(live)}: {show(a, 4)[:200]} / {show(b, 4)[:200]}')
        return self.oblige(SAMPLED, what, f'{good} interpretations')

    def val(self, x):
        s = repr(x).replace('\n', '')
        return s[:200]

    def heads(self, t, skip=False):
        """names of uninterpreted functions in a value number"""
        out, seen, st = set(), set(), [t]
        while st:
            x = st.pop()
            if isinstance(x, tuple):
                st.extend(x)
            elif isinstance(x, Term) and x.id not in seen:
                seen.add(x.id)
                if x.op == 'ext':
                    h = x.args[0]
                    if h == 'interp1d linear':
                        out.update(() if skip else ('call', 'scipy.interpolate.interp1d'))
                    elif isinstance(h, str):
                        out.add(h)
                if x.op in ('unk', 'opaque'):
                    out.add('?unknown')
                st.extend(x.args)
        return out

    def only_opaque(self, a, b, heads):
        allow = getattr(self, 'strict_heads', ())
        return any(not h.startswith(allow) if allow else True for h in heads)

    # ------------------------------------------------------------ structural comparison
    def same(self, got, want, what, seqkind=False):
        I, M = self.I, self.I.M
        got, want = self.unwrap(got), self.unwrap(want)
        if got is want and not isinstance(got, Term):
            return self.oblige(PROVED, what)
        if isinstance(got, NdArr) or isinstance(want, NdArr):
            if isinstance(want, (Lst, tuple)):
                want = M.asarray(want)
            if isinstance(got, Inst) or isinstance(got, (Lst, tuple, str)) or got is None or isinstance(got, (Dct, SetV)):
                return self.fact(False, what, f'{M.typename(got)} instead of an array')
            if isinstance(want, Inst):
                want = M.asarray(want)
            gs = got.shape if isinstance(got, NdArr) else ()
            ws = want.shape if isinstance(want, NdArr) else ()
            if gs is not None and ws is not None:
                if len(gs) != len(ws):
                    return self.fact(False, what, f'array of {len(gs)} axes {gs} instead of {len(ws)} {ws}')
                for k, (x, y) in enumerate(zip(gs, ws)):
                    if not M.same_dim(x, y):
                        r = self.eqterm(x, y, what + f' [length of axis {k}]')
                        if r.status == REFUTED:
                            return r
            gk = kind(got.dtype) if isinstance(got, NdArr) else None
            wk = kind(want.dtype) if isinstance(want, NdArr) else None
            if gk and wk and gk != wk and 'b' in (gk, wk):
                return self.fact(False, what, f'dtype {got.dtype} instead of {want.dtype}')
            return self.eqterm(M.term_of(got), M.term_of(want), what)
        if isinstance(want, bool) or isinstance(got, bool):
            if isinstance(want, bool) and isinstance(got, bool):
                return self.fact(got == want, what, f'{got} instead of {want}')
            o, c = (got, want) if isinstance(want, bool) else (want, got)
            if isinstance(o, Term) and o.sort in 'bBo':
                return self.cond(o if c else mk('not', (o,), 'b'), what)
            if isinstance(o, (int, float)):
                return self.fact(False, what, f'{got!r} instead of {want!r}')
            return self.fact(False, what, f'{M.typename(got)} instead of {M.typename(want)}')
        if isinstance(got, (Lst, tuple, SymSeq)) and isinstance(want, (Lst, tuple, SymSeq)):
            return self.same_seq(got, want, what)
        if isinstance(got, Inst) and isinstance(want, Inst):
            return self.same_inst(got, want, what)
        if isinstance(got, Dct) and isinstance(want, Dct):
            if set(got.d) != set(want.d):
                return self.fact(False, what, 'different keys')
            for k in want.d:
                self.same(got.d[k][1], want.d[k][1], what + f'[{want.d[k][0]!r}]')
            return
        if isinstance(got, SetV) and isinstance(want, SetV):
            return self.fact(M.set_cmp('eq', got, want), what, 'different sets')
        if I.scalar(got) and I.scalar(want) or isinstance(got, Term) or isinstance(want, Term):
            if isinstance(got, Inst) or isinstance(want, Inst) or got is None or want is None:
                o = got if isinstance(got, Term) else want
                if o.sort in NUM:
                    return self.fact(False, what, f'{M.typename(got)} instead of {M.typename(want)}')
            return self.eqterm(M.reify(got), M.reify(want), what)
        if isinstance(got, (str, int, float)) and isinstance(want, (str, int, float)):
            return self.fact(got == want, what, f'{got!r} instead of {want!r}')
        if isinstance(got, DType) or isinstance(want, DType):
            x, y = M.to_dtype(got, soft=True), M.to_dtype(want, soft=True)
            return self.fact(x == y, what, f'dtype {x} instead of {y}')
        if isinstance(got, (Fn, Ext, Cls, Native, Bound, Partial)) or isinstance(want, (Fn, Ext, Cls, Native, Bound, Partial)):
            r = I.is_(got, want)
            if not r and M.reify(got) is M.reify(want):
                r = True
            return self.fact(r is True, what, f'{got!r} instead of {want!r}')
        return self.fact(False, what, f'{M.typename(got)} instead of {M.typename(want)}')

    def unwrap(self, v):
        v = self.I.num(v)
        if isinstance(v, ObjArr):
            return Lst(list(v.seq))
        if isinstance(v, Iter):
            return Lst(self.I.iterate_seq(v))
        if isinstance(v, NdArr) and v.shape == ():
            return self.I.M.wrap(self.I.M.cur(v), (), v.dtype)
        return v

    def same_seq(self, got, want, what):
        I, M = self.I, self.I.M
        gl, wl = I.length(got), I.length(want)
        if isinstance(gl, int) and isinstance(wl, int):
            if gl != wl:
                return self.fact(False, what, f'{gl} elements instead of {wl}')
        elif not M.same_dim(gl, wl):
            r = self.eqterm(gl, wl, what + ' [length]')
            if r.status in (REFUTED, UNDECIDED):
                return r
        try:
            gs, ws = I.concrete_list(got), I.concrete_list(want)
        except Unsupported:
            gs = None
        if gs is not None:
            if not gs:
                return self.oblige(PROVED, what)
            for k, (x, y) in enumerate(zip(gs, ws)):
                self.same(x, y, what + f' [{k}]')
            return
        if not I.truth(I.cmp('gt', wl, 0)):
            return self.oblige(PROVED, what)
        i = I.fresh_index(wl)
        x = M.seq_getitem(got if isinstance(got, Lst) else Lst([got]) if isinstance(got, SymSeq) else Lst(list(got)), i)
        y = M.seq_getitem(want if isinstance(want, Lst) else Lst([want]) if isinstance(want, SymSeq) else Lst(list(want)), i)
        self.same(x, y, what + ' [each]')

    def same_inst(self, got, want, what):
        I, M = self.I, self.I.M
        if got.cls is not want.cls:
            return self.fact(False, what, f'{got.cls.name} instead of {want.cls.name}')
        if got.cls.kind == 'enum':
            return self.fact(got is want, what, f'{got.attrs["_name_"]} instead of {want.attrs["_name_"]}')
        if got.cls.kind == 'namedtuple':
            for f in got.cls.fields:
                self.same(got.attrs[f], want.attrs[f], f'{what}.{f}')
            return
        for a in ('data', 'points'):
            if got.cls.lookup(a)[1] is not None:
                return self.same(I.getattr(got, a), I.getattr(want, a), f'{what}.{a}')
        for a in ('p1', 'p2'):
            if got.cls.lookup(a)[1] is None and a not in got.attrs:
                return self.oblige(UNDECIDED, what, f'cannot compare {got.cls.name} objects')
        for a in ('p1', 'p2'):
            self.same(I.getattr(got, a), I.getattr(want, a), f'{what}.{a}')

    # ------------------------------------------------------------ vocabulary of the scenarios
    def eng_natives(self):
        from .natives import make
        self.natives = make(self)
