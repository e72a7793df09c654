"""Contracts: one text, checked symbolically (all inputs) and executed on the real code (replay, bounded stand-in).

A contract is a function  c(g, W):  it builds inputs with g (preconditions = ranges and g.assume), calls the real
function through W, and states postconditions with g.eq / g.holds.  With a Sym generator W is the symbolically
loaded code and every statement becomes obligations for all inputs; with a Num generator W is the real package.
"""
import enum
import hashlib
import importlib
import math
import random
import sys
import time
import traceback
import numpy as rnp

REGISTRY = []


class C:
    pass


def contract(prop, func, mode='P', trials=60, hits=None, known=None, timeout=120, note='', needs=None, quick_trials=None, also=None):
    """mode: 'P' proved for all inputs and all array sizes; 'B' proved for stated concrete sizes (bounded);
    'T' executed only (bounded).
    also: {property: (what it says, goals)}: the goals of this contract that are part of other properties"""
    def deco(f):
        c = C()
        c.prop = prop if isinstance(prop, (list, tuple)) else [prop]
        c.func = func if isinstance(func, (list, tuple)) else [func]
        c.mode = mode
        c.trials = trials
        c.name = f.__name__
        c.body = f
        c.doc = (f.__doc__ or '').strip()
        c.timeout = timeout
        c.note = note
        REGISTRY.append(c)
        for p, (doc, goals) in (also or {}).items():
            d = C()
            d.__dict__.update(c.__dict__)
            d.prop, d.name, d.doc, d.body = [p], '%s_for_%s' % (f.__name__, p), doc, _only(f, tuple(goals))
            REGISTRY.append(d)
        return f
    return deco


def _only(f, goals):
    def body(g, W):
        g.only = goals
        return f(g, W)
    return body


def _other(g, name):
    """a goal that the contract at hand leaves to another property"""
    return g.only is not None and not any(name.startswith(x) for x in g.only)


class Skip(Exception):
    pass


class Violation(Exception):
    def __init__(self, goal, msg):
        self.goal = goal
        self.msg = msg
        Exception.__init__(self, '%s: %s' % (goal, msg))


# ------------------------------------------------------------------ numeric side
class RealWorld:
    def __getitem__(self, short):
        return importlib.import_module('heat_load_calc.' + short)


class Unfit(Exception):
    """the contract does not fit this tree (a replaced callee is called in another way)"""


def _fitted(repl, exc, old=None):
    """repl, refusing calls its signature does not cover; arguments named as in the function it replaces (old) go by position"""
    import inspect
    first = isinstance(old, classmethod)
    old = getattr(old, '__func__', old)
    try:
        names = list(inspect.signature(old).parameters)[first:] if old is not None and not isinstance(old, type) else []
    except (TypeError, ValueError):
        names = []
    try:
        sig = inspect.signature(repl)
    except (TypeError, ValueError):
        return repl
    if isinstance(repl, type):
        return repl

    def f(*a, **k):
        try:
            sig.bind(*a, **k)
        except TypeError:
            rest = names[len(a):]
            if k and set(k) == set(rest[:len(k)]):
                a, k = a + tuple(k[n] for n in rest[:len(k)]), {}
        try:
            sig.bind(*a, **k)
        except TypeError as e:
            raise exc('callee replaced by its contract is called differently: %s' % e)
        return repl(*a, **k)
    return f


def loosened(lo, hi):
    """the range the proof covers: bounds that only keep trials near ordinary sizes are dropped or widened (not those of angles,
    fractions and signs)"""
    def angle(x):
        return abs(x / (math.pi / 2) - round(x / (math.pi / 2))) <= 0.02

    if hi is not None and hi > 1.0 and not angle(hi):
        hi = None
    if lo is not None and lo > 0.0:
        lo = lo / 100
    elif lo is not None and lo < -1.0 and not angle(lo):
        lo = lo * 3
    return lo, hi


class Num:
    only = None
    symbolic = False

    def __init__(self, seed, hints=None, edge=0.3):
        self.rng = random.Random(seed)
        self.np = rnp
        self.math = math
        self.hints = hints or {}
        self.edge = edge
        self.wide = self.rng.random() < 0.12     # a trial that goes beyond the upper bounds that are only there for trials
        self.hard = False
        self.checked = 0
        self.inputs = {}
        self.sizes = {}
        self.findings = []
        self.goals = {}
        self.choices = {}
        self._gn = {}
        self.dirs = []
        self.patched = []

    def _note(self, name, a, b):
        k = self._gn.get(name, 0)
        self._gn[name] = k + 1
        if k < 40:
            self.goals[(name, k)] = (a, b)

    def dim(self, name, lo=1, hi=4, hard=False):
        if name not in self.sizes:
            self.sizes[name] = self.rng.randint(lo, hi)
            if self.wide and not hard and hi > lo and self.rng.random() < 0.3:      # ten and more of a kind
                self.sizes[name] = hi + self.rng.randint(1, 9)
            self.inputs[name] = self.sizes[name]
        return self.sizes[name]

    def _one(self, name, lo, hi, lo_open, hi_open, integer):
        r = self.rng
        if self.wide and not self.hard and not integer and r.random() < 0.3:
            least, most = loosened(lo, hi)
            if most != hi and r.random() < 0.7:
                return hi * r.uniform(1.0, 4.0)
            if least != lo:
                return r.uniform(least, lo) if lo < 0.0 else lo * 10 ** r.uniform(-2.0, 0.0)
        h = self.hints.get(name)
        if h and r.random() < 0.7:
            v = r.choice(h)
            if (lo is None or v > lo or (v == lo and not lo_open)) and (hi is None or v < hi or (v == hi and not hi_open)):
                return int(v) if integer else v
        a = -100.0 if lo is None else lo
        b = (a + 200.0 if lo is not None else 100.0) if hi is None else hi
        if lo is None and hi is not None:
            a = hi - 200.0
        x = r.random()
        if x < self.edge * 0.4:
            if not lo_open and lo is not None:
                return int(lo) if integer else float(lo)
        elif x < self.edge * 0.6:
            if not hi_open and hi is not None:
                return int(hi) if integer else float(hi)
        elif x < self.edge:
            v = float(round(r.uniform(a, b)))
            if a < v < b:
                return int(v) if integer else v
        if integer:
            return r.randint(int(math.ceil(a + (1 if lo_open else 0))), int(b - (1 if hi_open else 0)))
        if lo is not None and lo > 0 and b / lo > 1e3:
            v = math.exp(r.uniform(math.log(a), math.log(b)))
        else:
            v = r.uniform(a, b)
            if self.edge and r.random() < 0.05:                # small amounts
                small = (b - a) * 10 ** r.uniform(-5.0, -1.0)
                v = a + small if a >= 0.0 else (small if b > small and r.random() < 0.5 else -small if -small > a else v)
        if lo_open and v <= a:
            v = a + (b - a) * 1e-3
        return v

    def real(self, name, *dims, lo=None, hi=None, lo_open=False, hi_open=False, integer=False, num=None, hard=False):
        self.hard = hard
        if not dims:
            v = self._one(name, lo, hi, lo_open, hi_open, integer)
        else:
            v = rnp.array([self._one(name, lo, hi, lo_open, hi_open, integer)
                           for _ in range(int(rnp.prod(dims)))], dtype=int if integer else float).reshape(dims)
        if num is not None:
            v = num(v)
        self.inputs[name] = v
        return v.copy() if dims else v

    def descending(self, name, n, hi, least=0.0):
        """n numbers from 0 to hi, none greater than the one before, each zero or at least `least`"""
        xs = sorted((self._one('%s_%d' % (name, i), 0.0, hi, False, False, False) for i in range(n)), reverse=True)
        xs = [x if x >= least else 0.0 for x in xs]
        for i, x in enumerate(xs):
            self.inputs['%s_%d' % (name, i)] = x
        return xs

    def index(self, name, *dims, below, num=None):
        return self.real(name, *dims, lo=0, hi=below - 1, integer=True, num=num)

    def bool(self, name, *dims):
        if not dims:
            h = self.hints.get(name)
            v = self.rng.choice(h) if h and self.rng.random() < 0.7 else self.rng.random() < 0.5
            v = bool(v)
        else:
            v = rnp.array([self.rng.random() < 0.5 for _ in range(int(rnp.prod(dims)))]).reshape(dims)
        self.inputs[name] = v
        return v.copy() if dims else v

    def enum(self, name, members, *dims):
        members = list(members)
        if not dims:
            v = self.choice(name, members)
        else:
            v = rnp.empty(int(rnp.prod(dims)), dtype=object)
            for i in range(v.size):
                v[i] = self.rng.choice(members)
            v = v.reshape(dims)
        self.inputs[name] = v
        return v.copy() if dims else v

    def choice(self, name, options):
        options = list(options)
        h = [o for o in self.hints.get(name, ()) if o in options]
        v = self.rng.choice(h) if h and self.rng.random() < 0.8 else self.rng.choice(options)
        self.inputs[name] = v
        self.choices[name] = [k for k, o in enumerate(options) if o is v or o == v][0]
        return v

    def assume(self, c):
        if not bool(c):
            raise Skip()

    def eq(self, name, a, b, tol=1e-7, when=None, abs_tol=None, scale=None, finding=None, hyps=()):
        if _other(self, name):
            return
        self.checked += 1
        self._note(name, a, b)
        msg = self._eqmsg(a, b, tol, when, abs_tol, scale)
        if msg is None:
            return
        if finding:
            fid, alt = finding
            alt = alt() if callable(alt) else alt
            m2 = self._eqmsg(a, alt, tol, when, abs_tol, scale)
            if m2 is None:
                self.findings.append((fid, name, msg))
                return
            msg += ' (and it is not the listed finding %s: %s)' % (fid, m2)
        raise Violation(name, msg)

    def _eqmsg(self, a, b, tol, when, abs_tol, scale):
        if isinstance(a, (str, list, tuple, dict)) or isinstance(b, (str, list, tuple, dict)) or a is None or b is None or _isobj(a):
            if when is not None and not when:
                return None
            return None if _deep_eq(a, b, tol) else 'got %s expected %s' % (_short(a), _short(b))
        a = rnp.asarray(a)
        b = rnp.asarray(b)
        if a.dtype == object or b.dtype == object:
            try:
                a = a.astype(float)
                b = b.astype(float)
            except (TypeError, ValueError):
                a2, b2 = rnp.broadcast_arrays(a, b)
                bad = [(p, a2[p], b2[p]) for p in rnp.ndindex(a2.shape) if a2[p] != b2[p]
                       and (when is None or rnp.broadcast_to(when, a2.shape)[p])]
                return None if not bad else 'got %r expected %r at %r' % (bad[0][1], bad[0][2], bad[0][0])
        try:
            a, b = rnp.broadcast_arrays(a.astype(float), b.astype(float))
        except ValueError:
            return 'shape %s against %s' % (a.shape, b.shape)
        if when is not None:
            w = rnp.broadcast_to(rnp.asarray(when, dtype=bool), a.shape)
        else:
            w = rnp.ones(a.shape, dtype=bool)
        sc = rnp.maximum(rnp.abs(a), rnp.abs(b))
        if scale is not None:
            sc = rnp.maximum(sc, scale)
        t = tol * sc + (abs_tol if abs_tol is not None else 1e-12)
        same = (a == b) | (rnp.isnan(a) & rnp.isnan(b))
        with rnp.errstate(all='ignore'):
            bad = w & ~same & ~(rnp.abs(a - b) <= t)
        if not bad.any():
            return None
        p = tuple(int(x[0]) for x in rnp.nonzero(bad)) if bad.ndim else ()
        return 'got %.12g expected %.12g%s' % (a[p], b[p], ' at %r' % (p,) if p else '')

    def holds(self, name, c, when=None, finding=None):
        if _other(self, name):
            return
        self.checked += 1
        self._note(name, c, None)
        a = rnp.asarray(c)
        w = rnp.ones(a.shape, dtype=bool) if when is None else rnp.broadcast_to(rnp.asarray(when, dtype=bool), a.shape)
        bad = w & ~a.astype(bool)
        if bad.any():
            p = tuple(int(x[0]) for x in rnp.nonzero(bad)) if bad.ndim else ()
            if finding:
                fid, alt = finding
                alt = alt() if callable(alt) else alt
                if rnp.all(alt):
                    self.findings.append((fid, name, 'does not hold%s' % (' at %r' % (p,) if p else '')))
                    return
            raise Violation(name, 'does not hold%s' % (' at %r' % (p,) if p else ''))

    def le(self, name, a, b, tol=1e-9, when=None):
        """a <= b (+ rounding)"""
        aa, bb = rnp.asarray(a, dtype=float), rnp.asarray(b, dtype=float)
        t = tol * rnp.maximum(rnp.maximum(rnp.abs(aa), rnp.abs(bb)), 1.0)
        self.holds(name, aa <= bb + t, when)

    def raises(self, name, f, exc=Exception):
        if _other(self, name):
            return
        self.checked += 1
        try:
            f()
        except exc:
            return
        raise Violation(name, 'no exception')

    def fails(self, name, msg):
        raise Violation(name, msg)

    def stub(self, *a, **k):
        pass

    def replace(self, short, fname, repl, why=''):
        """replace a callee in every module of the package that refers to it, for this trial"""
        if '.' in fname:
            cn, mn = fname.split('.')
            cls = getattr(importlib.import_module('heat_load_calc.' + short), cn, None)
            if cls is None or mn not in vars(cls):
                raise Unfit('no %s.%s' % (short, fname))
            self.patched.append((cls, mn, vars(cls)[mn]))
            setattr(cls, mn, _fitted(repl, Unfit, vars(cls)[mn]))
            return True
        old = getattr(importlib.import_module('heat_load_calc.' + short), fname, None)
        if old is None:
            raise Unfit('no %s.%s' % (short, fname))
        repl = _fitted(repl, Unfit, old)
        for mn, m in list(sys.modules.items()):
            if mn.startswith('heat_load_calc.') and m is not None:
                for k, v in list(vars(m).items()):
                    if v is old:
                        self.patched.append((m, k, old))
                        setattr(m, k, repl)
        return True

    def ghost(self, tag, pos):
        from .loader import Ghost
        return Ghost(tag, pos)

    def data(self, x):
        return x

    def latest(self, tag):
        from .loader import GHOSTS
        return GHOSTS.get(tag, 'none')

    def unit(self, name, dot, s, n):
        """lemma: the scalar product of two unit vectors lies between -1 and 1"""

    def hyp(self, *a, **k):
        pass

    def lemma(self, *a, **k):
        pass

    def arr(self, x):
        return rnp.array(x)

    def json(self, path):
        """data file of the repository; symbolically its long lists are any lists"""
        import json
        import os
        import heat_load_calc
        from . import vfs
        with open(os.path.join(os.path.dirname(heat_load_calc.__file__), path), encoding='utf-8') as f:
            x = json.load(f)

        def note(n, v):
            self.inputs[n] = rnp.array(v)
            return rnp.array(v)
        return vfs.long_lists(x, 'json:' + os.path.basename(path) + ':', note, note)

    def table(self, path, col, skip=0):
        """column of a comma separated file of the repository"""
        import csv
        import os
        import heat_load_calc
        with open(os.path.join(os.path.dirname(heat_load_calc.__file__), path), encoding='utf-8') as f:
            rows = list(csv.reader(f))
        v = [rnp.nan] * skip + [float(r[col]) for r in rows[skip:]]
        self.inputs['table:%s:%d' % (os.path.basename(path), col)] = rnp.array(v)
        return rnp.array(v[skip:])

    def dir(self, files):
        from . import vfs
        d = vfs.write_real(files)
        self.dirs.append(d)
        return d

    def read(self, d, name):
        from . import vfs
        return vfs.read_real(d, name)

    def exists(self, d, name):
        import os
        return os.path.exists(os.path.join(d, name))

    def frame(self, d, name):
        import os
        import pandas as pd
        return pd.read_csv(os.path.join(d, name), index_col=0)

    def optional(self, cond, val):
        return val if cond else None

    def some(self, x, f, default):
        """f(x), or default where x is None"""
        return default if x is None else f(x)

    def oneof(self, sel, options):
        return options[sel]

    def shares(self, name, dim):
        """positive numbers that add up to one"""
        w = [self._one(name, 0.0, 1.0, True, True, False) for _ in range(dim)]
        v = rnp.array(w) / sum(w)
        self.inputs[name] = v
        return v.copy()

    def len(self, xs):
        return len(xs)

    def each(self, xs, f):
        """[f(x) for x in xs]"""
        return [f(x) for x in xs]

    def those(self, xs, f):
        """[x for x in xs if f(x)]"""
        return [x for x in xs if f(x)]

    def column(self, xs, j, w):
        """every w-th element of xs from the j-th"""
        return xs[j::w]

    def groups(self, dim, f):
        """list of dim groups of records, one after the other"""
        return [x for k in range(dim) for x in f(lambda a, k=k: _plain(a[k]), k)]

    def records(self, dim, f):
        """list of dim records; f(at, k) with at(a) the element of array a belonging to record k"""
        return [f(lambda a, k=k: _plain(a[k]), k) for k in range(dim)]


def _plain(v):
    return v.item() if isinstance(v, rnp.generic) else v


def _isobj(a):
    return type(a).__module__.startswith('heat_load_calc.') and not isinstance(a, (enum.Enum, tuple)) and hasattr(a, '__dict__')


def _deep_eq(a, b, tol):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(_deep_eq(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(_deep_eq(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, rnp.ndarray) or isinstance(b, rnp.ndarray):
        a, b = rnp.asarray(a), rnp.asarray(b)
        return a.shape == b.shape and all(_deep_eq(x, y, tol) for x, y in zip(a.reshape(-1).tolist(), b.reshape(-1).tolist()))
    if _isobj(a):
        return type(a) is type(b) and _deep_eq(vars(a), vars(b), tol)
    if isinstance(a, (int, float, rnp.number)) and isinstance(b, (int, float, rnp.number)) and not isinstance(a, bool):
        a, b = float(a), float(b)
        return a == b or (a != a and b != b) or abs(a - b) <= tol * max(abs(a), abs(b)) + 1e-12
    return a == b


def _short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + '...'


def seed_of(base, name, trial):
    return int(hashlib.sha256(('%s/%s/%s' % (base, name, trial)).encode()).hexdigest()[:12], 16)


def run_trial(c, base_seed, trial, hints=None):
    """returns (status, info): 'ok'|'skip'|'violation'|'error'"""
    g = Num(seed_of(base_seed, c.name, trial), hints, edge=0.15 if trial % 3 else 0.5)
    rnp.seterr(all='ignore')
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            c.body(g, RealWorld())
            return ('ok', g) if g.checked else ('skip', g)
        except Skip:
            return 'skip', g
        except Violation as e:
            return 'violation', (g, e.goal, e.msg)
        except Exception as e:
            return 'error', (g, type(e).__name__, '%s\n%s' % (e, traceback.format_exc(limit=-4)))
        finally:
            for m, k, old in reversed(g.patched):
                setattr(m, k, old)
            if g.dirs:
                from . import vfs
                vfs.cleanup(g.dirs)


# ------------------------------------------------------------------ symbolic side
class Obligation:
    def __init__(self, name, status, how, detail=''):
        self.name, self.status, self.how, self.detail = name, status, how, detail


def run_symbolic(c, budget):
    """generate and discharge all obligations of the contract"""
    from . import symnp as sn, terms as tm, prover as pv, loader as ld, objs
    from .terms import Unsupported, P1
    t0 = time.time()
    deadline = t0 + budget
    obls = []
    info = {'paths': 0, 'covered': 0, 'unsupported': None, 'findings': [], 'divisors': 0, 'models': [], 'assumed': []}

    class Sym:
        only = None
        symbolic = True

        def __init__(self):
            self.np = sn.NP()
            self.math = sn.MATH()
            self.hyps = []
            self.W = None
            self.ndirs = 0
            self.ranges = []
            self.vars = {}
            self.goals = {}
            self._gn = {}

        def dim(self, name, lo=1, hi=4, hard=False):
            if name not in self.vars:
                self.vars[name] = sn.mkdim(name, lo)
            return self.vars[name]

        def index(self, name, *dims, below, num=None):
            """integers 0 <= k < below"""
            tm.FACTS.add(('rng', name, sn.dim_poly(below).key()))
            self.ranges.append((name, below))
            return sn.mkvar(name, *dims, lo=0, hi=None, integer=True)

        def real(self, name, *dims, lo=None, hi=None, lo_open=False, hi_open=False, integer=False, num=None, hard=False):
            if not hard and not integer:
                lo, hi = loosened(lo, hi)
            return sn.mkvar(name, *dims, lo=lo, hi=hi, lo_strict=lo_open, hi_strict=hi_open, integer=integer)

        def descending(self, name, n, hi, least=0.0):
            xs = [self.real('%s_%d' % (name, i), lo=0.0, hi=hi) for i in range(n)]
            for i, x in enumerate(xs):
                if i:
                    self.assume(xs[i - 1] >= x)
                if least:
                    self.assume((x == 0.0) | (x >= least))
            return xs

        def bool(self, name, *dims):
            return sn.mkbool(name, *dims)

        def enum(self, name, members, *dims):
            return sn.mkenum(name, members, *dims)

        def choice(self, name, options):
            options = list(options)
            e = sn.EnumV({})
            rest = P1
            labels = {}
            for k, o in enumerate(options[:-1]):
                p = tm.Poly.of_atom(tm.Atom('en', ('choice:' + name, (), '%d' % k)))
                if sn.decide(p):
                    return o
            return options[-1]

        def assume(self, cnd):
            if isinstance(cnd, sn.S):
                p = cnd.p
                if p == P1:
                    return
                if p == tm.ZERO:
                    raise sn.Infeasible()
                ctx = sn._ctx[-1]
                allpc = [q for x in sn._ctx for q in x.pc]
                if pv.feasible(allpc + [p]) is False:
                    raise sn.Infeasible()
                ctx.pc.append(p)
            elif isinstance(cnd, sn.T):
                self.assume(sn.np_all(cnd))
            elif not cnd:
                raise sn.Infeasible()

        def _note(self, name, a, b):
            k = self._gn.get(name, 0)
            self._gn[name] = k + 1
            if k < 40:
                self.goals[(name, k)] = (_snap(a), _snap(b))

        def _facts(self):
            return [q for x in sn._ctx for q in x.pc]

        def _record(self, name, r):
            obls.append(Obligation(name, r.status, r.how, (r.detail or '') + (' case ' + repr(r.case) if r.case else '')))
            if r.status != 'proved':
                facts = self._facts()
                conds = list(facts)
                for k, v in r.case:
                    for a in tm.Atom.table.values():
                        if a.key == k:
                            p = tm.Poly.of_atom(a)
                            conds.append(p if v else tm.b_not(p))
                            break
                try:
                    extra = []
                    if isinstance(r.residual, tm.Poly) and not any(m[0] for m in r.residual.t):
                        extra = [tm.b_not(tm.ez(r.residual))] if r.how != 'z3' or True else []
                    m = pv.model(conds + extra) or pv.model(conds)
                    if m:
                        info['models'].append(m)
                except Exception:
                    pass

        def _eq_polys(self, a, b):
            """list of (position, difference or None)"""
            if a is b:
                return [('', tm.ZERO)]
            if isinstance(a, list) and getattr(a, 'tail', None) is not None:
                a = a.tail
            if isinstance(b, list) and getattr(b, 'tail', None) is not None:
                b = b.tail
            if isinstance(a, objs.Alt) or isinstance(b, objs.Alt):
                out = []
                for c, x in objs._alts(P1, a):
                    for d, y in objs._alts(P1, b):
                        cd = c.mul(d)
                        if cd == tm.ZERO:
                            continue
                        for pos, e in self._eq_polys(x, y):
                            out.append((pos, cd if e is None else cd.mul(e)))
                return out
            if isinstance(a, objs.Segs) or isinstance(b, objs.Segs):
                if not all(isinstance(x, (objs.Segs, sn.SymList)) for x in (a, b)):
                    return [('kind', None)]
                a, b = objs.Segs.of(a).segs, objs.Segs.of(b).segs
                if len(a) != len(b):
                    return [('len', None)]
                out = []
                for i, ((d, n, it), (d2, n2, it2)) in enumerate(zip(a, b)):
                    if (d is None) != (d2 is None) or len(it) != len(it2):
                        return [('len', None)]
                    if d is not None:
                        if d != d2:
                            return [('len', d.sub(d2))]
                        iv = tm.new_iv(d)
                        it = [(c.subst({n: iv}), objs.subst(v, {n: iv})) for c, v in it]
                        it2 = [(c.subst({n2: iv}), objs.subst(v, {n2: iv})) for c, v in it2]
                    for j, ((c, v), (c2, v2)) in enumerate(zip(it, it2)):
                        out.append((('present', i, j), c.sub(c2)))
                        out += [((i, j, pos), c if e is None else c.mul(e)) for pos, e in self._eq_polys(v, v2)]
                return out
            if isinstance(a, sn.SymList) and isinstance(b, sn.SymList):
                if a.dim != b.dim:
                    return [('len', a.dim.sub(b.dim))]
                iv = tm.new_iv(a.dim)
                return self._eq_polys(a.elem(iv), b.elem(iv))
            if objs.is_obj(a) and objs.is_obj(b):
                if type(a) is not type(b):
                    return [('class', None)]
                return self._eq_polys(a.__dict__, b.__dict__)
            if isinstance(a, tuple) and isinstance(b, tuple) and type(a) is not type(b):
                return [('class', None)]
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (dict, list, tuple, sn.SymList)) or objs.is_obj(x):
                    if isinstance(x, list) and isinstance(y, list) or isinstance(x, tuple) and isinstance(y, (list, tuple)) \
                            or isinstance(x, dict) and isinstance(y, dict):
                        break
                    if isinstance(y, sn.T):
                        break
                    return [('kind', None)]
            if isinstance(a, (list, tuple)) and not isinstance(a, sn.T) and isinstance(b, (list, tuple)):
                if len(a) != len(b):
                    return [('len', None)]
                out = []
                for i, (x, y) in enumerate(zip(a, b)):
                    out += [((i, p), d) for p, d in self._eq_polys(x, y)]
                return out
            if isinstance(a, dict) and isinstance(b, dict):
                if set(a) != set(b):
                    return [('keys', None)]
                out = []
                for k in a:
                    out += [((k, p), d) for p, d in self._eq_polys(a[k], b[k])]
                return out
            x, y = sn._conv(a), sn._conv(b)
            if x is None or y is None:
                return [('', tm.ZERO if a is b or a == b else None)]
            if isinstance(x, sn.T) or isinstance(y, sn.T):
                x, y = sn.to_T(x), sn.to_T(y)
                arrs, sym, mask = sn._broadcast([x, y])
                bb = rnp.broadcast_arrays(*arrs)
                out = []
                for pos in rnp.ndindex(bb[0].shape):
                    out.append((pos, _ediff(bb[0][pos], bb[1][pos], mask)))
                return out
            return [('', _ediff(sn.to_entry(x), sn.to_entry(y), None))]

        def eq(self, name, a, b, tol=None, when=None, abs_tol=None, scale=None, finding=None, hyps=()):
            if _other(self, name):
                return
            self._note(name, a, b)
            ok, rs = self._try_eq(name, a, b, when, hyps)
            if ok or not finding:
                for r in rs:
                    self._record(name, r)
                return
            fid, alt = finding
            alt = alt() if callable(alt) else alt
            ok2, rs2 = self._try_eq(name, a, alt, when, hyps)
            if ok2:
                info['findings'].append((fid, name))
                for r in rs2:
                    self._record(name + ' [as listed finding %s]' % fid, r)
            else:
                for r in rs:
                    self._record(name, r)
                for r in rs2:
                    if r.status != 'proved':
                        info.setdefault('alt', []).append('%s: %s %s' % (name, r.detail[:300], r.case))

        def _try_eq(self, name, a, b, when, hyps):
            facts = self._facts()
            rs = []
            wp = None
            if when is not None:
                wp = sn._conv(when)
                if not isinstance(wp, sn.T):
                    wp = sn.to_entry(wp)
            if isinstance(wp, sn.T):
                arrs, sym, mask = sn._broadcast([sn.to_T(sn._conv(a)), sn.to_T(sn._conv(b)), wp])
                aa, bb, ww = rnp.broadcast_arrays(*arrs)
                prs = [(q, _ediff(aa[q], bb[q], mask).mul(ww[q])) for q in rnp.ndindex(aa.shape)]
                wp = None
            else:
                prs = self._eq_polys(a, b)
            for pos, d in prs:
                if d is None:
                    rs.append(pv.Result('failed', 'structure', 'values of different kinds at %r' % (pos,)))
                    continue
                if wp is not None:
                    d = d.mul(wp)
                try:
                    r = pv.prove_zero(d, list(self.hyps) + [h for x in hyps for h in hyp_polys(x)], facts, 0, deadline)
                except Unsupported as e:
                    r = pv.Result('unknown', 'unsupported', str(e))
                rs.append(r)
            return all(r.status == 'proved' for r in rs), rs

        def holds(self, name, cnd, when=None, finding=None):
            if _other(self, name):
                return
            self._note(name, cnd, None)
            facts = self._facts()
            x = sn._conv(cnd)
            es = []
            wp = None
            if when is not None:
                wp = sn._conv(when)
            if isinstance(x, sn.T) or isinstance(wp, sn.T):
                x = sn.to_T(x)
                if wp is not None:
                    x = sn.np_logical_or(x, sn.np_logical_not(sn.to_T(wp)))
                es = [e if x.mask is None else tm.b_or(e, tm.b_not(x.mask[1])) for e in x.a.reshape(-1)]
            else:
                e = sn.to_entry(x)
                if wp is not None:
                    e = tm.b_or(e, tm.b_not(sn.to_entry(wp)))
                es = [e]
            for e in es:
                r = pv.prove_bool(e, self.hyps, facts, deadline)
                self._record(name, r)

        def le(self, name, a, b, tol=None, when=None):
            self.holds(name, sn._conv(a) <= b, when)

        def raises(self, name, f, exc=Exception):
            if _other(self, name):
                return
            try:
                f()
            except Unsupported:
                raise
            except exc:
                self._record(name, pv.Result('proved', 'nf'))
                return
            self._record(name, pv.Result('failed', 'no exception'))

        def fails(self, name, msg):
            self._record(name, pv.Result('failed', msg))

        def hyp(self, a, b=0.0, why=''):
            """assumed equation (postcondition of a callee), for all elements"""
            for p in hyp_polys((a, b)):
                self.hyps.append(p)
            if why and why not in info['assumed']:
                info['assumed'].append(why)

        def unit(self, name, dot, s, n):
            ok = True
            for what, x, y in [('first has length one', sum(q * q for q in s), 1.0), ('second has length one', sum(q * q for q in n), 1.0),
                               ('distance', sum((p - q) * (p - q) for p, q in zip(s, n)), 2.0 - 2.0 * dot),
                               ('sum', sum((p + q) * (p + q) for p, q in zip(s, n)), 2.0 + 2.0 * dot)]:
                k, rs = self._try_eq(name, x, y, None, ())
                ok = ok and k
                for r in rs:
                    self._record('lemma %s: %s' % (name, what), r)
            if ok:
                self.fact(sn._conv(dot) <= 1.0)
                self.fact(sn._conv(dot) >= -1.0)

        def fact(self, c):
            """proved elsewhere in this contract; holds for all elements"""
            for e in (c.a.reshape(-1) if isinstance(c, sn.T) else [sn.to_entry(c)]):
                pv.FACTS.append(e)

        def lemma(self, name, a, b):
            """prove, then use"""
            ok, rs = self._try_eq(name, a, b, None, ())
            for r in rs:
                self._record('lemma ' + name, r)
            if ok:
                self.hyp(a, b)

        def stub(self, short, fname, repl, why=''):
            """use the callee's contract instead of its body"""
            m = self.W[short]
            if '.' in fname:
                cls = getattr(m, fname.split('.')[0], None)
                if cls is None or fname.split('.')[1] not in vars(cls):
                    return False
                setattr(cls, fname.split('.')[1], _fitted(repl, Unsupported, vars(cls)[fname.split('.')[1]]))
                if why and why not in info['assumed']:
                    info['assumed'].append(why)
                return True
            old = getattr(m, fname, None)
            if old is None:
                return False
            self.W.patch(old, _fitted(repl, Unsupported, old))
            if why and why not in info['assumed']:
                info['assumed'].append(why)
            return True

        def replace(self, short, fname, repl, why=''):
            if not self.stub(short, fname, repl, why):
                raise Unsupported('no %s.%s' % (short, fname))
            return True

        def ghost(self, tag, pos):
            return ld.Ghost(tag, pos)

        def data(self, x):
            """plain dictionaries and lists as the code under contract sees them"""
            return ld._deepconv(x)

        def latest(self, tag):
            return ld.GHOSTS.get(tag, 'none')

        def arr(self, x):
            return sn.np_array(x)

        def json(self, path):
            import os
            with open(os.path.join(ld.REPO, 'heat_load_calc', path), encoding='utf-8') as f:
                return self.W.over['json'].load(f)

        def table(self, path, col, skip=0):
            import os
            return sn.np_loadtxt(os.path.join(ld.REPO, 'heat_load_calc', path), delimiter=',', skiprows=skip, usecols=col)

        def dir(self, files):
            k = self.ndirs
            self.ndirs += 1
            base = 'dvfs://%d' % k
            for n, c in files.items():
                self.W.fs[base + '/' + n] = ld._deepconv(c)
            return base

        def read(self, d, name):
            return self.W.fs[d + '/' + name]

        frame = read

        def exists(self, d, name):
            return d + '/' + name in self.W.fs

        def optional(self, cond, val):
            e = sn.to_entry(sn._conv(cond))
            return ld.Opt(tm.b_not(e), ld._deepconv(val))

        def some(self, x, f, default):
            if isinstance(x, ld.Opt):
                return sn.merge_values([(x.isnone, default), (tm.b_not(x.isnone), f(x.val))])
            if isinstance(x, objs.Alt):
                return sn.merge_values([(c, self.some(o, f, default)) for c, o in x._alts])
            return default if x is None else f(x)

        def uf(self, name, *args):
            """uninterpreted function, elementwise"""
            f = lambda *ps: tm.mk_fn('uf:' + name, list(ps))
            x = [sn._conv(a) for a in args]
            if len(x) == 1:
                return sn._unary(f, x[0])
            return sn._binop(f)(*x)

        def unsupported(self, why):
            raise Unsupported(why)

        def oneof(self, sel, options):
            if not isinstance(sel, sn.Choice):
                return ld._deepconv(options[sel])
            return sn.merge_values([(p, ld._deepconv(options[k])) for k, p in sel.e.m.items()])

        def shares(self, name, dim):
            v = self.real(name, dim, lo=0.0, lo_open=True, hi=1.0)
            self.assume(sn._conv(self.np.sum(v) - 1.0) == 0.0)
            return v

        def len(self, xs):
            return ld._blen(xs)

        def each(self, xs, f):
            return ld._comp(xs, lambda e: [f(e)])

        def those(self, xs, f):
            return ld._comp(xs, lambda e: [e] if f(e) else [])

        def column(self, xs, j, w):
            return objs.Segs.of(xs).column(j, w)

        def groups(self, dim, f):
            iv = tm.new_iv(dim.p)
            return objs.Segs([(dim.p, sn._ivname(iv), [(P1, v) for v in f(lambda a: a[sn.S(iv)], sn.S(iv))])])

        def records(self, dim, f):
            if isinstance(dim, int):
                return ld.LList([f(lambda a, k=k: a[k], k) for k in range(dim)])
            return sn.SymList(dim.p, lambda p: f(lambda a: a[sn.S(p)], sn.S(p)))

    def _snap(x):
        return x.copy() if isinstance(x, sn.T) else x

    def hyp_polys(x):
        a, b = x if isinstance(x, tuple) else (x, 0.0)
        d = sn._conv(a) - b
        d = sn.to_T(d)
        return list(d.a.reshape(-1))

    def _ediff(a, b, mask):
        from .terms import Poly
        if isinstance(a, Poly) and isinstance(b, Poly):
            d = pv.diff(a, b)
        else:
            q = sn.e_eq(a, b)
            if isinstance(a, sn.Opaque) and isinstance(b, sn.Opaque) and a.v is b.v:
                q = P1
            d = tm.b_not(q)
        if mask is not None:
            d = d.mul(mask[1])
        return d

    def run():
        g = Sym()
        g.W = ld.World()
        try:
            c.body(g, g.W)
        finally:
            recs.append((list(g._facts()), g.goals))
        info['covered'] += 1
        return True

    recs = []
    try:
        pv.FACTS[:] = []
        res = sn.explore(run)
        info['paths'] = len(res)
        for pc, k, v in res:
            if k == 'exc':
                tb = ''.join(traceback.format_exception(type(v), v, v.__traceback__)[-3:])
                obls.append(Obligation('no exception', 'unknown', 'exception', '%r %s' % (v, tb[-600:])))
                try:
                    m = pv.model(pc)
                    if m:
                        info['models'].append(m)
                except Exception:
                    pass
    except Unsupported as e:
        tb = traceback.extract_tb(e.__traceback__)
        loc = [f for f in tb if '/heat_load_calc/' in f.filename]
        where = '%s:%d' % (loc[-1].filename, loc[-1].lineno) if loc else ''
        info['unsupported'] = '%s %s' % (e, where)
    except RecursionError as e:
        info['unsupported'] = 'recursion limit'
    except Exception as e:
        info['unsupported'] = 'engine: %r %s' % (e, traceback.format_exc()[-800:])
    # well-definedness: divisors proved nonzero
    dv = {'proved': 0, 'assumed': []}
    for k, (p, pcs) in list(sn.DIVISORS.items()):
        if time.time() > deadline:
            dv['assumed'].append(tm._short(k))
            continue
        if _nonzero(pv, tm, p) or pcs is not None and all(pc and _zero_excluded(pv, tm, pc, p) for pc in pcs.values()):
            dv['proved'] += 1
        else:
            dv['assumed'].append(tm._short(k))
    for (kind, k), p in list(tm.DOMAINS.items()):
        if kind == 'nonzero' and _nonzero(pv, tm, p):
            dv['proved'] += 1
        elif kind == 'unit' and _in_unit(pv, tm, p):
            dv['proved'] += 1
        else:
            dv['assumed'].append(('in [-1, 1]: ' if kind == 'unit' else '') + tm._short(k))
    info['div_proved'] = dv['proved']
    info['div_assumed'] = dv['assumed'][:20]
    info['inverted'] = len(sn.INVERTED)
    xs = {'compared': 0, 'skipped': 0, 'bad': []}
    try:
        from . import xval
        t1 = time.time()
        for k in range(6):
            if time.time() - t1 > 15:
                break
            st, gn = run_trial(c, 'xval', k)
            if st == 'ok':
                xval.compare(recs, gn, xs)
    except Exception as e:
        xs['error'] = traceback.format_exc()[-600:]
    xs['bad'] = xs['bad'][:5]
    info['xval'] = xs
    info['stats'] = dict(pv.STATS)
    info['wall'] = time.time() - t0
    hints = {}
    from .terms import Atom
    for m in info.pop('models')[:20]:
        for a, v in m.items():
            if a.kind in ('v', 'b'):
                hints.setdefault(a.data[0], []).append(v)
            elif a.kind == 'en' and v:
                pass
    info['hints'] = hints
    return obls, info


def _zero_excluded(pv, tm, pc, p):
    try:
        return pv.feasible(list(pc) + [tm.ez(p)]) is False
    except Exception:
        return False


def _nonzero(pv, tm, p):
    # syntactic: all monomials of the same certain sign
    sg = [(pv._mono_sign(m) if m != tm.ONE else 2) * (1 if c > 0 else -1) for m, c in p.t.items()]
    if sg and (all(x >= 0 for x in sg) and any(x == 2 for x in sg) or all(x <= 0 for x in sg) and any(x == -2 for x in sg)):
        return True
    i = tm._cases_interval(p, 6)
    if i[0] > 0 or i[2] < 0 or i[0] == 0 and i[1] or i[2] == 0 and i[3]:
        return True
    try:
        q, s, z = pv._check([tm.ez(p)], 1500)
        import z3
        return q == z3.unsat
    except Exception:
        return False


def _in_unit(pv, tm, p):
    i = tm.interval(p)
    if -1 <= i[0] and i[2] <= 1:
        return True
    try:
        import z3
        return all(pv._check([tm.lt0(q)] + pv.relevant([tm.lt0(q)]), 1500)[0] == z3.unsat for q in (tm.P1.sub(p), tm.P1.add(p)))
    except Exception:
        return False
