"""Cross-validation of the verifier: the symbolic value of every goal, evaluated at concrete inputs, must equal the value the
real code computed from the same inputs.  A disagreement means that the symbolic interpretation is not the running code:
the contract's obligations are then not counted as discharged."""
import math
import numpy as rnp
from . import terms as tm
from . import symnp as sn
from .terms import Poly

FN = {'exp': math.exp, 'log': math.log, 'log10': math.log10, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'asin': math.asin,
      'acos': math.acos, 'atan': math.atan, 'atan2': math.atan2, 'sinh': math.sinh, 'cosh': math.cosh, 'floor': math.floor,
      'ceil': math.ceil, 'trunc': math.trunc, 'pow': lambda x, y: float(x) ** float(y), 'sqrt': math.sqrt}


class NoVal(Exception):
    pass


class Budget(Exception):
    pass


class Ev:
    def __init__(self, inputs, choices, budget=400000):
        self.inputs = inputs
        self.choices = choices
        self.env = {}
        self.n = budget
        self.inv = {}
        self.big = 0.0      # largest term met: the result carries its rounding error

    def poly(self, p):
        s = 0.0
        for (bv, fs), c in p.t.items():
            t = float(c) * (self.sum(bv, fs) if bv else self.prod(fs))
            if not -self.big <= t <= self.big:
                self.big = abs(t)
            s += t
        return s

    def threshold(self, p):
        """the value a condition depends on; no value where rounding decides the condition"""
        old, self.big = self.big, 0.0
        v = self.poly(p)
        if v and abs(v) <= 1e-13 * self.big:
            raise NoVal()
        self.big = max(old, self.big)
        return v

    def prod(self, fs):
        r = 1.0
        # indicators first: the other factors may be undefined where they are zero
        for a, q in fs:
            if a.kind in tm.BOOL_KINDS:
                r *= self.atom(a)
                if r == 0:
                    return 0.0
        for a, q in fs:
            if a.kind not in tm.BOOL_KINDS:
                v = self.atom(a)
                if q < 0 and v == 0:
                    raise NoVal()
                r *= v ** q
        return r

    def sum(self, bv, fs):
        if not bv:
            return self.prod(fs)
        n, d = bv[0]
        s = 0.0
        old = self.env.get(n)
        for k in range(int(round(self.poly(d)))):
            self.n -= 1
            if self.n < 0:
                raise Budget()
            self.env[n] = k
            s += self.sum(bv[1:], fs)
        if old is None:
            self.env.pop(n, None)
        else:
            self.env[n] = old
        return s

    def index(self, name, idx):
        v = self.inputs.get(name)
        if v is None:
            raise NoVal()
        if not idx:
            return v.reshape(-1)[0] if isinstance(v, rnp.ndarray) else v
        if not isinstance(v, rnp.ndarray):
            raise NoVal()
        ii = [int(round(self.poly(p))) for p in idx]
        shp = sn.VDIMS.get(name)
        if shp is not None and len(ii) != v.ndim:
            it = iter(ii)
            ii = [0 if one else next(it) for one in shp]
        for k, m in zip(ii, v.shape):
            if k < 0 or k >= m:
                raise NoVal()
        return v[tuple(ii)]

    def atom(self, a):
        self.n -= 1
        if self.n < 0:
            raise Budget()
        k, d = a.kind, a.data
        if k == 'iv':
            if d[0] not in self.env:
                raise NoVal()
            return self.env[d[0]]
        if k == 'v':
            return float(self.index(d[0], d[1]))
        if k == 'b':
            return 1.0 if self.index(d[0], d[1]) else 0.0
        if k == 'en':
            if d[0].startswith('choice:'):
                c = self.choices.get(d[0][7:])
                if c is None:
                    raise NoVal()
                return 1.0 if str(c) == d[2] else 0.0
            return 1.0 if str(self.index(d[0], d[1])) == d[2] else 0.0
        if k == 'lt':
            return 1.0 if self.threshold(d[0]) < 0 else 0.0
        if k == 'ez':
            return 1.0 if self.threshold(d[0]) == 0 else 0.0
        if k == 'inv':
            v = self.poly(d[0])
            if v == 0:
                raise NoVal()
            return 1.0 / v
        if k == 'f':
            x = [self.poly(p) for p in d[1]]
            if d[0] == 'round':
                return round(x[0], int(x[1]))
            f = FN.get(d[0])
            if f is None:
                raise NoVal()
            try:
                v = f(*x)
            except (ValueError, OverflowError, ZeroDivisionError):
                raise NoVal()
            if isinstance(v, complex):
                raise NoVal()
            return v
        if k == 'mi':
            n = int(round(self.poly(d[1])))
            i, j = int(round(self.poly(d[2]))), int(round(self.poly(d[3])))
            key = (a.data[0].key(), n, tuple(sorted((x, self.env.get(x)) for x in d[0].ivs() if x not in ('@r', '@c'))))
            m = self.inv.get(key)
            if m is None:
                m = rnp.zeros((n, n))
                so, sc = self.env.get('@r'), self.env.get('@c')
                for r in range(n):
                    for c in range(n):
                        self.env['@r'], self.env['@c'] = r, c
                        m[r, c] = self.poly(d[0])
                for nm, o in (('@r', so), ('@c', sc)):
                    if o is None:
                        self.env.pop(nm, None)
                    else:
                        self.env[nm] = o
                m = rnp.linalg.inv(m)
                self.inv[key] = m
            return m[i, j]
        raise NoVal()

    def entry(self, e):
        if isinstance(e, Poly):
            return self.poly(e)
        if isinstance(e, sn.EnumV):
            for k, p in e.m.items():
                if self.poly(p) == 1:
                    return k
            raise NoVal()
        if isinstance(e, sn.Opaque):
            raise NoVal()
        return e

    def value(self, x):
        x = sn._conv(x)
        if x is None:
            raise NoVal()
        if not isinstance(x, sn.T):
            return self.entry(sn.to_entry(x))
        if x.mask is not None:
            raise NoVal()
        shp = []
        for n, s in zip(x.a.shape, x.sym):
            shp.append(int(round(self.poly(s[1]))) if s else n)
        out = rnp.empty(tuple(shp), dtype=object)
        for pos in rnp.ndindex(out.shape):
            sp = tuple(0 if s else q for q, s in zip(pos, x.sym))
            for q, s in zip(pos, x.sym):
                if s:
                    self.env[s[0]] = q
            out[pos] = self.entry(x.a[sp])
        for s in x.sym:
            if s:
                self.env.pop(s[0], None)
        return out


def compare(recs, g, stats):
    """recs: symbolic goals of all paths [(pc, {(name, k): (a, b)})]; g: Num generator after a run (goals recorded)"""
    for pc, goals in recs:
        ev = Ev(g.inputs, g.choices)
        try:
            if not all(ev.poly(p) == 1 for p in pc):
                continue
        except (NoVal, Budget):
            stats['skipped'] += 1
            continue
        for key, (a, b) in goals.items():
            if key not in g.goals:
                continue
            for side, x in enumerate((a, b)):
                y = g.goals[key][side]
                if x is None or y is None:
                    continue
                try:
                    e = Ev(g.inputs, g.choices)
                    v = e.value(x)
                except (NoVal, Budget, rnp.linalg.LinAlgError, OverflowError):
                    stats['skipped'] += 1
                    continue
                m = _cmp(v, y, 1e-13 * e.big)
                stats['compared'] += 1
                if m:
                    stats['bad'].append('%s %s: symbolic %s' % (key, 'ab'[side], m))


def _cmp(v, y, err=0.0):
    try:
        a = rnp.asarray(v, dtype=object)
        b = rnp.asarray(y, dtype=object)
        if a.shape != b.shape:
            if a.size == b.size == 1:
                a, b = a.reshape(()), b.reshape(())
            else:
                return 'shape %s real %s' % (a.shape, b.shape)
        for p in rnp.ndindex(a.shape):
            x, z = a[p], b[p]
            if isinstance(z, (bool, rnp.bool_)):
                z = float(z)
            if isinstance(x, (int, float, rnp.number)) and isinstance(z, (int, float, rnp.number)) \
                    and type(z).__module__ != 'heat_load_calc.core.operation_mode':
                x, z = float(x), float(z)
                if z != z or x != x or abs(x - z) <= 1e-6 * max(abs(x), abs(z), 1e-3) + err:
                    continue
                return '%r real %r at %r' % (x, z, p)
            if str(x) != str(z):
                return '%r real %r at %r' % (x, z, p)
    except Exception as e:
        return None
    return None
