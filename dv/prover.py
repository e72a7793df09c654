"""Discharging obligations.

Equalities: normal forms (ring laws, sums, deltas, case split over indicators, cleared denominators),
then membership of the difference in the rational span of the instantiated hypotheses (assumed callee
postconditions; A.Inv(A)=I for every inverted matrix).  Inequalities and case conditions: z3 over the
reals, unknown functions/elements/sums abstracted with their sign facts.
"""
import time
from fractions import Fraction
import z3
from . import terms as tm
from . import symnp as sn
from .terms import Poly, Atom, Unsupported, ZERO, P1, sum_over, ez, lt0, b_not

TOL = 1e-9
STATS = {'nf': 0, 'linear': 0, 'z3': 0, 'z3_s': 0.0, 'cases': 0}


# ------------------------------------------------------------------ z3
class Z:
    def __init__(self, linear=False):
        self.linear = linear        # products of atoms as unknowns of their own
        self.memo = {}
        self.side = []
        self.atoms = {}

    def const(self, c):
        if isinstance(c, float):
            fr = Fraction(repr(float('%.15g' % c)))
            sm = fr.limit_denominator(10 ** 5)
            if abs(sm - fr) <= abs(fr) * Fraction(1, 10 ** 13):
                fr = sm
            return z3.RealVal(fr)
        return z3.RealVal(Fraction(c))

    def atom(self, a):
        r = self.memo.get(a)
        if r is not None:
            return r
        k = a.kind
        if k in ('lt', 'ez'):
            e = self.poly(a.data[0])
            b = (e < 0) if k == 'lt' else (e == 0)
            r = z3.If(b, z3.RealVal(1), z3.RealVal(0))
            self.memo[a] = r
            return r
        if k in ('b', 'en'):
            b = z3.Bool(a.key)
            r = z3.If(b, z3.RealVal(1), z3.RealVal(0))
            self.memo[a] = r
            self.atoms[a] = b
            if k == 'en':
                for o, v in list(self.atoms.items()):
                    if o is not a and o.kind == 'en' and o.data[0] == a.data[0] and o.data[1] == a.data[1]:
                        self.side.append(z3.Not(z3.And(b, v)))
            return r
        integer = (k == 'iv') or (k == 'v' and a.data[0] in sn.INTVARS) or \
            (k == 'f' and a.data[0] in ('floor', 'ceil', 'trunc'))
        x = z3.Int(a.key) if integer else z3.Real(a.key)
        r = z3.ToReal(x) if integer else x
        self.memo[a] = r
        self.atoms[a] = x
        if k == 'iv':
            self.side.append(x >= 0)
            d = tm.IVDIM.get(a.data[0])
            if d is not None and a.data[0] not in ('@r', '@c'):
                self.side.append(r < self.poly(d))
        elif k == 'v':
            bd = tm.BOUNDS.get(a.data[0])
            if bd is not None:
                if bd[0] != -tm._INF:
                    self.side.append(r > self.const(bd[0]) if bd[1] else r >= self.const(bd[0]))
                if bd[2] != tm._INF:
                    self.side.append(r < self.const(bd[2]) if bd[3] else r <= self.const(bd[2]))
            for f in sn.CONSTR.get(a.data[0], ()):
                self.side.append(self.bool(f(Poly.of_atom(a))))
        elif self.linear:
            pass
        elif k == 'inv':
            p = self.poly(a.data[0])
            self.side.append(z3.Implies(p != 0, r * p == 1))
        elif k == 'f':
            self.fn(a, r)
        return r

    def fn(self, a, r):
        n, args = a.data
        x = self.poly(args[0]) if args else None
        add = self.side.append
        if n == 'exp':
            add(r > 0)
            add(r >= 1 + x)
            add((x < 0) == (r < 1))
            add((x == 0) == (r == 1))
            for o, v in list(self.atoms.items()):
                if o is not a and o.kind == 'f' and o.data[0] == 'exp':
                    y = self.poly(o.data[1][0])
                    add((x < y) == (r < v))
        elif n == 'sqrt':
            add(r >= 0)
            add(z3.Implies(x >= 0, r * r == x))
        elif n == 'cosh':
            add(r >= 1)
        elif n == 'sinh':
            add((x > 0) == (r > 0))
            add((x < 0) == (r < 0))
        elif n in ('sin', 'cos'):
            add(r >= -1)
            add(r <= 1)
            h = self.const(1.5707963267948966)      # the float nearest to half pi
            add(z3.Implies(x == 0, r == (0 if n == 'sin' else 1)))
            if n == 'sin':
                add(z3.Implies(z3.And(x > 0, x <= 2 * h), r > 0))
                add(z3.Implies(z3.And(x < 0, x >= -2 * h), r < 0))
            else:
                add(z3.Implies(z3.And(x >= -h, x <= h), r > 0))
            o = Atom('f', ('cos' if n == 'sin' else 'sin', args))
            if o in self.atoms:
                v = self.atoms[o]
                add(r * r + v * v == 1)
            else:
                v = self.atom(o)
                add(r * r + v * v == 1)
        elif n == 'pow':
            add(z3.Implies(x > 0, r > 0))
            add(z3.Implies(x >= 0, r >= 0))
            e = args[1]
            if e.is_const() and e.const_val() > 0:
                add(z3.Implies(x == 0, r == 0))
                add(z3.Implies(x == 1, r == 1))
                for o, v in list(self.atoms.items()):
                    if o is not a and o.kind == 'f' and o.data[0] == 'pow' and o.data[1][1] == e:
                        y = self.poly(o.data[1][0])
                        add(z3.Implies(z3.And(x >= 0, y >= 0), (x < y) == (r < v)))
            if args[0].is_const() and args[0].const_val() > 1:
                add(r > 0)
        elif n == 'floor':
            add(r <= x)
            add(x < r + 1)
        elif n == 'trunc':
            add(z3.Implies(x >= 0, z3.And(r <= x, x < r + 1)))
            add(z3.Implies(x < 0, z3.And(r >= x, x > r - 1)))
        elif n == 'ceil':
            add(r >= x)
            add(x > r - 1)
        elif n in ('asin', 'atan'):
            add(r >= Fraction('-1.5707963267948968'))
            add(r <= Fraction('1.5707963267948968'))
        elif n == 'acos':
            add(r >= 0)
            add(r <= Fraction('3.1415926535897935'))
            add(z3.Implies(z3.And(x >= 0, x <= 1), r <= Fraction('1.5707963267948968')))
            add(z3.Implies(z3.And(x >= -1, x < Fraction('-1e-15')), r >= Fraction('1.5707963267948966')))
        elif n == 'round':
            nd = args[1]
            if nd.is_const():
                h = Fraction(1, 2 * 10 ** int(nd.const_val()))
                add(r - x <= h)
                add(x - r <= h)

    def mono(self, m):
        bv, fs = m
        if bv:
            # abstract sum, nonnegative when every factor is (by its declared sign facts)
            p = Poly({m: 1})
            key = 'sum:' + tm._short(p.key())
            x = self.memo.get(key)
            if x is None:
                x = z3.Real(key)
                self.memo[key] = x
                sg = _mono_sign(m)
                if sg == 2:
                    self.side.append(x > 0)
                elif sg == 1:
                    self.side.append(x >= 0)
            return x
        r = None
        if self.linear and (len(fs) > 1 or fs and fs[0][1] != 1):
            bs = [a for a, p in fs if a.kind in tm.BOOL_KINDS]
            rest = tuple((a, p) for a, p in fs if a.kind not in tm.BOOL_KINDS)
            x = z3.RealVal(1)
            if len(rest) == 1 and rest[0][1] == 1:
                x = self.atom(rest[0][0])
            elif rest:
                key = 'mono:' + tm._short(Poly({((), rest): 1}).key())
                x = self.memo.get(key)
                if x is None:
                    x = self.memo[key] = z3.Real(key)
                    sg = _mono_sign(((), rest))
                    if sg:
                        self.side.append(x > 0 if sg == 2 else x >= 0)
            return z3.If(z3.And([self.lit(a) for a in bs]), x, z3.RealVal(0)) if bs else x
        for a, p in fs:
            v = self.atom(a)
            if isinstance(p, int) and p > 0:
                for _ in range(p if a.kind not in tm.BOOL_KINDS else 1):
                    r = v if r is None else r * v
            else:
                iv = self.memo.get(('rec', a))
                if iv is None:
                    iv = z3.Real('1/' + a.key)
                    self.memo[('rec', a)] = iv
                    self.side.append(z3.Implies(v != 0, iv * v == 1))
                    self.side.append(z3.And((v > 0) == (iv > 0), (v < 0) == (iv < 0)))
                for _ in range(-p):
                    r = iv if r is None else r * iv
        return z3.RealVal(1) if r is None else r

    def poly(self, p):
        k = ('p', p.key())
        r = self.memo.get(k)
        if r is None:
            if not p.t:
                r = z3.RealVal(0)
            else:
                ts = []
                for m, c in p.t.items():
                    ts.append(self.const(c) if m == tm.ONE else
                              (self.mono(m) if c == 1 else self.const(c) * self.mono(m)))
                r = z3.Sum(ts) if len(ts) > 1 else ts[0]
            self.memo[k] = r
        return r

    def bool(self, p):
        """z3 Bool of a 0/1-valued Poly"""
        if p.is_const():
            return z3.BoolVal(p.const_val() != 0)
        # single literal fast paths
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if c == 1 and not m[0]:
                return z3.And([self.lit(a) for a, q in m[1]]) if len(m[1]) > 1 else self.lit(m[1][0][0])
        if len(p.t) == 2 and p.t.get(tm.ONE) == 1:
            (m, c), = [x for x in p.t.items() if x[0] != tm.ONE]
            if c == -1 and not m[0]:
                return z3.Not(self.bool(Poly({m: 1})))
        return self.poly(p) == 1

    def lit(self, a):
        if a.kind in ('lt', 'ez'):
            e = self.poly(a.data[0])
            return (e < 0) if a.kind == 'lt' else (e == 0)
        if a.kind in ('b', 'en'):
            self.atom(a)
            return self.atoms[a]
        return self.atom(a) == 1


def _mono_sign(m):
    """2: certainly > 0 (non-empty range), 1: certainly >= 0, 0: unknown"""
    x = tm.interval(Poly({m: 1}))
    if x[0] > 0 or (x[0] == 0 and x[1]):
        return 2
    return 1 if x[0] >= 0 else 0


def _check(conds, timeout, linear=None):
    if linear is None:
        # products as unknowns first: cheap, and enough for most contradictions
        r = _check(conds, min(timeout, 1000), True)
        if r[0] == z3.unsat:
            return r
    t = time.time()
    z = Z(bool(linear))
    s = z3.Solver()
    s.set('timeout', timeout)
    cs = [z.bool(c) for c in conds]
    for c in cs:
        s.add(c)
    for c in z.side:
        s.add(c)
    r = s.check()
    STATS['z3'] += 1
    STATS['z3_s'] += time.time() - t
    return r, s, z


_feas = {}


FACTS = []      # bool Polys known in the current contract (requires)


def feasible(conds):
    k = tuple(sorted(c.key() for c in conds)) + tuple(f.key() for f in FACTS)
    r = _feas.get(k)
    if r is None:
        q, s, z = _check(list(conds) + relevant(conds), 1500)
        r = False if q == z3.unsat else True
        _feas[k] = r
    return r


def relevant(conds):
    """the proved facts, at the free indices of the conditions"""
    if not FACTS:
        return []
    frees = {}
    for c in conds:
        for x in c.ivs():
            if tm.IVDIM.get(x) is not None:
                frees[x] = tm.IVDIM[x]
    r = {}
    for f in FACTS:
        for q in [f] if not f.ivs() else instantiate(f, list(frees.items())):
            r[q.key()] = q
    return list(r.values())


sn.FEASIBLE = feasible


def model(conds, timeout=5000):
    """values of the atoms in a model of the conditions, or None"""
    r, s, z = _check(list(conds) + relevant(conds), timeout)
    if r != z3.sat:
        return None
    m = s.model()
    out = {}
    for a, x in z.atoms.items():
        try:
            v = m.eval(x, model_completion=True)
            if z3.is_bool(v):
                out[a] = z3.is_true(v)
            elif z3.is_algebraic_value(v):
                out[a] = float(v.approx(20).as_fraction())
            elif z3.is_int_value(v):
                out[a] = v.as_long()
            else:
                out[a] = float(v.as_fraction())
        except Exception:
            pass
    return out


# ------------------------------------------------------------------ zero test
def _scale(p):
    return max([abs(c) for c in p.t.values()] or [0])


def is_zero(p, ref=1.0):
    return all(abs(c) <= TOL * ref for c in p.t.values())


def prune(p, ref):
    return Poly({m: c for m, c in p.t.items() if abs(c) > TOL * ref})


def diff(a, b):
    """a-b with coefficients equal up to TOL cancelled"""
    d = dict(a.t)
    for m, c in b.t.items():
        if m in d:
            s = d[m] - c
            if abs(s) <= TOL * max(abs(d[m]), abs(c)):
                del d[m]
            else:
                d[m] = s
        else:
            d[m] = -c
    return Poly(d)


def clear_denominators(p):
    """multiply by the denominators occurring outside bound sums; returns the numerator"""
    for _ in range(12):
        tgt = None
        for (bv, fs), c in p.t.items():
            bn = {b[0] for b in bv}
            for a, q in fs:
                if (a.kind == 'inv' or (isinstance(q, int) and q < 0 and a.kind not in tm.BOOL_KINDS)) and not (a.ivs & bn):
                    # outermost first: longest key
                    if tgt is None or len(a.key) > len(tgt.key):
                        tgt = a
        if tgt is None:
            return p
        n = 0
        for (bv, fs), c in p.t.items():
            for a, q in fs:
                if a is tgt:
                    n = max(n, q if a.kind == 'inv' else -q)
        den = tgt.data[0] if tgt.kind == 'inv' else Poly.of_atom(tgt)
        pw = [P1]
        for _ in range(n):
            pw.append(pw[-1].mul(den))
        acc = ZERO
        for (bv, fs), c in p.t.items():
            k = 0
            rest = []
            for a, q in fs:
                if a is tgt and tgt.kind == 'inv':
                    k = q
                else:
                    rest.append((a, q))
            base = Poly({(bv, tuple(rest)): c})
            acc = acc.add(base.mul(pw[n - k]))
        p = acc
        if len(p.t) > 20000:
            raise Unsupported('denominators too large')
    return p


# ------------------------------------------------------------------ linear algebra over monomials
def in_span(goal, hyps):
    """is goal a linear combination of hyps (rational/float coefficients)? returns the residue"""
    rows = []
    for h in hyps:
        if h.t:
            rows.append(dict(h.t))
    g = dict(goal.t)
    ref = _scale(goal) or 1.0
    used = 0
    while True:
        # pick a monomial of g and a row with that monomial; eliminate by rows restricted elimination
        break
    # Gaussian elimination with pivot = a monomial with the fewest occurrences
    piv = []
    for r in rows:
        for m, pr in piv:
            if m in r:
                _elim(r, pr, m)
        if not r:
            continue
        sc = max(abs(c) for c in r.values())
        for m in [m for m, c in r.items() if abs(c) <= 1e-12 * sc]:
            del r[m]
        if not r:
            continue
        m = min(r, key=lambda x: (x not in g, -len(x[0]), -len(x[1]), tm._mkey(x)))
        c = r[m]
        for k in r:
            r[k] = r[k] / c if isinstance(c, float) or isinstance(r[k], float) else tm._div(r[k], c)
        for i, (m2, pr) in enumerate(piv):
            if m in pr:
                _elim(pr, r, m)
        piv.append((m, r))
    for m, pr in piv:
        if m in g:
            _elim(g, pr, m)
            used += 1
    res = Poly({m: c for m, c in g.items() if abs(c) > TOL * ref})
    return res, used


def _elim(g, r, m):
    k = g[m]
    for mm, c in r.items():
        if mm in g:
            a, b = g[mm], k * c
            s = a - b
            if s == 0 or (isinstance(s, float) and abs(s) <= 1e-11 * max(abs(a), abs(b))):
                del g[mm]
            else:
                g[mm] = s
        else:
            g[mm] = -(k * c)
    g.pop(m, None)


def inverse_hyps(goal, frees, limit=4000):
    """instances of A.Inv=I and Inv.A=I suggested by the goal's monomials"""
    out = {}
    for (bv, fs), c in goal.t.items():
        if not any(a.kind == 'mi' and q == 1 for a, q in fs):
            continue
        # bound names become free below: fresh ones
        nw = {b[0]: tm.new_iv(b[1], 'b') for b in bv}
        bv = tuple((sn._ivname(nw[b[0]]), b[1]) for b in bv)
        fs = [(_subst_atom(a, nw), q) for a, q in fs]
        bnames = {b[0]: b[1] for b in bv}
        for a, q in fs:
            if a.kind != 'mi' or q != 1:
                continue
            ap, d, i, j = a.data
            for side in (0, 1):
                con, oth = (i, j) if side == 0 else (j, i)
                cn = _iv_of(con)
                if cn is None or cn not in bnames:
                    continue
                # factors connected to `con` through bound variables (without crossing the atom) vs the rest
                others = [(x, p) for x, p in fs if x is not a]
                comp = {cn}
                changed = True
                while changed:
                    changed = False
                    for x, p in others:
                        v = {n for n in x.ivs if n in bnames}
                        if v & comp and not v <= comp:
                            comp |= v
                            changed = True
                R = [(x, p) for x, p in others if not ({n for n in x.ivs if n in bnames} & comp)]
                on = _iv_of(oth)
                if on is not None and on in comp:
                    continue
                rb = [b for b in bv if b[0] not in comp and b[0] != on]
                # rest as a function of the other index: replace `oth` by a marker variable
                for f in frees + [None]:
                    if f is None:
                        continue
                    fn, fd = f
                    if fd != d:
                        continue
                    k = tm.new_iv(d, 'k')
                    kn = sn._ivname(k)
                    fi = Poly.of_atom(Atom('iv', (fn,)))
                    y = oth
                    Rp = Poly(dict([(m, cc) for m, cc in tm._finish((), dict(R))])) if R else P1
                    bR = [(x, p) for x, p in R if x.ivs & set(bnames)]     # without the factors that hold no summation index
                    Rb = None if len(bR) == len(R) else (Poly(dict(tm._finish((), dict(bR)))) if bR else P1)
                    A = ap.subst({'@r': fi, '@c': k}) if side == 0 else ap.subst({'@r': k, '@c': fi})
                    for Rq in ([Rp, Rb] if Rb is not None else [Rp]):
                        if side == 0:
                            prod = A.mul(Poly.of_atom(Atom('mi', (ap, d, k, y))))
                        else:
                            prod = Poly.of_atom(Atom('mi', (ap, d, y, k))).mul(A)
                        h = sum_over(prod, kn, d).mul(Rq).sub(ez(fi.sub(y)).mul(Rq))
                        if on is not None and on in bnames:
                            h = sum_over(h, on, d)
                        for n, dd in rb:
                            h = sum_over(h, n, dd)
                        out[h.key()] = h
                    if len(out) > limit:
                        return list(out.values())
    return list(out.values())


def _subst_atom(a, s):
    r = Poly.of_atom(a).subst(s)
    (m, c), = r.t.items()
    if c != 1 or m[0] or len(m[1]) != 1 or m[1][0][1] != 1:
        raise Unsupported('renaming')
    return m[1][0][0]


def _iv_of(p):
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and not m[0] and len(m[1]) == 1 and m[1][0][1] == 1 and m[1][0][0].kind == 'iv':
            return m[1][0][0].data[0]
    return None


def instantiate(h, frees):
    """h: Poly = 0 for all its free ivs; instances at the goal's free ivs"""
    fv = [n for n in h.ivs() if not n.startswith('@')]
    insts = [{}]
    for n in fv:
        d = tm.IVDIM.get(n)
        nxt = []
        for s in insts:
            for fn, fd in frees:
                if fd == d:
                    t = dict(s)
                    t[n] = Poly.of_atom(Atom('iv', (fn,)))
                    nxt.append(t)
        insts = nxt
    return [h.subst(s) for s in insts]


# ------------------------------------------------------------------ obligations
class Result:
    def __init__(self, status, how='', detail='', residual=None, case=None):
        self.status = status        # 'proved' | 'failed' | 'unknown'
        self.how = how
        self.detail = detail
        self.residual = residual
        self.case = case or []


def prove_zero(d, hyps=(), facts=(), depth=0, deadline=None, dec=()):
    """prove d == 0 under hyps (equations) and facts (0/1 Polys)"""
    ref = max(_scale(d), 1e-300)
    d = prune(d, ref) if depth else d
    if not d.t:
        STATS['nf'] += 1
        return Result('proved', 'nf')
    if deadline and time.time() > deadline:
        return Result('unknown', 'time')
    if depth == 0 and hyps:
        # hypotheses hold for all elements: take their instances at the goal's indices
        frees = [(x, tm.IVDIM.get(x)) for x in d.ivs() if tm.IVDIM.get(x) is not None]
        hi = {}
        for h in hyps:
            for q in instantiate(h, frees):
                if q.t:
                    hi[q.key()] = q
        hyps = list(hi.values())
        res, used = in_span(d, hyps)
        if not res.t:
            STATS['linear'] += 1
            return Result('proved', 'linear')
    # case split over indicators
    bs = tm.top_bools(d)
    for h in hyps:
        for a in tm.top_bools(h):
            if a not in bs:
                bs.append(a)
    free_b = [a for a in bs]
    if free_b:
        a = min(free_b, key=lambda x: (_bdepth(x), x.key))
        pa = Poly.of_atom(a)
        for val in (1, 0):
            f = pa if val else b_not(pa)
            if not feasible(list(facts) + [f]):
                continue
            STATS['cases'] += 1
            dd = tm.cofactor(d, a, val)
            sub = {}
            if a.kind == 'ez' and val:
                dd, hh = _use_eq(a, dd, [tm.cofactor(h, a, val) for h in hyps])
            else:
                hh = [tm.cofactor(h, a, val) for h in hyps]
            r = prove_zero(dd, hh, list(facts) + [f], depth + 1, deadline, tuple(dec) + ((a, val),))
            if r.status != 'proved':
                r.case = [(a.key, val)] + r.case
                return r
        return Result('proved', 'cases')
    n = clear_denominators(d)
    n = prune(n, max(_scale(n), 1e-300) if n.t else 1)
    if is_zero(n, max(_scale(d), 1e-300)) or not n.t:
        STATS['nf'] += 1
        return Result('proved', 'nf')
    if tm.top_bools(n):
        return prove_zero(n, hyps, facts, depth + 1, deadline, dec)
    frees = [(x, tm.IVDIM.get(x)) for x in n.ivs() if tm.IVDIM.get(x) is not None]
    for h in hyps:
        for x in h.ivs():
            pass
    hs = []
    for h in hyps:
        for hi in instantiate(h, frees):
            hs.append(clear_denominators(hi))
    hs += [clear_denominators(h) for h in inverse_hyps(n, frees)]
    if hs:
        # hypotheses themselves may mention inverses
        extra = []
        for h in hs[:200]:
            extra += [clear_denominators(x) for x in inverse_hyps(h, frees)]
        seen = {h.key() for h in hs}
        for h in extra:
            if h.key() not in seen:
                seen.add(h.key())
                hs.append(h)
        # the case's decisions hold in the instantiated hypotheses too
        for a, val in dec:
            hs = [tm.cofactor(h, a, val) for h in hs]
        hs = [h for h in hs if h.t]
        mult = []
        res, used = in_span(n, hs)
        if not res.t:
            STATS['linear'] += 1
            return Result('proved', 'linear')
        # hypotheses multiplied by common monomials of the goal (cleared denominators)
        for h in hs:
            mult += _aligned(h, n)
        res2, used = in_span(n, hs + mult)
        if not res2.t:
            STATS['linear'] += 1
            return Result('proved', 'linear')
        n = res
    # z3
    if not any(m[0] for m in n.t) and len(n.t) < 60:
        q, s, z = _check(list(facts) + relevant(list(facts) + [n]) + [b_not(ez(n))], 4000)
        if q == z3.unsat:
            return Result('proved', 'z3')
        if q == z3.sat:
            return Result('failed', 'z3', tm._short(n.key()), n, [])
        return Result("failed", "residual", n.key()[:400], n)
    return Result("failed", "residual", n.key()[:400], n)


def _bdepth(a):
    return len(a.key)


def _use_eq(a, d, hyps):
    """under (p = 0): substitute index equalities / solve for an atom when linear"""
    p = a.data[0]
    for m, c in p.t.items():
        if len(m[1]) == 1 and not m[0] and m[1][0][1] == 1:
            x = m[1][0][0]
            if x.kind in ('iv', 'v'):
                t = Poly.of_atom(x).sub(p.scale(tm._div(1, c)))
                if x in t.atoms():
                    continue
                if x.kind == 'iv':
                    f = lambda q: q.subst({x.data[0]: t})
                else:
                    f = lambda q: replace_atom(q, x, t)
                return f(d), [f(h) for h in hyps]
    return d, hyps


def replace_atom(q, x, t):
    if x not in q.atoms():
        return q

    def g(a):
        if a is x:
            return t
        if a.kind == 'f' and any(x in p.atoms() for p in a.data[1]):
            return tm.mk_fn(a.data[0], [replace_atom(p, x, t) for p in a.data[1]])
        if a.kind == 'inv':
            return replace_atom(a.data[0], x, t).inverse()
        if a.kind == 'lt':
            return lt0(replace_atom(a.data[0], x, t))
        if a.kind == 'ez':
            return ez(replace_atom(a.data[0], x, t))
        if a.kind in ('v', 'b') and any(x in p.atoms() for p in a.data[1]):
            return Poly.of_atom(Atom(a.kind, (a.data[0], tuple(replace_atom(p, x, t) for p in a.data[1]))))
        return None
    r = ZERO
    for (bv, fs), c in q.t.items():
        if not any(x in tm_atoms(a) for a, p in fs):
            r = r.add(Poly({(bv, fs): c}))
        else:
            r = r.add(Poly({(bv, fs): c}).map_atoms(g))
    return r


def tm_atoms(a):
    acc = {}
    tm._collect(a, acc)
    return acc


def _aligned(h, n):
    """h times monomials so that one of its monomials equals one of n (free factors only)"""
    out = {}
    lead = max(h.t, key=lambda m: (len(m[0]), len(m[1]), tm._mkey(m)))
    free_l = {a: p for a, p in lead[1]}
    for m in list(n.t)[:200]:
        if len(m[0]) != len(lead[0]):
            continue
        bn = {b[0] for b in m[0]}
        q = {}
        ok = True
        d = dict(m[1])
        for a, p in d.items():
            e = p - free_l.get(a, 0)
            if e:
                if a.ivs & bn or e < 0:
                    ok = False
                    break
                q[a] = e
        if not ok or any(a not in d for a in free_l):
            continue
        if not q:
            continue
        mono = Poly(dict(tm._finish((), q)))
        k = mono.key()
        if k not in out:
            out[k] = h.mul(mono)
        if len(out) > 20:
            break
    return list(out.values())


def prove_bool(p, hyps=(), facts=(), deadline=None):
    """prove the 0/1-valued p is 1"""
    if p == P1:
        STATS['nf'] += 1
        return Result('proved', 'nf')
    # pure indicator reasoning
    q, s, z = _check(list(facts) + relevant(list(facts) + [p]) + [ez(h) for h in hyps if not any(m[0] for m in h.t)] + [b_not(p)], 8000)
    if q == z3.unsat:
        return Result('proved', 'z3')
    try:
        r = prove_zero(b_not(p), list(hyps), list(facts), 0, deadline)
        if r.status == 'proved':
            return r
    except Unsupported:
        pass
    if q == z3.sat:
        return Result('failed', 'z3', tm._short(b_not(p).key()), p)
    return Result('unknown', 'z3', 'unknown: ' + s.reason_unknown())
