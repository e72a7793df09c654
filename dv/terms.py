"""Normal forms for real-valued terms over symbolic arrays.

A Poly is a finite sum of monomials  c * Sum_{k1<d1, ...} prod(atom^p)  where every atom is an
uninterpreted real (element of an input array, function application, inverse of a non-monomial
polynomial, indicator of a condition, element of an inverse matrix).  Booleans are Polys with
values 0/1.  Integers (indices, dimensions) are Polys too.  Bound summation variables are renamed
canonically, so two Polys that are equal by ring laws, linearity of sums, renaming of bound
variables, elimination of Kronecker deltas and idempotence of indicators are syntactically equal.
"""
from fractions import Fraction
from itertools import permutations, count
import hashlib

TOL_PRUNE = 1e-11


class Unsupported(Exception):
    """the engine cannot interpret this construct (never an alarm)"""


_fresh = count()


def fresh_name(prefix='q'):
    return '%s!%d' % (prefix, next(_fresh))


# ------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ('kind', 'data', 'key', 'ivs', '_h')
    table = {}

    def __new__(cls, kind, data):
        key = _akey(kind, data)
        a = cls.table.get(key)
        if a is None:
            a = object.__new__(cls)
            a.kind = kind
            a.data = data
            a.key = key
            a.ivs = _aivs(kind, data)
            a._h = hash(key)
            cls.table[key] = a
        return a

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.key < o.key

    def __repr__(self):
        return self.key


BOOL_KINDS = ('lt', 'ez', 'en', 'b')


def _short(s):
    return s if len(s) <= 120 else s[:24] + '#' + hashlib.sha1(s.encode()).hexdigest()[:20]


def _akey(kind, data):
    if kind == 'iv':
        return data[0]
    if kind == 'v':
        return '%s[%s]' % (data[0], ','.join(p.key() for p in data[1])) if data[1] else data[0]
    if kind == 'b':
        return '?%s[%s]' % (data[0], ','.join(p.key() for p in data[1]))
    if kind == 'en':
        return '?%s[%s]=%s' % (data[0], ','.join(p.key() for p in data[1]), data[2])
    if kind == 'f':
        return _short('%s(%s)' % (data[0], ','.join(p.key() for p in data[1])))
    if kind == 'inv':
        return _short('inv(%s)' % data[0].key())
    if kind == 'lt':
        return _short('(%s<0)' % data[0].key())
    if kind == 'ez':
        return _short('(%s=0)' % data[0].key())
    if kind == 'mi':  # (Apoly over @r,@c ; dim ; i ; j)
        return 'Inv{%s}[%s,%s]' % (_short(data[0].key()), data[2].key(), data[3].key())
    raise AssertionError(kind)


def _aivs(kind, data):
    if kind == 'iv':
        return frozenset((data[0],))
    s = frozenset()
    if kind in ('v', 'b', 'en', 'f'):
        for p in data[1]:
            s |= p.ivs()
        return s
    if kind in ('inv', 'lt', 'ez'):
        return data[0].ivs()
    if kind == 'mi':
        return (data[0].ivs() - {'@r', '@c'}) | data[2].ivs() | data[3].ivs()


# dimensions of index variables: name -> Poly (free ivs keep the dim they range over)
IVDIM = {}


def new_iv(dim, prefix='i'):
    n = fresh_name(prefix)
    IVDIM[n] = dim
    return Poly.of_atom(Atom('iv', (n,)))


def _num(c):
    if isinstance(c, bool):
        return int(c)
    return c


def _cadd(a, b):
    s = a + b
    if s == 0:
        return 0
    if isinstance(s, float) and abs(s) <= TOL_PRUNE * max(abs(a), abs(b)):
        return 0
    return s


def _div(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return a / b
    r = Fraction(a) / Fraction(b)
    return int(r) if r.denominator == 1 else r


# a monomial: (bvs, factors); bvs: tuple of (name, dim Poly); factors: tuple of (Atom, power)
ONE = ((), ())


def _fkey(f):
    return f[0].key + '^' + str(f[1])


def _mkey(m):
    return '|'.join(b[0] + ':' + b[1].key() for b in m[0]) + ';' + '*'.join(_fkey(f) for f in m[1])


class Poly:
    __slots__ = ('t', '_key', '_ivs', '_ivl')

    def __init__(self, t):
        self.t = t
        self._key = None
        self._ivs = None

    # ---- constructors
    @staticmethod
    def const(c):
        c = _num(c)
        return Poly({ONE: c} if c != 0 else {})

    @staticmethod
    def of_atom(a, p=1):
        return Poly({((), ((a, p),)): 1})

    # ---- inspection
    def key(self):
        if self._key is None:
            parts = sorted((_mkey(m), m) for m in self.t)
            self._key = '+'.join('%s·%s' % (_cstr(self.t[m]), k) for k, m in parts) or '0'
        return self._key

    def ivs(self):
        if self._ivs is None:
            s = set()
            for (bv, fs) in self.t:
                f = set()
                for a, p in fs:
                    f |= a.ivs
                for n, d in bv:
                    f.discard(n)
                    f |= d.ivs()
                s |= f
            self._ivs = frozenset(s)
        return self._ivs

    def is_const(self):
        return not self.t or (len(self.t) == 1 and ONE in self.t)

    def const_val(self):
        return self.t.get(ONE, 0)

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Poly) and (self is o or self.key() == o.key())

    def __repr__(self):
        return self.key()

    # ---- ring
    def add(self, o):
        if not self.t:
            return o
        if not o.t:
            return self
        r = dict(self.t)
        for m, c in o.t.items():
            if m in r:
                s = _cadd(r[m], c)
                if s == 0:
                    del r[m]
                else:
                    r[m] = s
            else:
                r[m] = c
        return Poly(r)

    def neg(self):
        return Poly({m: -c for m, c in self.t.items()})

    def sub(self, o):
        return self.add(o.neg())

    def scale(self, k):
        if k == 0:
            return ZERO
        return Poly({m: c * k for m, c in self.t.items()})

    def mul(self, o):
        if not self.t or not o.t:
            return ZERO
        if o.is_const():
            return self.scale(o.const_val())
        if self.is_const():
            return o.scale(self.const_val())
        if len(self.t) * len(o.t) > 60000:
            raise Unsupported('expression too large')
        acc = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                for m, c in _mmul(m1, m2):
                    _acc(acc, m, c * c1 * c2)
        return Poly(acc)

    def powi(self, n):
        if n == 0:
            return P1
        if n < 0:
            return self.inverse().powi(-n)
        r = self
        for _ in range(n - 1):
            r = r.mul(self)
        return r

    def inverse(self):
        if not self.t:
            raise ZeroDivisionError('division by symbolic zero')
        r = shannon(self, _inv_or_zero)
        if r is not None:
            return r
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if not m[0]:
                r = Poly.const(_div(1, c))
                for a, p in m[1]:
                    r = r.mul(_atom_pow(a, -p))
                return r
        # split common monomial content: p = mono * q
        content, q = _content(self)
        if content is not None:
            return content.inverse().mul(q.inverse())
        # normalise the sign/scale by the leading coefficient
        lead = min(self.t, key=_mkey)
        c = self.t[lead]
        n = Poly({m: _div(v, c) for m, v in self.t.items()})
        return Poly.of_atom(Atom('inv', (n,))).scale(_div(1, c))

    # ---- substitution of index variables
    def subst(self, s):
        """s: dict iv name -> Poly (index term)"""
        if not (self.ivs() & s.keys()):
            return self
        acc = {}
        for m, c in self.t.items():
            for m2, c2 in _msubst(m, s):
                _acc(acc, m2, c * c2)
        return Poly(acc)

    # ---- map over atoms: f(atom)->Poly or None (unchanged); atoms with bound vars included
    def map_atoms(self, f):
        r = ZERO
        for (bv, fs), c in self.t.items():
            if bv:
                ren = {}
                nb = []
                for n, d in bv:
                    nn = fresh_name('m')
                    IVDIM[nn] = d
                    ren[n] = Poly.of_atom(Atom('iv', (nn,)))
                    nb.append((nn, d))
            term = Poly.const(c)
            for a, p in fs:
                if bv:
                    ap = _asubst(a, ren)
                    base = None
                    if len(ap.t) == 1:
                        (mm, cc), = ap.t.items()
                        if cc == 1 and not mm[0] and len(mm[1]) == 1 and mm[1][0][1] == 1:
                            base = mm[1][0][0]
                    if base is None:
                        q = ap
                    else:
                        q = f(base)
                        if q is None:
                            q = ap
                else:
                    q = f(a)
                    if q is None:
                        q = Poly.of_atom(a)
                term = term.mul(_apow(q, p))
            if bv:
                for nn, d in nb:
                    term = sum_over(term, nn, d)
            r = r.add(term)
        return r

    def atoms(self, acc=None):
        """all atoms, including nested ones"""
        acc = {} if acc is None else acc
        for (bv, fs) in self.t:
            for a, p in fs:
                _collect(a, acc)
            for n, d in bv:
                d.atoms(acc)
        return acc


def _collect(a, acc):
    if a in acc:
        return
    acc[a] = True
    if a.kind in ('v', 'b', 'en', 'f'):
        for p in a.data[1]:
            p.atoms(acc)
    elif a.kind in ('inv', 'lt', 'ez'):
        a.data[0].atoms(acc)
    elif a.kind == 'mi':
        a.data[0].atoms(acc)
        a.data[2].atoms(acc)
        a.data[3].atoms(acc)


def _inv_or_zero(p):
    if not p.t:
        # this case divides by zero: an arbitrary value (the divisor is reported as a side condition)
        return Poly.of_atom(Atom('v', ('div0', ())))
    return p.inverse()


def _cstr(c):
    if isinstance(c, float):
        return repr(float('%.12g' % c))
    return str(c)


def _acc(acc, m, c):
    if c == 0:
        return
    if m in acc:
        s = _cadd(acc[m], c)
        if s == 0:
            del acc[m]
        else:
            acc[m] = s
    else:
        acc[m] = c


def _gpow(q, p):
    raise Unsupported('general power')


def _content(poly):
    """common monomial factor of a polynomial without bound variables"""
    it = iter(poly.t)
    m0 = next(it)
    if m0[0]:
        common = None
    common = dict(m0[1]) if not m0[0] else {a: p for a, p in m0[1] if not (a.ivs & {b[0] for b in m0[0]})}
    for m in it:
        d = dict(m[1])
        bn = {b[0] for b in m[0]}
        common = {a: min(p, d[a]) for a, p in common.items() if a in d and not (a.ivs & bn)
                  and (p > 0) == (d[a] > 0)}
        if not common:
            return None, None
    common = {a: p for a, p in common.items() if a.kind not in BOOL_KINDS}
    if not common:
        return None, None
    c = Poly({((), tuple(sorted(common.items(), key=_fkey))): 1})
    q = poly.mul(c.inverse() if True else c)
    return c, q


def _atom_pow(a, p):
    if a.kind == 'inv' and p < 0:
        return a.data[0].powi(-p)
    if a.kind in BOOL_KINDS:
        return Poly.of_atom(a, 1 if p > 0 else -1)
    return Poly.of_atom(a, p)


ZERO = Poly({})
P1 = Poly({ONE: 1})


# ------------------------------------------------------------------ monomials
def _norm_factors(fs):
    """fs: dict atom->power. Returns list of (factors tuple, coef) after local rewriting, [] for zero.
    May return several monomials (e.g. sin^2 rewriting is done elsewhere)."""
    out = {}
    enums = {}
    for a, p in fs.items():
        if p == 0:
            continue
        if a.kind in BOOL_KINDS:
            if p < 0:
                out[a] = p
                continue
            p = 1
            if a.kind == 'en':
                k = (a.data[0], tuple(x.key() for x in a.data[1]))
                if enums.setdefault(k, a) is not a:
                    return None
        out[a] = p
    return out


def _mmul(m1, m2):
    b1, f1 = m1
    b2, f2 = m2
    if b1 and b2:
        # rename the second's bound variables apart
        ren = {}
        nb = []
        for n, d in b2:
            nn = fresh_name('b')
            ren[n] = Poly.of_atom(Atom('iv', (nn,)))
            IVDIM[nn] = d
            nb.append((nn, d))
        f2p = _factors_subst(f2, ren)
        b2 = tuple(nb)
        bv = b1 + b2
    elif b1 or b2:
        # avoid capture: a free iv of the other side never has a canonical bound name (β)
        bv = b1 + b2
        f2p = None
    else:
        bv = ()
        f2p = None
    d = dict(f1)
    if f2p is None:
        for a, p in f2:
            d[a] = d.get(a, 0) + p
        extra = None
    else:
        d2, coef = f2p
        for a, p in d2.items():
            d[a] = d.get(a, 0) + p
        if coef != 1:
            return [(m, c * coef) for m, c in _finish(bv, d)]
    return _finish(bv, d)


def _finish(bv, d):
    """canonical list of (mono, coef) for Sum_bv prod d"""
    d = _norm_factors(d)
    if d is None:
        return []
    # products inv(p) * ... handled at comparison time
    # delta on free indices: rewrite other factors to the smaller index
    eqs = [a for a in d if a.kind == 'ez' and d[a] > 0 and _is_index_eq(a)]
    if eqs:
        r = _apply_deltas(bv, d, eqs)
        if r is not None:
            return r
    # sqrt(x)^2 -> x ; sin^2 -> 1-cos^2
    for a, p in d.items():
        if a.kind == 'f' and abs(p) >= 2:
            if a.data[0] == 'sqrt' and isinstance(p, int):
                rest = dict(d)
                rest[a] = p - 2 * (p // 2 if p > 0 else -((-p) // 2))
                return _times(bv, rest, _ppow(a.data[1][0], (p // 2) if p > 0 else -((-p) // 2)))
            if a.data[0] == 'sin' and p >= 2:
                rest = dict(d)
                rest[a] = p - 2
                c = Poly.of_atom(Atom('f', ('cos', a.data[1])))
                return _times(bv, rest, P1.sub(c.mul(c)))
    fs = tuple(sorted(d.items(), key=_fkey))
    if not bv:
        return [(((), fs), 1)]
    return [(_canon(bv, fs), 1)]


def _ppow(p, n):
    return p.powi(n)


def _times(bv, d, poly):
    acc = {}
    base = Poly({((), ()): 1})
    for m, c in _finish((), {a: p for a, p in d.items() if p != 0}):
        for m2, c2 in poly.t.items():
            for m3, c3 in _mmul(m, m2):
                # re-attach bound variables
                for m4, c4 in _finish(bv + m3[0], dict(m3[1])):
                    _acc(acc, m4, c * c2 * c3 * c4)
    return list(acc.items())


def _is_index_eq(a):
    """ez atom over pure index terms"""
    p = a.data[0]
    for m in p.t:
        if m[0]:
            return False
        if len(m[1]) > 1:
            return False
        for x, q in m[1]:
            if q != 1 or x.kind not in ('iv', 'v'):
                return False
    return any(x.kind == 'iv' for m in p.t for x, q in m[1])


def _apply_deltas(bv, d, eqs):
    bnames = {n: dim for n, dim in bv}
    for a in eqs:
        p = a.data[0]
        # coefficients of ivs
        ivc = {}
        for m, c in p.t.items():
            if len(m[1]) == 1 and m[1][0][0].kind == 'iv':
                ivc[m[1][0][0].data[0]] = c
        # bound variable to eliminate?
        for n, c in ivc.items():
            if n in bnames and abs(c) == 1:
                t = Poly.of_atom(Atom('iv', (n,))).sub(p.scale(_div(1, c)))
                if n in t.ivs():
                    continue
                if not _in_range(t, bnames[n], bnames):
                    continue
                rest = {x: q for x, q in d.items() if x is not a}
                nbv = tuple(b for b in bv if b[0] != n)
                return _msubst_raw(nbv, rest, {n: t})
        # an element of an index array equal to another index term: rewrite the element
        arr = sorted((m[1][0][0] for m, c in p.t.items() if len(m[1]) == 1 and m[1][0][0].kind == 'v' and m[1][0][0].data[1]
                      and abs(c) == 1), key=lambda x: x.key)
        if arr:
            va = arr[-1]
            c = [c for m, c in p.t.items() if m[1] and m[1][0][0] is va][0]
            t = Poly.of_atom(va).sub(p.scale(_div(1, c)))
            if va not in t.atoms():
                hit = {}
                for x in d:
                    if x is not a and va in _collected(x) and va.ivs <= x.ivs:
                        y = replace_atom(Poly.of_atom(x), va, t)
                        if y != Poly.of_atom(x):
                            hit[x] = y
                if hit:
                    prod = P1
                    plain = {x: q for x, q in d.items() if x not in hit and x is not a}
                    for x in hit:
                        prod = prod.mul(_apow(hit[x], d[x]))
                    res = []
                    for m, c2 in prod.t.items():
                        dd = dict(plain)
                        dd[a] = 1
                        for x, q in m[1]:
                            dd[x] = dd.get(x, 0) + q
                        res += [(m3, c3 * c2) for m3, c3 in _finish(bv + m[0], dd)]
                    acc = {}
                    for m, c2 in res:
                        _acc(acc, m, c2)
                    return list(acc.items())
            continue
        # free: rewrite larger iv by the rest
        frees = sorted(n for n in ivc if n not in bnames)
        if frees:
            n = frees[-1]
            c = ivc[n]
            if abs(c) == 1:
                t = Poly.of_atom(Atom('iv', (n,))).sub(p.scale(_div(1, c)))
                if n not in t.ivs() and not (t.ivs() & bnames.keys()):
                    rest = {x: q for x, q in d.items() if x is not a}
                    if any(n in x.ivs for x in rest):
                        res = []
                        for m, c2 in _msubst_raw(bv, rest, {n: t}):
                            dd = dict(m[1])
                            dd[a] = 1
                            res += [(m3, c3 * c2) for m3, c3 in _finish(m[0], dd)]
                        return res
    return None


_coll_cache = {}


def _collected(a):
    r = _coll_cache.get(a)
    if r is None:
        acc = {}
        _collect(a, acc)
        if len(_coll_cache) > 200000:
            _coll_cache.clear()
        r = _coll_cache[a] = frozenset(acc)
    return r


def _apow(q, p):
    if isinstance(p, int):
        return q.powi(p) if p >= 0 else q.inverse().powi(-p)
    return _gpow(q, p)


def replace_atom(p, old, new):
    """p with every occurrence of the atom (nested ones included) replaced"""
    def f(a):
        if a is old:
            return new
        if old not in _collected(a) or not old.ivs <= a.ivs:
            return None
        k, d = a.kind, a.data
        rep = lambda x: replace_atom(x, old, new)
        if k in ('v', 'b'):
            return Poly.of_atom(Atom(k, (d[0], tuple(map(rep, d[1])))))
        if k == 'en':
            return Poly.of_atom(Atom(k, (d[0], tuple(map(rep, d[1])), d[2])))
        if k == 'f':
            return mk_fn(d[0], [rep(x) for x in d[1]])
        if k == 'inv':
            return rep(d[0]).inverse()
        if k == 'lt':
            return lt0(rep(d[0]))
        if k == 'ez':
            return ez(rep(d[0]))
        if k == 'mi':
            return Poly.of_atom(Atom('mi', (rep(d[0]), d[1], rep(d[2]), rep(d[3]))))
        raise AssertionError(k)
    return p.map_atoms(f)


def _in_range(t, dim, bnames):
    """is index term t known to lie in range(dim)?"""
    if t.is_const():
        v = t.const_val()
        if dim.is_const():
            return 0 <= v < dim.const_val()
        return v == 0 and dim.key() in NONEMPTY or (v >= 0 and ('%d<%s' % (v, dim.key())) in FACTS)
    if len(t.t) == 1:
        (m, c), = t.t.items()
        if c == 1 and not m[0] and len(m[1]) == 1 and m[1][0][1] == 1:
            a = m[1][0][0]
            if a.kind == 'iv':
                d2 = bnames.get(a.data[0]) or IVDIM.get(a.data[0])
                return d2 is not None and d2 == dim
            if a.kind == 'v':
                return ('rng', a.data[0], dim.key()) in FACTS
    return False


NONEMPTY = set()
FACTS = set()


def _factors_subst(fs, s):
    """returns (dict, coef) if all atoms substitute to single atoms, else raises"""
    d = {}
    coef = 1
    for a, p in fs:
        if a.ivs & s.keys():
            q = _asubst(a, s)
            if len(q.t) == 1:
                (m, c), = q.t.items()
                if not m[0] and len(m[1]) == 1:
                    a2, p2 = m[1][0]
                    d[a2] = d.get(a2, 0) + p * p2
                    coef = coef * c ** p
                    continue
            raise Unsupported('complex rename')
        d[a] = d.get(a, 0) + p
    return d, coef


def _msubst(m, s):
    bv, fs = m
    if bv:
        names = {b[0] for b in bv}
        s = {k: v for k, v in s.items() if k not in names}
        used = set()
        for v in s.values():
            used |= v.ivs()
        if names & used or True:
            ren = {}
            nb = []
            for n, d in bv:
                nn = fresh_name('b')
                d2 = d.subst(s)
                IVDIM[nn] = d2
                ren[n] = Poly.of_atom(Atom('iv', (nn,)))
                nb.append((nn, d2))
            s = dict(s)
            s.update(ren)
            bv = tuple(nb)
    return _msubst_raw(bv, dict(fs), s)


def _msubst_raw(bv, d, s):
    """substitute in the factors (bound names bv are kept)"""
    prod = P1
    plain = {}
    for a, p in d.items():
        if a.ivs & s.keys():
            q = _asubst(a, s)
            if isinstance(p, int):
                if p < 0:
                    q = q.inverse().powi(-p)
                elif p > 1:
                    q = q.powi(p)
            prod = prod.mul(q)
        else:
            plain[a] = plain.get(a, 0) + p
    acc = {}
    for m, c in prod.t.items():
        dd = dict(plain)
        for a, p in m[1]:
            dd[a] = dd.get(a, 0) + p
        for m2, c2 in _finish(bv + m[0], dd):
            _acc(acc, m2, c * c2)
    return list(acc.items())


_sub_cache = {}


def _asubst(a, s):
    rel = tuple(sorted((k, s[k].key()) for k in a.ivs if k in s))
    if not rel:
        return Poly.of_atom(a)
    ck = (a, rel)
    r = _sub_cache.get(ck)
    if r is None:
        r = _asubst0(a, {k: s[k] for k, _ in rel})
        if len(_sub_cache) > 400000:
            _sub_cache.clear()
        _sub_cache[ck] = r
    return r


def _asubst0(a, s):
    k, d = a.kind, a.data
    if k == 'iv':
        return s[d[0]]
    if k in ('v', 'b'):
        return Poly.of_atom(Atom(k, (d[0], tuple(p.subst(s) for p in d[1]))))
    if k == 'en':
        return Poly.of_atom(Atom(k, (d[0], tuple(p.subst(s) for p in d[1]), d[2])))
    if k == 'f':
        return mk_fn(d[0], [p.subst(s) for p in d[1]])
    if k == 'inv':
        return d[0].subst(s).inverse()
    if k == 'lt':
        return lt0(d[0].subst(s))
    if k == 'ez':
        return ez(d[0].subst(s))
    if k == 'mi':
        s0 = {n: v for n, v in s.items() if n not in ('@r', '@c')}
        if any(n in d[0].ivs() and v.ivs() & {'@r', '@c'} for n, v in s0.items()):
            raise Unsupported('inverse of a matrix depending on an index of an enclosing inverse')
        return Poly.of_atom(Atom('mi', (d[0].subst(s0), d[1].subst(s), d[2].subst(s), d[3].subst(s))))
    raise AssertionError


def _canon(bv, fs):
    """canonical renaming of bound variables"""
    names = [b[0] for b in bv]
    nset = set(names)
    free = set()
    for a, p in fs:
        free |= a.ivs
    used = free & nset
    free -= nset
    # bound variables that do not occur: Sum_{k<d} 1 = d is handled in sum_over; keep here
    pool = []
    k = 0
    while len(pool) < len(bv):
        nm = 'β%d' % k
        if nm not in free:
            pool.append(nm)
        k += 1
    if len(bv) == 1:
        groups = [[bv[0]]]
        cands = [(bv[0],)]
    else:
        def sig(b):
            return (b[1].key(), sorted(_mask(a, b[0], nset) + '^' + str(p) for a, p in fs if b[0] in a.ivs))
        sb = sorted(((sig(b), b) for b in bv), key=lambda x: x[0])
        groups = []
        last = None
        for sg, b in sb:
            if sg == last:
                groups[-1].append(b)
            else:
                groups.append([b])
                last = sg
        cands = [()]
        for g in groups:
            cands = [c + p for c in cands for p in (permutations(g) if len(g) <= 4 else [tuple(g)])]
    best = None
    for c in cands:
        ren = {b[0]: Poly.of_atom(Atom('iv', (pool[i],))) for i, b in enumerate(c) if b[0] != pool[i]}
        # simultaneous renaming is safe: _asubst is simultaneous
        d, coef = _factors_subst(fs, ren) if ren else (dict(fs), 1)
        if coef != 1:
            raise Unsupported('sign change under renaming')
        f2 = tuple(sorted(d.items(), key=_fkey))
        b2 = tuple((pool[i], b[1]) for i, b in enumerate(c))
        m = (b2, f2)
        if len(cands) == 1:
            return m
        k = _mkey(m)
        if best is None or k < best[0]:
            best = (k, m)
    return best[1]


_mask_cache = {}


def _mask(a, n, nset):
    ck = (a, n, tuple(sorted(a.ivs & nset)))
    r = _mask_cache.get(ck)
    if r is None:
        s = {x: Poly.of_atom(Atom('iv', ('⊙' if x == n else '·',))) for x in a.ivs & nset}
        r = _asubst(a, s).key()
        _mask_cache[ck] = r
    return r


def sum_over(poly, name, dim):
    """Sum_{name in range(dim)} poly"""
    acc = {}
    for (bv, fs), c in poly.t.items():
        if any(name in a.ivs for a, p in fs) or any(name in b[1].ivs() for b in bv):
            if any(name in b[1].ivs() for b in bv):
                raise Unsupported('dependent summation range')
            for m2, c2 in _finish(bv + ((name, dim),), dict(fs)):
                _acc(acc, m2, c * c2)
        else:
            for m2, c2 in Poly({(bv, fs): 1}).mul(dim).t.items():
                _acc(acc, m2, c * c2)
    return Poly(acc)


# ------------------------------------------------------------------ conditions and functions
def _scale_norm(p):
    """(p/|lead|, sign) with lead the canonically first monomial"""
    lead = min(p.t, key=_mkey)
    c = p.t[lead]
    ac = abs(c)
    q = p if ac == 1 else Poly({m: _div(v, ac) for m, v in p.t.items()})
    return q, (1 if c > 0 else -1)


def _drop_positive_factor(p):
    """p divided by the factors all its monomials share that are certainly positive (same sign and zeros)"""
    if len(p.t) < 1 or p.is_const():
        return p
    common = None
    for (bv, fs) in p.t:
        bn = {b[0] for b in bv}
        d = {a: q for a, q in fs if not (a.ivs & bn)}
        if common is None:
            common = d
        else:
            common = {a: (min(q, d[a]) if q > 0 else max(q, d[a])) for a, q in common.items()
                      if a in d and (q > 0) == (d[a] > 0)}
        if not common:
            return p
    out = []
    for a, q in common.items():
        x = _atom_interval(a, 1)
        if x[0] > 0 or (x[0] == 0 and x[1]):
            out.append((a, -q))
    if not out:
        return p
    return p.mul(Poly(dict(_finish((), dict(out)))))


SHANNON = 7


def top_bools(p):
    """indicator atoms of p that do not depend on a bound variable"""
    r = {}
    for (bv, fs) in p.t:
        bn = {b[0] for b in bv}
        for a, q in fs:
            if a.kind in BOOL_KINDS and not (a.ivs & bn):
                r[a] = True
    return list(r)


def cofactor(p, a, val):
    """p with the indicator a set to 0/1 (siblings of an enumeration atom become 0)"""
    acc = {}
    for (bv, fs), c in p.t.items():
        keep = []
        dead = False
        for x, q in fs:
            if x is a:
                if val == 0:
                    dead = True
                    break
                continue
            if val == 1 and x.kind == 'en' and a.kind == 'en' and x.data[0] == a.data[0] and x.data[1] == a.data[1]:
                dead = True
                break
            keep.append((x, q))
        if not dead:
            if len(keep) == len(fs):
                _acc(acc, (bv, fs), c)
            else:
                for m, c2 in _finish(bv, dict(keep)):
                    _acc(acc, m, c * c2)
    return Poly(acc)


def shannon(p, f):
    """f applied under a case split over the indicators of p, or None when there are none / too many"""
    bs = top_bools(p)
    if not bs or len(bs) > SHANNON:
        return None
    a = min(bs, key=lambda x: x.key)
    t, e = f(cofactor(p, a, 1)), f(cofactor(p, a, 0))
    return ite(Poly.of_atom(a), t, e)


# declared ranges of input variables: name -> (lo, lo_strict, hi, hi_strict)
BOUNDS = {}
_INF = float('inf')


def _imul(a, b):
    """product of intervals (lo, lo_strict, hi, hi_strict); 0*inf = 0 (attained unless the zero end is strict)"""
    c = []
    for x, xs in ((a[0], a[1]), (a[2], a[3])):
        for y, ys in ((b[0], b[1]), (b[2], b[3])):
            if x == 0 or y == 0:
                st = (xs if x == 0 else True) and (ys if y == 0 else True)
                c.append((0, st))
            else:
                c.append((x * y, xs or ys))
    lo = min(v for v, q in c)
    hi = max(v for v, q in c)
    return lo, all(q for v, q in c if v == lo), hi, all(q for v, q in c if v == hi)


def _atom_interval(a, p):
    k = a.kind
    if k in BOOL_KINDS:
        return (0, False, 1, False) if p > 0 else (-_INF, True, _INF, True)
    if k == 'iv':
        d = IVDIM.get(a.data[0])
        r = (0, False, float(d.const_val()) - 1, False) if d is not None and d.is_const() else (0, False, _INF, True)
    elif k == 'v':
        r = BOUNDS.get(a.data[0])
        if r is None:
            r = (-_INF, True, _INF, True)
    elif k == 'f':
        n = a.data[0]
        if n == 'exp':
            r = (0, True, _INF, True)
        elif n == 'sqrt':
            x = interval(a.data[1][0])
            r = (0, x[0] > 0 or (x[0] == 0 and x[1]), _INF, True)
        elif n in ('sin', 'cos'):
            r = (-1, False, 1, False)
            x = interval(a.data[1][0])
            if n == 'cos' and -1.5707963267948966 <= x[0] and x[2] <= 1.5707963267948966:
                r = (0, True, 1, False)
            elif n == 'sin' and x[0] >= 0 and x[2] <= 3.141592653589793:
                r = (0, x[0] > 0 or x[1], 1, False)
        elif n == 'acos':
            r = (0, False, 3.1415926535897936, False)
        elif n in ('asin', 'atan'):
            r = (-1.5707963267948968, False, 1.5707963267948968, False)
        elif n == 'pow':
            x = interval(a.data[1][0])
            r = (0, x[0] > 0 or (x[0] == 0 and x[1]), _INF, True) if x[0] >= 0 else (-_INF, True, _INF, True)
        else:
            r = (-_INF, True, _INF, True)
    elif k == 'inv':
        x = interval(a.data[0])
        if x[0] > 0 or (x[0] == 0 and x[1]):
            r = (0 if x[2] == _INF else 1.0 / x[2], True if x[2] == _INF else x[3],
                 _INF if x[0] == 0 else 1.0 / x[0], True if x[0] == 0 else x[1])
        elif x[2] < 0 or (x[2] == 0 and x[3]):
            r = (-_INF if x[2] == 0 else 1.0 / x[2], True, 0, True)
        else:
            r = (-_INF, True, _INF, True)
    else:
        r = (-_INF, True, _INF, True)
    if not isinstance(p, int):
        return (-_INF, True, _INF, True)
    q = r
    if p < 0:
        if q[0] > 0 or (q[0] == 0 and q[1]):
            q = (0, True, _INF if q[0] == 0 else 1.0 / q[0], q[0] == 0 or q[1])
        elif p % 2 == 0:
            return (0, True, _INF, True)
        else:
            return (-_INF, True, _INF, True)
    n = abs(p)
    if n % 2 == 0 and q[0] < 0 < q[2]:
        m = max(-q[0], q[2])
        return (0, False, m ** n if m != _INF else _INF, False if m != _INF else True)
    out = q
    for _ in range(n - 1):
        out = _imul(out, q)
    return out


def interval(p):
    """certain enclosure of a Poly under the declared ranges"""
    r = getattr(p, '_ivl', None)
    if r is not None and r[0] == len(BOUNDS):
        return r[1]
    lo, ls, hi, hs = 0, False, 0, False
    groups = {}
    for (bv, fs), c in p.t.items():
        if bv and any(a.kind in BOOL_KINDS for a, q in fs):
            groups.setdefault(bv, {})[(), fs] = c
    for (bv, fs), c in p.t.items():
        if bv in groups:
            groups[bv][(), fs] = c
    groups = {bv: d for bv, d in groups.items() if 1 < len(d) < 40}
    done = set()
    for (bv, fs), c in p.t.items():
        if bv in groups:
            if bv in done:
                continue
            done.add(bv)
            x, c = _cases_interval(Poly({m: c2 for m, c2 in groups[bv].items()}), 4), 1
            fs = ()
        else:
            x = (1, False, 1, False)
        for a, q in fs:
            x = _imul(x, _atom_interval(a, q))
        if bv:
            # an empty or a long sum
            x = (0 if x[0] >= 0 else -_INF, x[0] < 0 or ((x[0] > 0 or x[1]) and _nonempty(bv)),
                 0 if x[2] <= 0 else _INF, x[2] > 0 or ((x[2] < 0 or x[3]) and _nonempty(bv)))
        x = _imul(x, (c, False, c, False))
        lo, ls = (lo + x[0], ls or x[1]) if lo != -_INF and x[0] != -_INF else (-_INF, True)
        hi, hs = (hi + x[2], hs or x[3]) if hi != _INF and x[2] != _INF else (_INF, True)
        if lo == -_INF and hi == _INF:
            break
    try:
        p._ivl = (len(BOUNDS), (lo, ls, hi, hs))
    except AttributeError:
        pass
    return lo, ls, hi, hs


def _cases_interval(p, n):
    """enclosure by cases of the indicators"""
    bs = top_bools(p) if n else ()
    if not bs:
        return interval(p)
    a = min(bs, key=lambda x: x.key)
    x, y = _cases_interval(cofactor(p, a, 1), n - 1), _cases_interval(cofactor(p, a, 0), n - 1)
    lo, hi = min(x[0], y[0]), max(x[2], y[2])
    return lo, all(v[1] for v in (x, y) if v[0] == lo), hi, all(v[3] for v in (x, y) if v[2] == hi)


def _nonempty(bv):
    return all(d.key() in NONEMPTY or (d.is_const() and d.const_val() > 0) for n, d in bv)


def lt0(p):
    """indicator of p < 0"""
    if p.is_const():
        return P1 if p.const_val() < 0 else ZERO
    x = interval(p)
    if x[0] >= 0:
        return ZERO
    if x[2] < 0 or (x[2] == 0 and x[3]):
        return P1
    r = shannon(p, lt0)
    if r is not None:
        return r
    n = _drop_positive_factor(p)
    if n is not p and n != p:
        return lt0(n)
    r = _arc(p)
    if r is not None:
        return lt0(r[1].sub(r[2]).scale(r[0]))
    if len(p.t) >= 2:
        # x q < 0 with x >= 0:  x is not 0 and q < 0
        common = None
        for (bv, fs) in p.t:
            bn = {b[0] for b in bv}
            d = {a for a, q in fs if q == 1 and a.kind not in BOOL_KINDS and not (a.ivs & bn)}
            common = d if common is None else common & d
        for a in sorted(common, key=lambda a: a.key):
            if _atom_interval(a, 1)[0] >= 0:
                acc = {}
                for (bv, fs), c in p.t.items():
                    for m, c2 in _finish(bv, {x: q for x, q in fs if x is not a}):
                        _acc(acc, m, c * c2)
                return P1.sub(ez(Poly.of_atom(a))).mul(lt0(Poly(acc)))
    q, s = _scale_norm(p)
    # p<0 with leading coefficient negative:  p<0  <=>  -p>0  <=> not(-p<=0) <=> not(-p<0 or -p=0)
    return Poly.of_atom(Atom('lt', (q,)))


def ez(p):
    if p.is_const():
        return P1 if p.const_val() == 0 else ZERO
    x = interval(p)
    if x[0] > 0 or (x[0] == 0 and x[1]) or x[2] < 0 or (x[2] == 0 and x[3]):
        return ZERO
    r = shannon(p, ez)
    if r is not None:
        return r
    n = _drop_positive_factor(p)
    if n is not p and n != p:
        return ez(n)
    r = _arc(p)
    if r is not None:
        return ez(r[1].sub(r[2]))
    q, s = _scale_norm(p)
    if s < 0:
        q = q.neg()
    # index equalities out of range / different constants
    return Poly.of_atom(Atom('ez', (q,)))


def _arc(p):
    """s, u, v for p = s * (arcsin u + const) with arcsin u = -const exactly where u = v; arccos likewise with s negated (None otherwise)"""
    import math
    if not 1 <= len(p.t) <= 2:
        return None
    at, k = None, 0
    for m, c in p.t.items():
        if m == ONE:
            k = c
        elif not m[0] and len(m[1]) == 1 and m[1][0][1] == 1 and m[1][0][0].kind == 'f' and m[1][0][0].data[0] in ('asin', 'acos'):
            at, q = m[1][0][0], c
        else:
            return None
    if at is None:
        return None
    fn, (u,) = at.data
    w = -float(k) / float(q)
    if fn == 'asin' and abs(w) <= math.pi / 2 or fn == 'acos' and 0 <= w <= math.pi:
        DOMAINS['unit', u.key()] = u
        v = (math.sin if fn == 'asin' else math.cos)(w)
        for e in (-1, 0, 1):
            if abs(v - e) < 1e-15:
                v = e
        return (1 if q > 0 else -1) * (1 if fn == 'asin' else -1), u, Poly.const(v)
    return None


def le0(p):
    """p <= 0  :=  not (0 < p)"""
    return P1.sub(lt0(p.neg()))


def b_not(p):
    return P1.sub(p)


def b_or(a, b):
    return a.add(b).sub(a.mul(b))


def ite(c, a, b):
    if c.is_const():
        return a if c.const_val() != 0 else b
    if a == b:
        return a
    return c.mul(a).add(P1.sub(c).mul(b))


NONNEG_FN = {'exp', 'sqrt'}


def mk_fn(name, args):
    import math
    if all(p.is_const() for p in args):
        v = [float(p.const_val()) for p in args]
        try:
            f = {'exp': math.exp, 'log': math.log, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan,
                 'sqrt': math.sqrt, 'asin': math.asin, 'acos': math.acos, 'atan': math.atan,
                 'atan2': math.atan2, 'pow': math.pow, 'log10': math.log10,
                 'floor': math.floor, 'ceil': math.ceil}.get(name)
            if f:
                r = f(*v)
                if name in ('sin', 'cos') and abs(r) < 1e-15:
                    r = 0
                if isinstance(r, complex):
                    raise Unsupported('complex')
                return Poly.const(r)
        except (ValueError, OverflowError):
            pass
    for k, x in enumerate(args):
        r = shannon(x, lambda y: mk_fn(name, list(args[:k]) + [y] + list(args[k + 1:])))
        if r is not None:
            return r
    if name == 'floor':
        r = _floor(args[0])
        if r is not None:
            return r
    if name == 'tan':
        c = mk_fn('cos', args)
        DOMAINS['nonzero', c.key()] = c
        return mk_fn('sin', args).mul(c.inverse())
    if name in ('sin', 'cos'):
        r = _trig(name, args[0])
        if r is not None:
            return r
    if name in ('sin', 'asin', 'atan') and args[0].t:
        q, s = _scale_norm(args[0])
        if s < 0:
            return Poly.of_atom(Atom('f', (name, (args[0].neg(),)))).neg()
    if name == 'cos':
        q, s = _scale_norm(args[0])
        if s < 0:
            args = [args[0].neg()]
    return Poly.of_atom(Atom('f', (name, tuple(args))))


# arguments of arccos / arcsin assumed to lie within [-1, 1] where their cosine / sine is taken
DOMAINS = {}


INTVARS = set()


def _integral(m):
    """monomial that is an integer"""
    bv, fs = m
    return all(q == int(q) and q > 0 and (a.kind == 'iv' or a.kind in BOOL_KINDS or a.kind == 'f' and a.data[0] in ('floor', 'ceil', 'trunc')
                                          or a.kind == 'v' and a.data[0] in INTVARS) for a, q in fs) and not bv


def _floor(x):
    """integers move out of floor; a remainder known to lie within one unit disappears"""
    import math
    out, rest = {}, {}
    for m, c in x.t.items():
        if m == ONE:
            k = math.floor(c + 1e-12)
            if k:
                out[m] = k
            if abs(c - k) > 1e-12:
                rest[m] = c - k
        elif c == int(c) and _integral(m):
            out[m] = c
        else:
            rest[m] = c
    if not rest:
        return Poly(out)
    r = Poly(rest)
    i = interval(r)
    if i[0] >= 0 and (i[2] < 1 or i[2] == 1 and i[3]):
        return Poly(out)
    if out:
        return Poly(out).add(mk_fn('floor', [r]))
    return None


def _trig(name, x):
    """sin / cos of inverse functions and of sums"""
    if len(x.t) == 1:
        (m, c), = x.t.items()
        if not m[0] and len(m[1]) == 1 and m[1][0][1] == 1 and m[1][0][0].kind == 'f' and c in (1, -1):
            fn, fa = m[1][0][0].data
            if fn in ('acos', 'asin'):
                DOMAINS['unit', fa[0].key()] = fa[0]
                if (fn == 'acos') == (name == 'cos'):
                    r = fa[0]
                else:
                    r = mk_fn('sqrt', [P1.sub(fa[0].mul(fa[0]))])
            elif fn == 'atan2':
                from .prover import clear_denominators
                d = fa[0].mul(fa[0]).add(fa[1].mul(fa[1]))
                d = P1 if not clear_denominators(d.sub(P1)).t else mk_fn('sqrt', [d])
                r = (fa[0] if name == 'sin' else fa[1]).mul(d.inverse())
            elif fn == 'atan':
                d = mk_fn('sqrt', [P1.add(fa[0].mul(fa[0]))])
                r = (fa[0] if name == 'sin' else P1).mul(d.inverse())
            else:
                return None
            return r.neg() if name == 'sin' and c == -1 else r
        return None
    if 2 <= len(x.t) <= 4:
        m = min(x.t, key=_mkey)
        if m[0]:
            return None
        a = Poly({m: x.t[m]})
        b = Poly({k: c for k, c in x.t.items() if k != m})
        sa, ca, sb, cb = mk_fn('sin', [a]), mk_fn('cos', [a]), mk_fn('sin', [b]), mk_fn('cos', [b])
        return sa.mul(cb).add(ca.mul(sb)) if name == 'sin' else ca.mul(cb).sub(sa.mul(sb))
    return None


def var(name, *idx):
    return Poly.of_atom(Atom('v', (name, tuple(idx))))


def boolvar(name, *idx):
    return Poly.of_atom(Atom('b', (name, tuple(idx))))
