"""Symbolic values and a numpy/math look-alike: the interpretation domain of the verifier.

CPython executes the *real* source of /repo; only the values are symbolic.  A tensor T keeps an
object ndarray whose axes are either concrete or of length one and marked symbolic (index
variable, dimension): the entry is then the generic element of the array, for an unbounded
dimension.
"""
import math as _math
import operator
import weakref
import numpy as rnp
from fractions import Fraction
from . import terms as tm
from .terms import cofactor, Poly, Atom, Unsupported, ZERO, P1, new_iv, sum_over, ite, lt0, ez, le0, b_not, b_or, mk_fn

_EnumBase = __import__('enum').Enum


# ------------------------------------------------------------------ path exploration
class _Ctx:
    def __init__(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.pc = []
        self.alts = []


_ctx = []
FEASIBLE = None          # set by prover: FEASIBLE(list of bool Polys) -> False only if certainly infeasible
LIMIT = 4096


ACTIVE = set()             # index variables of the elements being evaluated


def decide(p):
    """branch on the 0/1-valued Poly p"""
    if p.is_const():
        return p.const_val() != 0
    if not _ctx:
        raise Unsupported('branch on a symbolic condition outside exploration: %s' % tm._short(p.key()))
    iv = p.ivs()
    if iv and any(n not in ACTIVE and not n.startswith('@') for n in iv):
        raise Unsupported('branch on an element outside the evaluation of elements: %s' % tm._short(p.key()))
    c = _ctx[-1]
    allpc = [q for x in _ctx for q in x.pc]
    for q in allpc:
        if q == p:
            return True
        if q == b_not(p):
            return False
    k = len(c.taken)
    if k < len(c.prefix):
        d = c.prefix[k]
    else:
        t_ok = FEASIBLE is None or FEASIBLE(allpc + [p]) is not False
        f_ok = FEASIBLE is None or FEASIBLE(allpc + [b_not(p)]) is not False
        if t_ok and not f_ok:
            c.taken.append(True)
            return True
        if f_ok and not t_ok:
            c.taken.append(False)
            return False
        if not t_ok:
            raise Infeasible()
        d = True
        c.alts.append(c.taken + [False])
    c.taken.append(d)
    c.pc.append(p if d else b_not(p))
    return d


def given(p):
    """go on under the condition p only"""
    c = _ctx[-1]
    allpc = [q for x in _ctx for q in x.pc]
    if p == P1 or p in allpc:
        return
    if FEASIBLE is not None and FEASIBLE(allpc + [p]) is False:
        raise Infeasible()
    c.pc.append(p)


class Infeasible(Exception):
    pass


def explore(fn):
    """all paths of fn(): list of (path condition list, 'ret'|'exc', value)"""
    out = []
    stack = [[]]
    while stack:
        pre = stack.pop()
        c = _Ctx(pre)
        _ctx.append(c)
        try:
            try:
                v = fn()
                out.append((list(c.pc), 'ret', v))
            except Infeasible:
                pass
            except Unsupported:
                raise
            except Exception as e:  # the program's own exception
                out.append((list(c.pc), 'exc', e))
        finally:
            _ctx.pop()
        stack.extend(c.alts)
        if len(out) > LIMIT:
            raise Unsupported('too many paths')
    return out


def conj(ps):
    r = P1
    for p in ps:
        r = r.mul(p)
    return r


def merged(fn):
    """evaluate fn symbolically, merging its paths into one value (exceptions are not allowed)"""
    res = explore(fn)
    if len(res) == 1 and res[0][1] == 'exc':
        raise res[0][2]
    for pc, k, v in res:
        if k == 'exc':
            raise Unsupported('path raising %r inside a merged evaluation when %s' % (v, ' and '.join(tm._short(q.key()) for q in pc)[:600]))
    return merge_values([(conj(pc), v) for pc, k, v in res])


def element(ivs, fn):
    """value of a generic element: its paths, which may depend on the index variables, merged"""
    new = [n for n in ivs if n not in ACTIVE]
    ACTIVE.update(new)
    try:
        return merged(fn)
    finally:
        ACTIVE.difference_update(new)


MERGE_OBJ = None           # set by objs


def merge_values(cv):
    if len(cv) == 1:
        return cv[0][1]
    v0 = cv[0][1]
    if all(v is v0 for c, v in cv):
        return v0
    r = MERGE_OBJ(cv)
    if r is not NotImplemented:
        return r
    if isinstance(v0, tuple) and hasattr(v0, '_fields'):
        return type(v0)(*[merge_values([(c, v[i]) for c, v in cv]) for i in range(len(v0))])
    if isinstance(v0, tuple):
        return tuple(merge_values([(c, v[i]) for c, v in cv]) for i in range(len(v0)))
    if isinstance(v0, (list, DList)):
        n = len(v0)
        if any(len(v) != n for c, v in cv):
            raise Unsupported('merging lists of different lengths')
        return DList([merge_values([(c, v[i]) for c, v in cv]) for i in range(n)])
    if isinstance(v0, dict):
        if any(set(v) != set(v0) for c, v in cv):
            raise Unsupported('merging dicts with different keys')
        return {k: merge_values([(c, v[k]) for c, v in cv]) for k in v0}
    if any(isinstance(v, T) for c, v in cv):
        r = to_T(cv[-1][1])
        for c, v in reversed(cv[:-1]):
            r = _elem(lambda a, b: e_ite(c, a, b), to_T(v), r)
        r.isb = all(getattr(v, 'isb', False) for c, v in cv)
        return r
    es = [(c, to_entry(v)) for c, v in cv]
    r = es[-1][1]
    for c, e in reversed(es[:-1]):
        r = e_ite(c, e, r)
    return from_entry(r, all(isinstance(v, (bool, rnp.bool_)) or getattr(v, 'isb', False) for c, v in cv))


# ------------------------------------------------------------------ entries: Poly | EnumV | other python constants
class EnumV:
    """a value of a finite set of python constants: {constant: indicator Poly}"""
    __slots__ = ('m',)

    def __init__(self, m):
        self.m = {k: v for k, v in m.items() if v.t}

    def subst(self, s):
        return EnumV({k: v.subst(s) for k, v in self.m.items()})

    def ivs(self):
        r = frozenset()
        for v in self.m.values():
            r |= v.ivs()
        return r

    def key(self):
        return 'E{' + ','.join('%s:%s' % (k, v.key()) for k, v in sorted(self.m.items(), key=lambda x: str(x[0]))) + '}'

    def __repr__(self):
        return self.key()


def _is_tag(x):
    return isinstance(x, (_EnumBase, str)) or x is None


def as_enum(x):
    if isinstance(x, EnumV):
        return x
    if _is_tag(x):
        return EnumV({x: P1})
    return None


def to_entry(x):
    if isinstance(x, Poly) or isinstance(x, EnumV):
        return x
    if isinstance(x, S):
        return x.p
    if isinstance(x, (bool, rnp.bool_)):
        return P1 if x else ZERO
    if isinstance(x, _EnumBase):
        return x
    if isinstance(x, (int, Fraction)):
        return Poly.const(x)
    if isinstance(x, (float, rnp.floating)):
        x = float(x)
        if x != x or x in (float('inf'), float('-inf')):
            return Poly.of_atom(Atom('v', ('nan' if x != x else 'inf' if x > 0 else '-inf', ())))
        if x == int(x) and abs(x) < 1e15:
            return Poly.const(int(x))
        return Poly.const(x)
    if isinstance(x, rnp.integer):
        return Poly.const(int(x))
    if isinstance(x, Choice):
        return x.e
    if isinstance(x, T) and x.a.size == 1:
        return x.a.reshape(-1)[0]
    if _is_tag(x):
        return x
    if hasattr(x, 'isnone'):
        return x.entry()
    if isinstance(x, (DList, dict, list, tuple)) or hasattr(x, '__class__'):
        return Opaque.wrap(x)
    raise Unsupported('value %r in an array' % (type(x),))


class Opaque:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    @staticmethod
    def wrap(v):
        return v if isinstance(v, Opaque) else Opaque(v)

    def subst(self, s):
        return self

    def ivs(self):
        return frozenset()

    def key(self):
        return 'Opaque%d' % id(self.v)


class Stale(Opaque):
    """what an earlier iteration left in an array: not to be used"""

    def __init__(self):
        self.v = self

    def subst(self, s):
        raise Unsupported('use of what an earlier iteration left behind')

    ivs = key = lambda self, *a: self.subst(None)


def e_ivs(e):
    return e.ivs() if hasattr(e, 'ivs') else frozenset()


class CondV(Opaque):
    """conditional value of mixed kinds: equal to nothing but itself until a substitution decides the condition"""
    __slots__ = ()

    def subst(self, s):
        c, a, b = self.v
        return e_ite(c.subst(s), e_subst(a, s), e_subst(b, s))

    def ivs(self):
        c, a, b = self.v
        return c.ivs() | frozenset(e_ivs(a)) | frozenset(e_ivs(b))

    def key(self):
        c, a, b = self.v
        return 'Cond(%s;%s;%s)' % (c.key(), e_key(a), e_key(b))


def from_entry(e, isb=False):
    if isinstance(e, Poly):
        return S(e, isb)
    if isinstance(e, EnumV):
        if len(e.m) == 1:
            (k, v), = e.m.items()
            if v == P1:
                return k
        return Choice(e)
    if isinstance(e, Opaque):
        return e.v
    return e


def e_ite(c, a, b):
    if c == P1:
        return a
    if c == ZERO:
        return b
    if isinstance(a, Poly) and isinstance(b, Poly):
        return ite(c, a, b)
    ea, eb = as_enum(a), as_enum(b)
    if ea is not None and eb is not None:
        r = {}
        for k, v in ea.m.items():
            r[k] = r.get(k, ZERO).add(c.mul(v))
        for k, v in eb.m.items():
            r[k] = r.get(k, ZERO).add(b_not(c).mul(v))
        return EnumV(r)
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.v is b.v:
        return a
    return CondV((c, a, b))


def e_subst(e, s):
    if isinstance(e, (Poly, EnumV, Opaque)):
        return e.subst(s)
    return e


def e_eq(a, b):
    if isinstance(a, Poly) and isinstance(b, Poly):
        return ez(a.sub(b))
    ea, eb = as_enum(a), as_enum(b)
    if ea is not None and eb is not None:
        r = ZERO
        for k, v in ea.m.items():
            if k in eb.m:
                r = r.add(v.mul(eb.m[k]))
        return r
    return ZERO


def e_key(e):
    return e.key() if hasattr(e, 'key') else repr(e)


def _num2(f):
    def g(a, b):
        if isinstance(a, Poly) and isinstance(b, Poly):
            return f(a, b)
        raise Unsupported('arithmetic on a non-number')
    return g


DIVISORS = {}       # key -> (divisor, {key of path condition: path condition})


def note_divisor(b):
    pcs = DIVISORS.setdefault(b.key(), (b, {}))[1]
    if pcs is not None and len(pcs) < 50:
        pc = [q for x in _ctx for q in x.pc]
        pcs[tuple(sorted(q.key() for q in pc))] = pc
    else:
        DIVISORS[b.key()] = (b, None)




def under_path(b):
    """b where the indicators decided on this path have their values"""
    bs = set(tm.top_bools(b))
    if not bs or not _ctx:
        return b
    ones = Poly.const(1)
    zeros = set()
    for q in [q for x in _ctx for q in x.pc]:
        r = b_not(q)
        if len(r.t) == 1:
            (bv, fs), c = next(iter(r.t.items()))
            if c == 1 and not bv and len(fs) == 1:
                zeros.add(fs[0][0])
        m = ones.mul(q)
        if len(m.t) == 1:
            (bv, fs), c = next(iter(m.t.items()))
            if c == 1 and not bv:
                ones = m
    for a, e in next(iter(ones.t))[1]:
        if a in bs:
            b = tm.cofactor(b, a, 1)
    for a in zeros:
        if a in bs:
            b = tm.cofactor(b, a, 0)
    return b


def p_div(a, b):
    b = under_path(b)
    if b.is_const():
        v = b.const_val()
        if v == 0:
            raise ZeroDivisionError('division by zero')
        return a.scale(tm._div(1, v))
    if not (len(b.t) == 1 and not any(m[0] for m in b.t) and all(
            x.kind == 'f' and x.data[0] == 'exp' for m in b.t for x, q in m[1])):
        note_divisor(b)
    return a.mul(b.inverse())


def p_abs(a):
    if a.is_const():
        return Poly.const(abs(a.const_val()))
    c = lt0(a)
    return ite(c, a.neg(), a)


def p_sign(a):
    return lt0(a.neg()).sub(lt0(a))


def p_max(a, b):
    return ite(lt0(a.sub(b)), b, a)


def p_min(a, b):
    return ite(lt0(b.sub(a)), b, a)


def p_pow(a, b):
    if b.is_const():
        v = b.const_val()
        if float(v) == int(v) and abs(v) <= 12:
            if v < 0 and not a.is_const():
                note_divisor(a)
            return a.powi(int(v))
        if float(v) == 0.5:
            return mk_fn('sqrt', [a])
        if a.is_const():
            return Poly.const(float(a.const_val()) ** float(v))
    if a.is_const() and b.is_const():
        return Poly.const(float(a.const_val()) ** float(b.const_val()))
    return mk_fn('pow', [a, b])


def p_floordiv(a, b):
    if a.is_const() and b.is_const():
        return Poly.const(a.const_val() // b.const_val())
    if b == P1:
        return mk_fn('floor', [a])
    return mk_fn('floor', [p_div(a, b)])


def p_mod(a, b):
    if a.is_const() and b.is_const():
        return Poly.const(a.const_val() % b.const_val())
    return a.sub(b.mul(p_floordiv(a, b)))


# ------------------------------------------------------------------ scalars
class S:
    __slots__ = ('p', 'isb')
    __array_ufunc__ = None

    def __init__(self, p, isb=False):
        self.p = p
        self.isb = isb

    def __bool__(self):
        return decide(self.p if self.isb else b_not(ez(self.p)))

    def __hash__(self):
        return hash(self.p.key())

    def __repr__(self):
        return 'S(%s)' % self.p.key()

    def __float__(self):
        if self.p.is_const():
            return float(self.p.const_val())
        raise Unsupported('float() of a symbolic value by a native function')

    def __int__(self):
        if self.p.is_const() and float(self.p.const_val()) == int(self.p.const_val()):
            return int(self.p.const_val())
        raise Unsupported('int() of a symbolic value by a native function')

    def __index__(self):
        return self.__int__()

    def __round__(self, n=0):
        return S(mk_fn('round', [self.p, Poly.const(n or 0)]))

    def __format__(self, spec):
        return '<%s>' % self.p.key()

    def flatten(self):
        return to_T(self).reshape(-1)

    def item(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def T(self):
        return self

    def __getitem__(self, k):
        if k == ():
            return self
        raise TypeError('scalar is not subscriptable')

    def astype(self, t):
        return self

    def reshape(self, *sh):
        return to_T(self).reshape(*sh)

    def copy(self):
        return self


def _conv(x):
    """python value -> S | T | Choice | None(not ours)"""
    if isinstance(x, (S, T, Choice)):
        return x
    if isinstance(x, _EnumBase):
        return Choice(EnumV({x: P1}))
    if isinstance(x, (bool, int, float, Fraction, rnp.generic)):
        return S(to_entry(x), isinstance(x, (bool, rnp.bool_)))
    if isinstance(x, rnp.ndarray):
        return to_T(x)
    if _is_tag(x):
        return Choice(EnumV({x: P1}))
    if isinstance(x, (DList, list)):
        return to_T(x)
    return None


def _binop(f, boolean=False, logic=False):
    def op(a, b):
        x, y = _conv(a), _conv(b)
        if x is None or y is None:
            return NotImplemented
        isb = boolean or (logic and getattr(x, 'isb', False) and getattr(y, 'isb', False))
        if isinstance(x, T) or isinstance(y, T):
            r = _elem(f, to_T(x), to_T(y))
            r.isb = isb
            return r
        return from_entry(f(to_entry(x), to_entry(y)), isb)
    return op


def e_ne(a, b):
    return b_not(e_eq(a, b))


def _truth(a):
    return a


_OPS = {
    'add': (_num2(Poly.add), {}), 'sub': (_num2(Poly.sub), {}), 'mul': (_num2(Poly.mul), {}),
    'truediv': (_num2(p_div), {}), 'pow': (_num2(p_pow), {}), 'floordiv': (_num2(p_floordiv), {}),
    'mod': (_num2(p_mod), {}),
}


def _install(cls):
    for n, (f, kw) in _OPS.items():
        g = _binop(f, **kw)
        setattr(cls, '__%s__' % n, lambda a, b, g=g: g(a, b))
        setattr(cls, '__r%s__' % n, lambda a, b, g=g: g(b, a))
    for n, f in {'lt': lambda a, b: lt0(a.sub(b)), 'gt': lambda a, b: lt0(b.sub(a)),
                 'le': lambda a, b: le0(a.sub(b)), 'ge': lambda a, b: le0(b.sub(a))}.items():
        g = _binop(_num2(f), boolean=True)
        setattr(cls, '__%s__' % n, lambda a, b, g=g: g(a, b))
    ge = _binop(e_eq, boolean=True)
    gn = _binop(e_ne, boolean=True)

    def _eq(a, b):
        r = ge(a, b)
        return False if r is NotImplemented else r

    def _ne(a, b):
        r = gn(a, b)
        return True if r is NotImplemented else r
    cls.__eq__ = _eq
    cls.__ne__ = _ne
    ga = _binop(_num2(Poly.mul), logic=True)
    go = _binop(_num2(b_or), logic=True)
    for n, g in (('and', ga), ('or', go)):
        setattr(cls, '__%s__' % n, lambda a, b, g=g: g(a, b))
        setattr(cls, '__r%s__' % n, lambda a, b, g=g: g(b, a))
    gx = _binop(_num2(lambda a, b: a.add(b).sub(a.mul(b).scale(2))), logic=True)
    cls.__xor__ = lambda a, b: gx(a, b)
    cls.__neg__ = lambda a: _unary(Poly.neg, a)
    cls.__pos__ = lambda a: a
    cls.__abs__ = lambda a: _unary(p_abs, a)
    cls.__invert__ = lambda a: _unary(b_not, a, True)


def _unary(f, a, isb=False):
    a = _conv(a)

    def g(e):
        if not isinstance(e, Poly):
            raise Unsupported('arithmetic on a non-number')
        return f(e)
    if isinstance(a, T):
        r = T(_omap(g, a.a), list(a.sym), isb)
        r.mask = a.mask
        return r
    return from_entry(g(to_entry(a)), isb)


def _below_zero(p):
    """an index that counts from the end"""
    if p.is_const():
        return p.const_val() < 0
    hi = tm.interval(p)[2]
    return hi < 0


class Choice:
    isb = False
    """scalar whose value is one of finitely many constants"""
    __slots__ = ('e',)
    __array_ufunc__ = None

    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        eo = o.e if isinstance(o, Choice) else as_enum(o) if _is_tag(o) else None
        if eo is None:
            if isinstance(o, T):
                return NotImplemented
            return False
        return S(e_eq(self.e, eo), True)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else (True if r is False else S(b_not(r.p), True))

    def __hash__(self):
        return hash(self.e.key())

    def __repr__(self):
        return 'Choice(%s)' % self.e.key()

    def resolve(self):
        """fork on the constant"""
        items = sorted(self.e.m.items(), key=lambda x: str(x[0]))
        for k, v in items[:-1]:
            if decide(v):
                return k
        return items[-1][0]


# ------------------------------------------------------------------ tensors
def _omap(f, a):
    r = rnp.empty(a.shape, dtype=object)
    fa, fr = a.reshape(-1), r.reshape(-1)
    for i in range(fa.size):
        fr[i] = f(fa[i])
    return r


def _obj(shape, fill):
    r = rnp.empty(shape, dtype=object)
    r.fill(fill)
    return r


def dim_poly(d):
    if isinstance(d, S):
        return d.p
    if isinstance(d, Poly):
        return d
    return Poly.const(int(d))


class T:
    __slots__ = ('a', 'sym', 'isb', 'mask', 'views', 'isview', '__weakref__', 'ld')
    __array_ufunc__ = None

    def __init__(self, a, sym, isb=False, mask=None):
        self.ld = len(LOOP_IVS)
        self.a = a
        self.sym = list(sym)
        self.isb = isb
        self.mask = mask        # (axis, condition Poly): only elements satisfying it exist (compressed axis)
        self.views = None
        self.isview = None

    # -- structure
    @property
    def ndim(self):
        return self.a.ndim

    @property
    def shape(self):
        return tuple(S(s[1]) if s else n for n, s in zip(self.a.shape, self.sym))

    @property
    def size(self):
        r = 1
        for d in self.shape:
            r = r * d
        return r

    @property
    def dtype(self):
        return object

    def __len__(self):
        d = self.shape[0]
        if isinstance(d, S):
            raise Unsupported('native len() of a symbolic array')
        return d

    def __hash__(self):
        return id(self)

    def __bool__(self):
        if self.a.size == 1 and not any(self.sym):
            return bool(from_entry(self.a.reshape(-1)[0], self.isb))
        raise ValueError('truth value of an array is ambiguous')

    def __float__(self):
        if self.a.size == 1 and not any(self.sym):
            return float(from_entry(self.a.reshape(-1)[0]))
        raise Unsupported('float() of a symbolic array by a native function')

    def __repr__(self):
        return 'T%s%s' % (self.shape, [e_key(e) for e in self.a.reshape(-1)[:4]])

    def _view_of(self, base):
        self.isview = base
        if base.views is None:
            base.views = []
        base.views.append(weakref.ref(self))
        return self

    def _check_mutable(self):
        if self.isview is not None:
            raise Unsupported('in-place write through a view')
        if self.views and any(v() is not None for v in self.views):
            raise Unsupported('in-place write to an array with live views')

    def copy(self):
        return T(self.a.copy(), list(self.sym), self.isb, self.mask)

    def fresh(self):
        """same tensor with fresh index variables"""
        s = {}
        ns = []
        for x in self.sym:
            if x:
                v = new_iv(x[1])
                s[x[0]] = v
                ns.append((_ivname(v), x[1]))
            else:
                ns.append(None)
        r = T(_omap(lambda e: e_subst(e, s), self.a), ns, self.isb)
        if self.mask:
            r.mask = (self.mask[0], self.mask[1].subst(s))
        return r

    @property
    def T(self):
        r = T(self.a.T, self.sym[::-1], self.isb)
        if self.mask:
            r.mask = (self.a.ndim - 1 - self.mask[0], self.mask[1])
        return r._view_of(self)

    @property
    def values(self):
        return self

    def transpose(self):
        return self.T

    def flatten(self, *a):
        return self.reshape(-1)

    def ravel(self):
        return self.reshape(-1)

    def repeat(self, n, axis=None):
        return np_repeat(self, n, axis)

    def astype(self, t):
        return self.copy()

    def tolist(self):
        return tolist(self)

    def item(self):
        if self.a.size == 1 and not any(self.sym):
            return from_entry(self.a.reshape(-1)[0], self.isb)
        raise ValueError('item of an array')

    def sum(self, axis=None, keepdims=False):
        return np_sum(self, axis=axis, keepdims=keepdims)

    def mean(self, axis=None):
        return np_sum(self, axis=axis) / (self.size if axis is None else self.shape[axis])

    def max(self, axis=None):
        return np_max(self, axis)

    def round(self, n=0):
        return np_round(self, n)

    def min(self, axis=None):
        return np_min(self, axis)

    def any(self):
        return np_any(self)

    def all(self):
        return np_all(self)

    def dot(self, o):
        return np_dot(self, o)

    def reshape(self, *sh):
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
            sh = tuple(sh[0])
        if self.mask and sh not in ((-1, 1), (-1,)):
            raise Unsupported('reshape of a compressed array')
        nsym = [i for i, x in enumerate(self.sym) if x]
        r = self._regroup(sh, nsym)
        if r is not None:
            return r
        if not nsym:
            return T(self.a.reshape(tuple(int(x) for x in sh)).copy(), [None] * len(sh), self.isb)
        if len(nsym) == 1:
            others = self.a.size
            x = self.sym[nsym[0]]
            if others == 1:
                if sh == (-1, 1):
                    r = T(self.a.reshape(1, 1).copy(), [x, None], self.isb)
                elif sh == (-1,):
                    r = T(self.a.reshape(1).copy(), [x], self.isb)
                elif sh == (1, -1):
                    r = T(self.a.reshape(1, 1).copy(), [None, x], self.isb)
                else:
                    want = [i for i, d in enumerate(sh) if isinstance(d, S) and d.p == x[1] or isinstance(d, int) and (d == -1 or x[1].is_const() and d == x[1].const_val())]
                    if len(want) != 1 or any(not (isinstance(d, int) and d == 1) for i, d in enumerate(sh)
                                             if i != want[0]):
                        raise Unsupported('reshape %r' % (sh,))
                    sy = [None] * len(sh)
                    sy[want[0]] = x
                    r = T(self.a.reshape((1,) * len(sh)).copy(), sy, self.isb)
                if self.mask:
                    r.mask = ([i for i, y in enumerate(r.sym) if y][0], self.mask[1])
                return r.fresh()
        if len(sh) == self.ndim:
            ok = True
            for d, n, x in zip(sh, self.a.shape, self.sym):
                if x:
                    ok = ok and (isinstance(d, S) and d.p == x[1])
                else:
                    ok = ok and (d == n)
            if ok:
                return self.copy()
        raise Unsupported('reshape %r of a symbolic array' % (sh,))

    def _regroup(self, sh, nsym):
        """(N, K) to (N * K,) and back, for symbolic N and concrete K"""
        if self.mask:
            return None
        if len(nsym) == 2 and self.ndim == 2 and len(sh) == 1 and self.sym[1][1].is_const() and \
                (isinstance(sh[0], int) and sh[0] == -1 or dim_poly(sh[0]) == self.sym[0][1].mul(self.sym[1][1])):
            k = self.sym[1][1].const_val()
            d = self.sym[0][1].scale(k)
            i = new_iv(d)
            fl = mk_fn('floor', [i.scale(tm._div(1, k))])
            t = self.fresh()
            return T(_obj((1,), e_subst(t.a[0, 0], {t.sym[0][0]: fl, t.sym[1][0]: i.sub(fl.scale(k))})), [(_ivname(i), d)], self.isb)
        if self.ndim > 1 and len(sh) == self.ndim + 1 and len(nsym) == self.ndim and isinstance(sh[-1], (int, rnp.integer)) and sh[-1] > 1 and \
                all(isinstance(x, S) and x.p == y[1] for x, y in zip(sh[:-2], self.sym)):
            # last axis of a matrix
            last = T(self.a.reshape(1), [self.sym[-1]])._regroup(tuple(sh[-2:]), [0])
            if last is None:
                return None
            return T(last.a.reshape((1,) * (self.ndim - 1) + last.a.shape), list(self.sym[:-1]) + list(last.sym), self.isb)
        if len(nsym) != 1:
            return None
        if self.ndim == 2 and len(sh) == 1 and nsym == [0] and self.a.shape[1] > 1 and (sh[0] == -1 or dim_poly(sh[0]) == self.sym[0][1].scale(self.a.shape[1])):
            k = self.a.shape[1]
            d = self.sym[0][1].scale(k)
            i = new_iv(d)
            fl = mk_fn('floor', [i.scale(tm._div(1, k))])
            rest = i.sub(fl.scale(k))
            e = e_subst(self.a[0, k - 1], {self.sym[0][0]: fl})
            for q in range(k - 2, -1, -1):
                e = e_ite(ez(rest.sub(Poly.const(q))), e_subst(self.a[0, q], {self.sym[0][0]: fl}), e)
            return T(_obj((1,), e), [(_ivname(i), d)], self.isb)
        if self.ndim == 1 and len(sh) == 2 and isinstance(sh[1], (int, rnp.integer)) and sh[1] > 1:
            k = int(sh[1])
            d = self.sym[0][1].scale(tm._div(1, k))
            if not (isinstance(sh[0], int) and sh[0] == -1 or dim_poly(sh[0]) == d):
                return None
            if d.is_const() and d.const_val() != int(d.const_val()):
                raise ValueError('cannot reshape')
            n = new_iv(d)
            if k >= LONG:
                q = new_iv(Poly.const(k))
                return T(_obj((1, 1), e_subst(self.a[0], {self.sym[0][0]: n.scale(k).add(q)})), [(_ivname(n), d), (_ivname(q), Poly.const(k))], self.isb)
            a = _obj((1, k), ZERO)
            for q in range(k):
                a[0, q] = e_subst(self.a[0], {self.sym[0][0]: n.scale(k).add(Poly.const(q))})
            return T(a, [(_ivname(n), d), None], self.isb)
        return None

    # -- indexing
    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        if self.sym[0]:
            raise Unsupported('native iteration over a symbolic axis')
        for i in range(self.a.shape[0]):
            yield self[i]

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        key = _expand_ellipsis(key, self.ndim)
        if len(LOOP_IVS) > self.ld:
            lvs = {_loopvar(k.p, s_[1]) for k, s_ in zip([k for k in key if k is not None], self.sym) if isinstance(k, S) and s_}
            LOOP_READS.append((self, lvs))
            for w in LOOP_WRITES:
                if w[0] is self and w[2] not in lvs and w[2] != 'scratch':
                    raise Unsupported('reading an array that the loop writes')
        # boolean mask over the whole array
        if len(key) == 1 and isinstance(key[0], T) and key[0].isb and key[0].ndim == self.ndim and self.ndim > 1:
            return _masked_full(self, key[0])
        a, sym = self.a, self.sym
        out_idx = []
        out_sym = []
        sub = {}
        mask = self.mask
        newmask = None
        ax = 0
        nax_out = 0
        nkeys = sum(1 for k in key if k is not None)
        key = key + (slice(None),) * (self.ndim - nkeys)
        fancy = None
        for k in key:
            if k is None:
                out_idx.append(None)
                out_sym.append(None)
                nax_out += 1
                continue
            s = sym[ax]
            if isinstance(k, slice):
                if s:
                    if not _full_slice(k, s[1]):
                        raise Unsupported('partial slice of a symbolic axis')
                    out_idx.append(slice(None))
                else:
                    out_idx.append(slice(_cint(k.start), _cint(k.stop), _cint(k.step)))
                out_sym.append(s)
                if mask and mask[0] == ax:
                    newmask = (nax_out, mask[1])
                nax_out += 1
            elif isinstance(k, T) and k.isb and k.ndim == 1:
                if s and k.sym[0]:
                    kk = k.a[0].subst({k.sym[0][0]: tm.Poly.of_atom(Atom('iv', (s[0],)))})
                    out_idx.append(slice(None))
                    out_sym.append(s)
                    if mask is not None:
                        if k.mask is None or mask[0] != ax or k.mask[1].subst({k.sym[0][0]: _ivp(s)}) != mask[1]:
                            raise Unsupported('mask of a compressed array')
                        kk = mask[1].mul(kk)
                    newmask = (nax_out, kk)
                elif not s and not k.sym[0]:
                    sel = [decide(e) for e in k.a]
                    out_idx.append(rnp.array([i for i, b in enumerate(sel) if b], dtype=int))
                    out_sym.append(None)
                else:
                    raise Unsupported('mask of another kind of axis')
                nax_out += 1
            elif isinstance(k, (list, DList, rnp.ndarray, T)):
                if s:
                    raise Unsupported('fancy index on a symbolic axis')
                out_idx.append(rnp.array([_cint(x) for x in k], dtype=int))
                out_sym.append(None)
                nax_out += 1
            else:
                # scalar index
                ks = _conv(k)
                if s:
                    if not isinstance(ks, S):
                        raise Unsupported('index')
                    kp = ks.p
                    if _below_zero(kp):
                        kp = s[1].add(kp)
                    sub[s[0]] = kp
                    out_idx.append(0)
                else:
                    out_idx.append(_cint(k) if ks.p.is_const() else ('sel', ks.p))
                if mask and mask[0] == ax:
                    raise Unsupported('scalar index into a compressed axis')
            ax += 1
        sels = [(i, o) for i, o in enumerate(out_idx) if isinstance(o, tuple)]
        if sels:
            # symbolic index into a concrete axis: case expression
            if len(sels) > 1:
                raise Unsupported('several symbolic indices')
            i0, (_, kp) = sels[0]
            axis = i0 - sum(1 for o in out_idx[:i0] if o is None)
            n = a.shape[axis]
            r = None
            kk = list(key)
            for v in range(n - 1, -1, -1):
                kk[i0] = v
                piece = self[tuple(kk)]
                if r is None:
                    r = piece
                else:
                    c = ez(kp.sub(Poly.const(v)))
                    r = merge_values([(c, piece), (P1, r)])
            return r
        if not any(isinstance(o, rnp.ndarray) for o in out_idx):
            res = a[tuple(out_idx)]
        else:
            res = a[tuple(out_idx)]
        if sub:
            res = _omap(lambda e: e_subst(e, sub), res) if isinstance(res, rnp.ndarray) else e_subst(res, sub)
            if newmask:
                newmask = (newmask[0], newmask[1].subst(sub))
        if not isinstance(res, rnp.ndarray):
            return from_entry(res, self.isb)
        r = T(res, out_sym, self.isb, newmask)
        if nkeys == len(key) or not sub:
            r._view_of(self)
        return r

    def __setitem__(self, key, val):
        self._check_mutable()
        if not isinstance(key, tuple):
            key = (key,)
        key = _expand_ellipsis(key, self.ndim)
        if len(key) == 1 and isinstance(key[0], T) and key[0].isb and key[0].ndim == self.ndim:
            m = key[0]
            if isinstance(val, T) and val.mask is not None:
                val = _unmask(val, m)
            v = to_T(val)
            if len(LOOP_IVS) > self.ld:
                self._scatter(m, v)
                return
            r = _elem3(lambda e, c, x: e_ite(c, x, e), self, m, v)
            self._assign(r)
            return
        key = key + (slice(None),) * (self.ndim - len(key))
        # build condition per axis
        over = {_loopvar(_conv(k).p, s_[1]) for k, s_ in zip(key, self.sym) if s_ and isinstance(k, S)}
        conds = []
        maskax = None
        vmap = []          # axes of self (order) that remain in the value
        idx = []
        for ax, k in enumerate(key):
            s = self.sym[ax]
            if isinstance(k, slice):
                if s:
                    if not _full_slice(k, s[1]):
                        raise Unsupported('partial slice write on a symbolic axis')
                    idx.append(slice(None))
                else:
                    idx.append(slice(_cint(k.start), _cint(k.stop), _cint(k.step)))
                vmap.append(ax)
            elif isinstance(k, T) and k.isb and k.ndim == 1:
                if bool(s) != bool(k.sym[0]):
                    raise Unsupported('mask write')
                if not s:
                    raise Unsupported('mask write on a concrete axis')
                conds.append(k.a[0].subst({k.sym[0][0]: _ivp(s)}))
                maskax = (ax, k)
                idx.append(slice(None))
                vmap.append(ax)
            elif isinstance(k, T) and not k.isb or isinstance(k, (list, DList, rnp.ndarray)):
                raise Unsupported('fancy write')
            else:
                ks = _conv(k)
                if s:
                    kp = ks.p
                    if kp.is_const() and kp.const_val() < 0:
                        kp = s[1].add(kp)
                    lv = _loopvar(kp, s[1])
                    if lv is not None:
                        conds.append(('loop', s, lv))
                        if any(w[0] is self and w[2] == 'repeated' for w in LOOP_WRITES):
                            raise Unsupported('array written both once and repeatedly in a loop')
                        LOOP_WRITES.append((self, ax, lv))
                        if any(t is self and lv not in used for t, used in LOOP_READS):
                            raise Unsupported('writing an array that the loop reads')
                    elif any(n in kp.ivs() and n not in over for n, d in LOOP_IVS[self.ld:]):
                        lv, off = _shifted(kp, s[1])
                        if any(t is self for t, used in LOOP_READS) or any(w[0] is self for w in LOOP_WRITES):
                            raise Unsupported('writing an array that the loop reads')
                        conds.append(('loop', s, lv, off))
                        LOOP_WRITES.append((self, ax, ('shifted', lv)))
                    else:
                        conds.append(ez(_ivp(s).sub(kp)))
                    idx.append(slice(None))
                else:
                    if ks.p.is_const():
                        idx.append(slice(_cint(k), _cint(k) + 1 if _cint(k) != -1 else None))
                    else:
                        idx.append(slice(None))
                        conds.append(('conc', ax, ks.p))
        v = to_T(val)
        if v.mask is not None:
            # the elements selected by a mask are written back under the same mask: element by element
            max_, mp = v.mask
            k = maskax[1] if maskax else None
            if k is None or max_ + len(vmap) - v.ndim != vmap.index(maskax[0]) or not v.sym[max_] or \
                    k.a[0].subst({k.sym[0][0]: _ivp(v.sym[max_])}) != mp:
                raise Unsupported('compressed value in a write')
            v = T(v.a, v.sym, v.isb)
        # align v's axes with vmap (numpy broadcasting of trailing axes)
        if v.ndim > len(vmap):
            lead = v.ndim - len(vmap)
            if any(v.a.shape[i] != 1 or v.sym[i] for i in range(lead)):
                raise Unsupported('write shape')
            v = T(v.a.reshape(v.a.shape[lead:]), v.sym[lead:], v.isb)
        shp = [1] * self.ndim
        vs = [None] * self.ndim
        off = len(vmap) - v.ndim
        for i in range(v.ndim):
            shp[vmap[off + i]] = v.a.shape[i]
            vs[vmap[off + i]] = v.sym[i]
        v = T(v.a.reshape(shp), vs)
        ren = {}
        for ax in range(self.ndim):
            if vs[ax]:
                if not self.sym[ax] or vs[ax][1] != self.sym[ax][1]:
                    raise Unsupported('write shape mismatch')
                ren[vs[ax][0]] = _ivp(self.sym[ax])
        va = _omap(lambda e: e_subst(e, ren), v.a)
        if len(LOOP_IVS) > self.ld:
            self._in_loop({c[2] for c in conds if isinstance(c, tuple) and c[0] == 'loop'},
                          list(va.reshape(-1)) + [c for c in conds if not isinstance(c, tuple)] + [c[2] for c in conds if isinstance(c, tuple) and c[0] == 'conc'])
        new = self.a.copy()
        sub = new[tuple(idx)]
        vb = rnp.broadcast_to(va, sub.shape)
        it = rnp.empty(sub.shape, dtype=object)
        loop_sub = {c[2]: _ivp(c[1]).sub(Poly.const(c[3] if len(c) > 3 else 0)) for c in conds if isinstance(c, tuple) and c[0] == 'loop'}
        cond = P1
        for c in conds:
            if isinstance(c, tuple) and len(c) > 3 and c[0] == 'loop':
                for t in range(c[3]):
                    cond = cond.mul(b_not(ez(_ivp(c[1]).sub(Poly.const(t)))))
        for c in conds:
            if not isinstance(c, tuple):
                cond = cond.mul(c.subst(loop_sub) if loop_sub else c)
        for pos in rnp.ndindex(sub.shape):
            c = cond
            for cc in conds:
                if isinstance(cc, tuple) and cc[0] == 'conc':
                    c = c.mul(ez(cc[2].sub(Poly.const(pos[cc[1]]))))
            x = vb[pos]
            if loop_sub:
                x = e_subst(x, loop_sub)
            it[pos] = e_ite(c, x, sub[pos])
        new[tuple(idx)] = it
        self.a = new

    def _in_loop(self, used, vals):
        """a write in a loop, at an index with the loop variables `used`"""
        loop_bound(vals)
        missing = [n for n, d in LOOP_IVS[self.ld:] if n not in used]
        if missing:
            r, w = LOOP_START[missing[0]]
            if any(t is self and lv == 'scratch' for t, ax, lv in LOOP_WRITES[w:]):
                return
            if any(t is self for t, u in LOOP_READS[r:]) or any(t is self for t, ax, lv in LOOP_WRITES[w:]):
                raise Unsupported('repeated write to an array that the loop uses')
            # every iteration overwrites it before it is read: nothing is known of it when an iteration begins or after the loop
            self._forget()
            LOOP_WRITES.append((self, None, 'scratch'))

    def _forget(self):
        self.a = _obj(self.a.shape, Stale())

    def _scatter(self, m, v):
        """masked write in a loop over a symbolic range: every element is written by at most one iteration"""
        if len(LOOP_IVS) != self.ld + 1 or any(w[0] is self for w in LOOP_WRITES) or any(t is self for t, u in LOOP_READS):
            raise Unsupported('masked writes in a loop')
        n, dim = LOOP_IVS[-1]
        if n not in frozenset().union(*[e.ivs() for e in m.a.reshape(-1)]):
            raise Unsupported('repeated write')
        LOOP_WRITES.append((self, None, n))
        i1, i2 = _ivp((n,)), new_iv(dim)

        def put(e, c, x):
            if not isinstance(e, Poly) or not isinstance(x, Poly):
                raise Unsupported('masked writes in a loop')
            if c.mul(c.subst({n: i2})).mul(b_not(ez(i1.sub(i2)))).t:
                raise Unsupported('overlapping masked writes in a loop')
            once = sum_over(c, n, dim)
            return sum_over(c.mul(x), n, dim).add(b_not(once).mul(e))
        self._assign(_elem3(put, self, m, v), True)

    def _assign(self, r, once=False):
        """become r elementwise (same shape)"""
        if len(LOOP_IVS) > self.ld and not once:
            raise Unsupported('update of a whole array in a loop')
        ren = {}
        for x, y in zip(self.sym, r.sym):
            if bool(x) != bool(y):
                raise Unsupported('write shape mismatch')
            if x:
                ren[y[0]] = _ivp(x)
        self.a = _omap(lambda e: e_subst(e, ren), r.a)

    def _iop(self, o, f):
        self._check_mutable()
        self._assign(_elem(f, self, to_T(_conv(o))))
        return self

    def __iadd__(self, o):
        return self._iop(o, _num2(Poly.add))

    def __isub__(self, o):
        return self._iop(o, _num2(Poly.sub))

    def __imul__(self, o):
        return self._iop(o, _num2(Poly.mul))

    def __itruediv__(self, o):
        return self._iop(o, _num2(p_div))


LOOP_IVS = []      # active loop index variables: list of (name, dim)
LOOP_WRITES = []   # (array, axis, loop variable that indexes the written axis | 'repeated' | ('shifted', variable))
LOOP_READS = []    # (array, loop variables of the index)
LOOP_START = {}    # loop variable -> number of LOOP_READS, LOOP_WRITES when the loop began
LOOP_ACC = {}      # placeholder atoms of the scalars that the active loops accumulate


def enter_loop(name, dim):
    LOOP_IVS.append((name, dim))
    LOOP_START[name] = (len(LOOP_READS), len(LOOP_WRITES))


def leave_loop(name):
    """forget the loop; what it read and wrote counts for the loops around it"""
    LOOP_IVS.pop()
    r, w = LOOP_START.pop(name)
    LOOP_READS[r:] = [(t, u - {name}) for t, u in LOOP_READS[r:] if t.ld < len(LOOP_IVS)]
    for t, ax, lv in LOOP_WRITES[w:]:
        if lv == 'scratch':
            t._forget()
    LOOP_WRITES[w:] = [(t, ax, 'repeated' if lv in (name, ('shifted', name)) else lv) for t, ax, lv in LOOP_WRITES[w:] if t.ld < len(LOOP_IVS)]


def loop_bound(vals):
    """values leave a loop: none may depend on what the loop accumulates so far"""
    if LOOP_ACC:
        for e in vals:
            for p in ([e] if isinstance(e, Poly) else list(e.m.values()) if isinstance(e, EnumV) else []):
                if any(a in LOOP_ACC for a in p.atoms()):
                    raise Unsupported('running total leaves its loop')


def own_index(x, key):
    """loop variables that are themselves an index of x[key], and the axes indexed by another expression of loop variables"""
    ks = key if isinstance(key, tuple) else (key,)
    own, scattered = set(), []
    loops = {n for n, d in LOOP_IVS[x.ld:]}
    for ax, k in enumerate(ks):
        if isinstance(k, S):
            lv = _loopvar(k.p, x.sym[ax][1]) if ax < x.ndim and x.sym[ax] else None
            if lv is not None:
                own.add(lv)
            elif k.p.ivs() & loops:
                scattered.append(ax)
    return own, scattered


def accumulate(x, key, delta):
    """x[key] += delta inside symbolic loops whose variables are not an index themselves: add the sum over those loops"""
    ks = key if isinstance(key, tuple) else (key,)
    used, scattered = own_index(x, key)
    missing = [(n, d) for n, d in LOOP_IVS[x.ld:] if n not in used]
    if not missing:
        return False
    r, w = LOOP_START[missing[0][0]]
    if any(t is x for t, u in LOOP_READS[r:]) or any(t is x for t, ax, lv in LOOP_WRITES[w:]):
        raise Unsupported('accumulation into an array that the loop uses')
    v = to_T(delta)
    if v.mask is not None or any(not isinstance(e, Poly) for e in v.a.reshape(-1)):
        raise Unsupported('accumulation of such values')
    loop_bound(v.a.reshape(-1))
    if scattered:
        if v.ndim or len(ks) != x.ndim or any(not isinstance(k, (S, int)) for k in ks) or any(not x.sym[ax] for ax in scattered):
            raise Unsupported('accumulation at such an index')
        e = v.a[()]
        for ax in scattered:
            e = ez(_ivp(x.sym[ax]).sub(ks[ax].p)).mul(e)
        v = T(_obj((1,) * len(scattered), e), [x.sym[ax] for ax in scattered])
        key = tuple(slice(None) if ax in scattered else k for ax, k in enumerate(ks))
    for n, d in reversed(missing):
        v = T(_omap(lambda e: sum_over(e, n, d), v.a), v.sym)
        if any(s and n in s[1].ivs() for s in v.sym):
            raise Unsupported('accumulation of varying size')
    if any(b[1].ivs() & {n for n, d in missing} for b in LOOP_IVS if b not in missing):
        raise Unsupported('accumulation in nested loops of varying size')
    saved = list(LOOP_IVS)
    LOOP_IVS[:] = [b for b in LOOP_IVS if b not in missing]
    try:
        x[key] = x[key] + (v if v.ndim else from_entry(v.a[()]))
    finally:
        LOOP_IVS[:] = saved
    LOOP_WRITES.append((x, None, 'repeated'))
    return True


def _shifted(kp, dim):
    """(loop variable, k) of an index that runs over all of an axis but the first k elements"""
    for n, d in LOOP_IVS:
        off = kp.sub(Poly.of_atom(Atom('iv', (n,))))
        if off.is_const() and off.const_val() == int(off.const_val()) and 0 < off.const_val() <= 4 and d.add(off) == dim:
            return n, int(off.const_val())
    raise Unsupported('write at a moving index')


def _loopvar(kp, dim):
    for n, d in LOOP_IVS:
        if kp == Poly.of_atom(Atom('iv', (n,))) and d == dim:
            return n
    return None


def _ivp(s):
    return Poly.of_atom(Atom('iv', (s[0],)))


def _ivname(p):
    (m, c), = p.t.items()
    return m[1][0][0].data[0]


def _cint(k):
    if k is None:
        return None
    if isinstance(k, S):
        return int(k)
    return operator.index(k)


def _full_slice(k, dim):
    def zero(x):
        return x is None or (isinstance(x, int) and x == 0)

    def full(x):
        return x is None or (isinstance(x, S) and x.p == dim)
    return zero(k.start) and full(k.stop) and k.step is None


def _expand_ellipsis(key, nd):
    if any(k is Ellipsis for k in key):
        i = [j for j, k in enumerate(key) if k is Ellipsis][0]
        n = nd - sum(1 for k in key if k is not None and k is not Ellipsis)
        return key[:i] + (slice(None),) * n + key[i + 1:]
    return key


def _masked_full(x, m):
    """x[m] for a column vector (n,1) (or any array with a single non-unit axis): compressed 1-d"""
    nz = [i for i in range(x.ndim) if x.sym[i] or x.a.shape[i] != 1]
    if len(nz) == 0:
        # single element
        if decide(to_entry(m)):
            return T(x.a.reshape(1).copy(), [None], x.isb)
        return T(rnp.empty((0,), dtype=object), [None], x.isb)
    if len(nz) == 1:
        return x.reshape(-1)[m.reshape(-1)]
    raise Unsupported('boolean mask of a matrix')


def _unmask(v, m):
    """the compressed 1-d v (with mask equal to m) as a full array shaped like m"""
    nz = [i for i in range(m.ndim) if m.sym[i] or m.a.shape[i] != 1]
    if len(nz) != 1 or v.ndim != 1:
        raise Unsupported('masked write')
    if not v.sym[0]:
        raise Unsupported('masked write')
    ax = nz[0]
    s = {v.sym[0][0]: _ivp(m.sym[ax])}
    full = m.a.reshape(-1)[0]
    if m.mask is not None:
        full = m.mask[1].mul(full)
    if v.mask[1].subst(s) != full:
        raise Unsupported('masked write with a different mask')
    sy = [None] * m.ndim
    sy[ax] = m.sym[ax]
    return T(_omap(lambda e: e_subst(e, s), v.a).reshape((1,) * m.ndim), sy, False, m.mask)


def _align(x, y):
    return None, None


def to_T(x):
    if isinstance(x, T):
        return x
    if isinstance(x, (DList, list, tuple)):
        return np_array(x)
    if isinstance(x, SymList):
        return np_array(x)
    if isinstance(x, rnp.ndarray):
        return T(_omap(to_entry, x.astype(object)), [None] * x.ndim, x.dtype == bool)
    if isinstance(x, (S, Choice)) or x is not None:
        e = to_entry(x)
        a = rnp.empty((), dtype=object)
        a[()] = e
        return T(a, [], getattr(x, 'isb', isinstance(x, (bool, rnp.bool_))))
    raise Unsupported('array from %r' % (x,))


def _broadcast(ts):
    """common ndim, renamed ivs, numpy arrays broadcast; returns arrays, sym, mask"""
    nd = max(t.ndim for t in ts)
    sym = [None] * nd
    arrs = []
    shp = [1] * nd
    for t in ts:
        for i in range(t.ndim):
            k = nd - t.ndim + i
            if t.sym[i]:
                if sym[k] is None:
                    sym[k] = t.sym[i]
                elif sym[k][1] != t.sym[i][1]:
                    raise ValueError('operands could not be broadcast together: %s / %s' % (sym[k][1], t.sym[i][1]))
            elif t.a.shape[i] != 1:
                if shp[k] not in (1, t.a.shape[i]):
                    raise ValueError('operands could not be broadcast together')
                shp[k] = t.a.shape[i]
    for k in range(nd):
        if sym[k] and shp[k] != 1:
            raise Unsupported('symbolic and concrete axis')
    # distinct index variables per axis
    seen = set()
    for k in range(nd):
        if sym[k]:
            if sym[k][0] in seen:
                sym[k] = (_ivname(new_iv(sym[k][1])), sym[k][1])
            seen.add(sym[k][0])
    mask = None
    for t in ts:
        ren = {}
        for i in range(t.ndim):
            k = nd - t.ndim + i
            if t.sym[i] and t.sym[i][0] != sym[k][0]:
                ren[t.sym[i][0]] = _ivp(sym[k])
        # capture: an iv that is free in t as an outer (loop) variable is never an axis variable
        a = t.a
        if ren:
            a = _omap(lambda e: e_subst(e, ren), a)
        arrs.append(a)
        if t.mask:
            k = nd - t.ndim + t.mask[0]
            mk = (k, t.mask[1].subst(ren))
            if mask is None:
                mask = mk
            elif mask[0] != mk[0] or mask[1] != mk[1]:
                raise Unsupported('arrays compressed by different masks')
    if mask is not None:
        for t in ts:
            k = mask[0] - (nd - t.ndim)
            if 0 <= k < t.ndim and t.sym[k] and not t.mask:
                raise Unsupported('compressed and full array in one operation')
    return arrs, sym, mask


def _elem(f, x, y):
    arrs, sym, mask = _broadcast([x, y])
    b = rnp.broadcast_arrays(*arrs)
    r = rnp.empty(b[0].shape, dtype=object)
    for pos in rnp.ndindex(b[0].shape):
        r[pos] = f(b[0][pos], b[1][pos])
    return T(r, sym, False, mask)


def _elem3(f, x, y, z):
    arrs, sym, mask = _broadcast([x, y, z])
    b = rnp.broadcast_arrays(*arrs)
    r = rnp.empty(b[0].shape, dtype=object)
    for pos in rnp.ndindex(b[0].shape):
        r[pos] = f(b[0][pos], b[1][pos], b[2][pos])
    return T(r, sym, False, mask)


_install(S)
_install(T)
_times = S.__mul__
S.__mul__ = lambda a, b: NotImplemented if hasattr(b, '_plain') else _times(a, b)       # a list is repeated, n * [x]


def _ch_eq(self, o):
    if isinstance(o, T):
        return o.__eq__(self)
    return Choice.__eq__(self, o)


# ------------------------------------------------------------------ lists
class DList(list):
    """concrete-length list (made by a list display or comprehension of the program)"""
    __slots__ = ()

    def __eq__(self, o):
        if isinstance(o, T):
            return NotImplemented
        if not isinstance(o, (list, tuple)) or len(o) != len(self):
            return False
        return all_true([a == b for a, b in zip(self, o)])

    __hash__ = None


def all_true(xs):
    r = P1
    for x in xs:
        if isinstance(x, S):
            r = r.mul(x.p)
        elif isinstance(x, T):
            r = r.mul(to_entry(np_all(x)))
        elif not x:
            return False
    if r == P1:
        return True
    return S(r, True)


class SymList:
    """list of symbolic length dim; elem(k) gives element k"""

    def __init__(self, dim, elem):
        self.dim = dim
        self.elem = elem

    def __len__(self):
        raise Unsupported('native len() of a symbolic list')

    def __iter__(self):
        raise Unsupported('native iteration over a symbolic list')

    def __bool__(self):
        return decide(b_not(ez(self.dim)))

    def __getitem__(self, k):
        if isinstance(k, slice):
            raise Unsupported('slice of a symbolic list')
        ks = _conv(k)
        p = ks.p
        if p.is_const() and p.const_val() < 0:
            p = self.dim.add(p)
        return self.elem(p)

    def copy(self):
        return self

    def count(self, x):
        iv = new_iv(self.dim)
        c = self.elem(iv) == x
        c = c if isinstance(c, S) else S(P1 if c is True else ZERO if c is False else to_entry(c))
        return S(sum_over(c.p, _ivname(iv), self.dim))


class SymRange(SymList):
    def __init__(self, dim):
        SymList.__init__(self, dim, lambda p: S(p))


# ------------------------------------------------------------------ numpy functions
def _np1(name):
    def g(x):
        x = _conv(x)
        return _unary(lambda p: mk_fn(name, [p]), x)
    return g


def np_array(x, dtype=None, copy=True):
    if isinstance(x, T):
        return x.copy()
    if isinstance(x, SymList):
        iv = new_iv(x.dim)
        e = x.elem(iv)
        t = to_T(np_array(e) if isinstance(e, (SymList, list, tuple)) else e)
        return T(t.a.reshape((1,) + t.a.shape), [(_ivname(iv), x.dim)] + t.sym,
                 t.isb or isinstance(e, bool))
    if isinstance(x, rnp.ndarray):
        return to_T(x)
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return T(rnp.empty((0,), dtype=object), [None])
        if len(x) and all(isinstance(e, (str, dict)) for e in x):
            a = rnp.empty((len(x),), dtype=object)
            for i, e in enumerate(x):
                a[i] = to_entry(e)
            return T(a, [None])
        ts = [to_T(np_array(e) if isinstance(e, (list, tuple, SymList)) else e) for e in x]
        return np_stack(ts)
    return to_T(x)


def np_stack(ts):
    arrs, sym, mask = _broadcast(ts)
    if any(t.ndim != ts[0].ndim for t in ts) or any(
            [bool(s) for s in t.sym] != [bool(s) for s in ts[0].sym] for t in ts):
        raise ValueError('inhomogeneous shape')
    if any(a.shape != arrs[0].shape for a in arrs):
        raise ValueError('inhomogeneous shape')
    r = rnp.empty((len(ts),) + arrs[0].shape, dtype=object)
    for i, a in enumerate(arrs):
        r[i] = a[()] if a.ndim == 0 else a
    return T(r, [None] + sym, all(t.isb for t in ts))


def tolist(t):
    if isinstance(t, S):
        return t
    if t.ndim == 0:
        return from_entry(t.a[()], t.isb)
    if t.sym[0]:
        return SymList(t.sym[0][1], lambda p: tolist(to_T(t[S(p)])) if t.ndim > 1 else t[S(p)])
    return DList([tolist(to_T(t[i])) for i in range(t.a.shape[0])])


LONG = 90       # axes at least that long are not enumerated


def _mkshape(shape):
    if isinstance(shape, (int, S)):
        shape = (shape,)
    ash, sym = [], []
    for d in shape:
        if isinstance(d, S) and not d.p.is_const():
            sym.append((_ivname(new_iv(d.p)), d.p))
            ash.append(1)
        elif int(d) >= LONG:
            # a series over the year or the day: one generic step
            sym.append((_ivname(new_iv(Poly.const(int(d)))), Poly.const(int(d))))
            ash.append(1)
        else:
            sym.append(None)
            ash.append(int(d))
    return tuple(ash), sym


def np_full(shape, v, dtype=None):
    a, s = _mkshape(shape)
    return T(_obj(a, to_entry(v)), s, isinstance(v, bool))


def np_zeros(shape, dtype=None, order=None):
    return np_full(shape, 0)


def np_ones(shape, dtype=None):
    return np_full(shape, 1)


def np_full_like(x, v, dtype=None):
    x = to_T(x)
    if isinstance(v, (T, S)):
        vv = to_T(v)
        if vv.ndim:
            raise Unsupported('full_like with an array')
    r = T(_obj(x.a.shape, to_entry(v)), list(x.sym), isinstance(v, bool), x.mask).fresh()
    return r


def np_zeros_like(x, dtype=None):
    return np_full_like(x, 0)


def np_identity(n, dtype=None):
    if isinstance(n, S) and not n.p.is_const():
        a, s = _mkshape((n, n))
        return T(_obj(a, ez(_ivp(s[0]).sub(_ivp(s[1])))), s)
    return to_T(rnp.identity(int(n)))


def np_diag(x):
    x = to_T(x)
    if x.mask:
        raise Unsupported('diag of a compressed array')
    if x.ndim == 1:
        if x.sym[0]:
            d = x.sym[0][1]
            i, j = new_iv(d), new_iv(d)
            e = e_subst(x.a[0], {x.sym[0][0]: i}).mul(ez(i.sub(j)))
            return T(_obj((1, 1), e), [(_ivname(i), d), (_ivname(j), d)])
        n = x.a.shape[0]
        r = _obj((n, n), ZERO)
        for k in range(n):
            r[k, k] = x.a[k]
        return T(r, [None, None])
    if x.ndim == 2:
        if x.sym[0] and x.sym[1]:
            return T(_omap(lambda e: e_subst(e, {x.sym[1][0]: _ivp(x.sym[0])}), x.a).reshape(1), [x.sym[0]])
        return T(x.a[range(len(x.a)), range(len(x.a))].copy(), [None])
    raise Unsupported('diag')


def _reduce_axis(t, ax, keepdims):
    """sum over one axis"""
    s = t.sym[ax]
    if s:
        def f(e):
            if t.mask:
                if t.mask[0] != ax:
                    pass
                else:
                    e = e.mul(t.mask[1])
            return sum_over(e, s[0], s[1])
        a = _omap(f, t.a)
    else:
        a = _obj(t.a.shape[:ax] + (1,) + t.a.shape[ax + 1:], ZERO)
        for i in range(t.a.shape[ax]):
            piece = rnp.take(t.a, [i], axis=ax)
            for pos in rnp.ndindex(a.shape):
                e = piece[pos]
                if not isinstance(e, Poly):
                    raise Unsupported('sum of non-numbers')
                a[pos] = a[pos].add(e)
    sym = list(t.sym)
    sym[ax] = None
    mask = t.mask if t.mask and t.mask[0] != ax else None
    if not keepdims:
        a = a.reshape(a.shape[:ax] + a.shape[ax + 1:])
        del sym[ax]
        if mask and mask[0] > ax:
            mask = (mask[0] - 1, mask[1])
    return T(a, sym, False, mask)


def _wrap0(t):
    if isinstance(t, T) and t.ndim == 0:
        return from_entry(t.a[()], t.isb)
    return t


def np_sum(x, axis=None, keepdims=False, dtype=None):
    if isinstance(x, S):
        return x
    t = to_T(x)
    if axis is None:
        while t.ndim:
            t = _reduce_axis(t, t.ndim - 1, False)
        return _wrap0(t)
    if isinstance(axis, tuple):
        for a in sorted([a % t.ndim for a in axis], reverse=True):
            t = _reduce_axis(t, a, keepdims)
        return _wrap0(t)
    return _wrap0(_reduce_axis(t, axis % t.ndim, keepdims))


def np_count_nonzero(x):
    t = to_T(x)
    return np_sum(T(_omap(lambda e: e if t.isb else b_not(ez(e)), t.a), t.sym, False, t.mask))


def np_dot(x, y):
    x, y = _conv(x), _conv(y)
    if isinstance(x, S) or isinstance(y, S):
        return x * y
    x, y = to_T(x), to_T(y)
    if x.mask or y.mask:
        raise Unsupported('dot with a compressed array')
    if x.ndim == 0 or y.ndim == 0:
        return x * y
    y = y.fresh()
    x = x.fresh()
    ka = x.ndim - 1
    kb = 0 if y.ndim == 1 else y.ndim - 2
    sx, sy = x.sym[ka], y.sym[kb]
    if bool(sx) != bool(sy):
        # a unit axis against a symbolic one: shapes not aligned
        raise ValueError('shapes not aligned')
    if sx:
        if sx[1] != sy[1]:
            raise ValueError('shapes not aligned: %s / %s' % (sx[1], sy[1]))
        ren = {sy[0]: _ivp(sx)}
        ya = _omap(lambda e: e_subst(e, ren), y.a)
    else:
        if x.a.shape[ka] != y.a.shape[kb]:
            raise ValueError('shapes not aligned')
        ya = y.a
    yo = [i for i in range(y.ndim) if i != kb]
    osym = x.sym[:ka] + [y.sym[i] for i in yo]
    oshape = x.a.shape[:ka] + tuple(y.a.shape[i] for i in yo)
    r = rnp.empty(oshape, dtype=object)
    yt = rnp.moveaxis(ya, kb, 0)
    for px in rnp.ndindex(x.a.shape[:ka]):
        for py in rnp.ndindex(yt.shape[1:]):
            acc = ZERO
            for k in range(x.a.shape[ka]):
                e1, e2 = x.a[px + (k,)], yt[(k,) + py]
                if not isinstance(e1, Poly) or not isinstance(e2, Poly):
                    raise Unsupported('dot of non-numbers')
                acc = acc.add(e1.mul(e2))
            if sx:
                acc = sum_over(acc, sx[0], sx[1])
            r[px + py] = acc
    return _wrap0(T(r, osym))


T.__matmul__ = lambda a, b: np_dot(a, b)
T.__rmatmul__ = lambda a, b: np_dot(b, a)


INVERTED = {}


def np_inv(x):
    x = to_T(x)
    if x.ndim != 2:
        raise Unsupported('inv')
    if x.sym[0] and x.sym[1]:
        if x.sym[0][1] != x.sym[1][1]:
            raise Unsupported('inverse of a non-square matrix')
        d = x.sym[0][1]
        R, C = Poly.of_atom(Atom('iv', ('@r',))), Poly.of_atom(Atom('iv', ('@c',)))
        if {'@r', '@c'} & x.a[0, 0].ivs():
            raise Unsupported('nested inverse capture')
        ap = x.a[0, 0].subst({x.sym[0][0]: R, x.sym[1][0]: C})
        i, j = new_iv(d), new_iv(d)
        eq = ez(C.sub(R))
        if len(eq.t) == 1:
            (m_, c_), = eq.t.items()
            if c_ == 1 and len(m_[1]) == 1 and not cofactor(ap, m_[1][0][0], 0).t:
                # diagonal
                return T(_obj((1, 1), ez(i.sub(j)).mul(ap.subst({'@r': i, '@c': i}).inverse())), [(_ivname(i), d), (_ivname(j), d)])
        INVERTED[ap.key()] = (ap, d)
        return T(_obj((1, 1), Poly.of_atom(Atom('mi', (ap, d, i, j)))), [(_ivname(i), d), (_ivname(j), d)])
    if not x.sym[0] and not x.sym[1]:
        n = x.a.shape[0]
        if n == 1:
            return T(_obj((1, 1), p_div(P1, x.a[0, 0])), [None, None])
        if n == 2:
            a, b, c, d = x.a[0, 0], x.a[0, 1], x.a[1, 0], x.a[1, 1]
            det = a.mul(d).sub(b.mul(c))
            r = rnp.empty((2, 2), dtype=object)
            r[0, 0], r[0, 1], r[1, 0], r[1, 1] = p_div(d, det), p_div(b.neg(), det), p_div(c.neg(), det), p_div(a, det)
            return T(r, [None, None])
    raise Unsupported('inverse of a concrete matrix larger than 2x2')


def np_where(c, a=None, b=None):
    if a is None:
        raise Unsupported('np.where with one argument')
    c, a, b = _conv(c), _conv(a), _conv(b)
    if not any(isinstance(v, T) for v in (c, a, b)):
        return from_entry(e_ite(to_entry(c), to_entry(a), to_entry(b)))
    c, a, b = to_T(c), to_T(a), to_T(b)

    def cond(e):
        return e if c.isb else b_not(ez(e))
    r = _elem3(lambda p, x, y: e_ite(cond(p), x, y), c, a, b)
    r.isb = a.isb and b.isb
    return r


def _np2(f):
    def g(a, b):
        a, b = _conv(a), _conv(b)
        if isinstance(a, T) or isinstance(b, T):
            return _elem(_num2(f), to_T(a), to_T(b))
        return from_entry(_num2(f)(to_entry(a), to_entry(b)))
    return g


np_maximum = _np2(p_max)
np_minimum = _np2(p_min)


def np_clip(x, lo, hi, out=None):
    r = x
    if lo is not None:
        r = np_maximum(r, lo)
    if hi is not None:
        r = np_minimum(r, hi)
    return r


def np_abs(x):
    return _unary(p_abs, x)


def np_sign(x):
    return _unary(p_sign, x)


def np_logical_not(x):
    x = _conv(x)
    if getattr(x, 'isb', False):
        return _unary(b_not, x, True)
    return _unary(ez, x, True)


def _tob(x):
    x = _conv(x)
    if x.isb:
        return x
    return _unary(lambda e: b_not(ez(e)), x, True)


def np_logical_and(a, b):
    return _tob(a) & _tob(b)


def np_logical_or(a, b):
    return _tob(a) | _tob(b)


def _cat_dims(ts, ax):
    return ts


def np_concatenate(seq, axis=0):
    if isinstance(seq, SymList):
        iv = new_iv(seq.dim)
        e = to_T(np_array(seq.elem(iv)))
        ax = axis % e.ndim
        if e.mask or e.sym[ax] or e.a.shape[ax] != 1:
            raise Unsupported('concatenate of a symbolic list')
        sy = list(e.sym)
        sy[ax] = (_ivname(iv), seq.dim)
        return T(e.a, sy, e.isb)
    ts = [to_T(t) for t in seq]
    if any(t.mask for t in ts):
        raise Unsupported('concatenate of compressed arrays')
    ax = axis % ts[0].ndim
    if any(t.sym[ax] for t in ts):
        if len(ts) == 1:
            return ts[0].copy()
        raise Unsupported('concatenate along a symbolic axis')
    # rename other axes
    sym = None
    arrs = []
    for t in ts:
        t = t
        if sym is None:
            sym = list(t.sym)
            arrs.append(t.a)
        else:
            ren = {}
            for k in range(t.ndim):
                if k == ax:
                    continue
                if bool(sym[k]) != bool(t.sym[k]):
                    raise Unsupported('concatenate')
                if sym[k]:
                    ren[t.sym[k][0]] = _ivp(sym[k])
            arrs.append(_omap(lambda e: e_subst(e, ren), t.a))
    return T(rnp.concatenate(arrs, axis=ax), sym, all(t.isb for t in ts))


def np_append(a, b, axis=None):
    if axis is None:
        return np_concatenate([to_T(a).reshape(-1), to_T(b).reshape(-1)])
    return np_concatenate([a, b], axis)


def np_insert(a, idx, v):
    a = to_T(a)
    l = [from_entry(e) for e in a.a]
    l.insert(idx, v)
    return np_array(DList(l))


def np_average(x, axis=None, weights=None):
    if weights is None:
        t = to_T(x)
        if axis is None:
            return np_sum(t) / t.size
        return np_sum(t, axis=axis) / t.shape[axis]
    if axis is None:
        return np_sum(to_T(x) * to_T(weights)) / np_sum(weights)
    t = to_T(x)
    w = to_T(weights)
    if w.ndim == 1 and t.ndim == 2:
        w = w if axis in (1, -1) else w.reshape(-1, 1)
    return np_sum(t * w, axis=axis) / np_sum(to_T(weights))


def np_max(x, axis=None, **kw):
    t = to_T(x)
    if axis is not None and t.ndim > 1:
        raise Unsupported('max along an axis')
    if any(t.sym):
        raise Unsupported('max over a symbolic axis')
    r = None
    for e in t.a.reshape(-1):
        r = e if r is None else p_max(r, e)
    return from_entry(r)


def np_min(x, axis=None, **kw):
    t = to_T(x)
    if any(t.sym) or (axis is not None and t.ndim > 1):
        raise Unsupported('min over a symbolic axis')
    r = None
    for e in t.a.reshape(-1):
        r = e if r is None else p_min(r, e)
    return from_entry(r)


def np_any(x):
    return from_entry(b_not(to_entry(np_all(np_logical_not(x)))), True)


def np_all(x):
    t = to_T(x)
    r = P1
    for e in t.a.reshape(-1):
        c = e if t.isb else b_not(ez(e))
        r = r.mul(b_not(t.mask[1].mul(b_not(c))) if t.mask else c)
    for s in t.sym:
        if s and s[0] in r.ivs():
            n = sum_over(b_not(r), s[0], s[1])
            r = ez(n)
    return from_entry(r, True)


def np_vectorize(f, otypes=None, **kw):
    def g(*args, **kwargs):
        ts = [to_T(_conv(a)) for a in args]
        ks = list(kwargs)
        ts += [to_T(_conv(kwargs[k])) for k in ks]
        arrs, sym, mask = _broadcast(ts)
        b = rnp.broadcast_arrays(*arrs)
        r = rnp.empty(b[0].shape, dtype=object)
        for pos in rnp.ndindex(b[0].shape):
            vals = [from_entry(x[pos], t.isb) for x, t in zip(b, ts)]
            n = len(args)
            r[pos] = to_entry(element([x[0] for x in sym if x], lambda: f(*vals[:n], **dict(zip(ks, vals[n:])))))
        return _wrap0(T(r, sym, False, mask))
    return g


def np_arange(*a, dtype=None):
    if any(isinstance(x, S) and not x.p.is_const() for x in a):
        if len(a) == 1:
            a0, s = _mkshape((a[0],))
            return T(_obj(a0, _ivp(s[0])), s)
        raise Unsupported('arange')
    return to_T(rnp.arange(*[x if not isinstance(x, S) else float(x) for x in a]))


TABLES = {}


def np_loadtxt(fname, delimiter=None, skiprows=0, usecols=None, encoding=None, unpack=False, dtype=None, ndmin=0):
    """a table of numbers in a file of the repository: any numbers, its real number of lines"""
    import os
    if not isinstance(fname, str) or not os.path.isfile(fname) or delimiter != ',':
        raise Unsupported('loadtxt')
    if usecols is None:
        raise Unsupported('loadtxt of all columns')
    one = isinstance(usecols, (int, rnp.integer))
    cols = [int(c) for c in ([usecols] if one else usecols)]
    with open(fname, encoding=encoding or 'utf-8') as f:
        lines = sum(1 for _ in f)
    d = Poly.const(lines - int(skiprows))
    i = new_iv(d)
    a = _obj((1, len(cols)), ZERO)
    for q, c in enumerate(cols):
        a[0, q] = tm.var('table:%s:%d' % (os.path.basename(fname), c), i.add(Poly.const(int(skiprows))))
    t = T(a, [(_ivname(i), d), None])
    if one:
        t = T(a.reshape(1), [(_ivname(i), d)])
    return t.T if unpack else t


def np_linspace(*a, **k):
    return to_T(rnp.linspace(*a, **k))


def np_isnan(x):
    x = _conv(x)
    return _unary(lambda p: P1 if any(at.key == 'nan' for at in p.atoms()) else ZERO, x, True)


def np_roll(x, k, axis=None):
    t = to_T(x)
    if any(t.sym):
        if axis is None and t.ndim > 1 or t.mask:
            raise Unsupported('roll of a symbolic array')
        ax = 0 if axis is None else axis if axis >= 0 else axis + t.ndim
        if t.sym[ax]:
            k = int(k)
            if abs(k) > 4:
                raise Unsupported('roll by a long way')
            # element i is the old element i - k, round the corner
            t = t.fresh()
            n, d = t.sym[ax]
            j = _ivp(t.sym[ax]).sub(Poly.const(k))

            def f(e):
                over = tm.lt0(j) if k > 0 else tm.le0(d.sub(j))
                return e_ite(over, e_subst(e, {n: j.add(d) if k > 0 else j.sub(d)}), e_subst(e, {n: j}))
            return T(_omap(f, t.a), t.sym, t.isb)
    return T(rnp.roll(t.a, int(k), axis), t.sym, t.isb)


def np_repeat(x, n, axis=None):
    t = to_T(x)
    if axis is not None and t.mask is None and t.a.shape[axis] == 1 and not t.sym[axis] and (isinstance(n, S) or any(t.sym)):
        sh = list(t.shape)
        sh[axis] = n
        return np_full(tuple(sh), 1) * t
    if any(t.sym):
        raise Unsupported('repeat of a symbolic array')
    if axis is None:
        return T(rnp.repeat(t.a.reshape(-1), int(n)), [None], t.isb)
    return T(rnp.repeat(t.a, int(n), axis), t.sym, t.isb)


def np_tile(x, n):
    t = to_T(x)
    if any(t.sym):
        raise Unsupported('tile of a symbolic array')
    r = rnp.tile(t.a, n)
    return T(r, [None] * r.ndim, t.isb)


def np_cumsum(x, axis=None):
    t = to_T(x)
    if any(t.sym):
        raise Unsupported('cumsum')
    r = []
    acc = ZERO
    for e in t.a.reshape(-1):
        acc = acc.add(e)
        r.append(acc)
    a = rnp.empty(len(r), dtype=object)
    a[:] = r
    return T(a, [None])


def np_reshape(x, sh):
    return to_T(x).reshape(*(sh if isinstance(sh, tuple) else (sh,)))


def np_radians(x):
    return _conv(x) * (_math.pi / 180.0)


def np_round(x, n=0):
    return _unary(lambda p: mk_fn('round', [p, Poly.const(n)]), _conv(x))


def np_interp(*a, **k):
    raise Unsupported('interp')


def np_polyval(c, x):
    r = 0.0
    for k in c:
        r = r * x + k
    return r


def np_ma(*a, **k):
    raise Unsupported('np.ma')


class _LinAlg:
    inv = staticmethod(np_inv)

    @staticmethod
    def solve(a, b):
        return np_dot(np_inv(a), b)

    def __getattr__(self, n):
        raise Unsupported('np.linalg.' + n)


def _is_symbolic(x):
    if isinstance(x, (S, T, Choice, SymList)):
        return True
    if isinstance(x, (list, tuple)):
        return any(_is_symbolic(e) for e in x)
    if isinstance(x, dict):
        return any(_is_symbolic(e) for e in x.values())
    return False


def _ufunc(f):
    def g(*a, out=None, where=True, dtype=None):
        r = f(*[_conv(x) for x in a])
        if where is not True:
            if out is None:
                raise Unsupported('where= without out=')
            r = np_where(where, r, out)
        if out is not None:
            out._check_mutable()
            out._assign(to_T(r))
            return out
        return r
    return staticmethod(g)


class NP:
    """stands for the module numpy inside the program"""
    ndarray = T
    nan = float('nan')
    pi = _math.pi
    inf = float('inf')
    newaxis = None
    linalg = _LinAlg()
    array = staticmethod(np_array)
    asarray = staticmethod(np_array)
    copy = staticmethod(lambda x: to_T(x).copy())
    zeros = staticmethod(np_zeros)
    ones = staticmethod(np_ones)
    empty = staticmethod(np_zeros)
    full = staticmethod(np_full)
    full_like = staticmethod(np_full_like)
    zeros_like = staticmethod(np_zeros_like)
    ones_like = staticmethod(lambda x, dtype=None: np_full_like(x, 1))
    empty_like = staticmethod(np_zeros_like)
    identity = staticmethod(np_identity)
    eye = staticmethod(np_identity)
    diag = staticmethod(np_diag)
    dot = staticmethod(np_dot)
    matmul = staticmethod(np_dot)
    sum = staticmethod(np_sum)
    count_nonzero = staticmethod(np_count_nonzero)
    where = staticmethod(np_where)
    maximum = staticmethod(np_maximum)
    minimum = staticmethod(np_minimum)
    clip = staticmethod(np_clip)
    abs = staticmethod(np_abs)
    absolute = staticmethod(np_abs)
    fabs = staticmethod(np_abs)
    sign = staticmethod(np_sign)
    logical_not = staticmethod(np_logical_not)
    logical_and = staticmethod(np_logical_and)
    logical_or = staticmethod(np_logical_or)
    invert = staticmethod(np_logical_not)
    concatenate = staticmethod(np_concatenate)
    append = staticmethod(np_append)
    insert = staticmethod(np_insert)
    stack = staticmethod(lambda s, axis=0: np_array(DList(s)))
    average = staticmethod(np_average)
    mean = staticmethod(lambda x, axis=None: np_average(x, axis))
    max = staticmethod(np_max)
    amax = staticmethod(np_max)
    min = staticmethod(np_min)
    amin = staticmethod(np_min)
    any = staticmethod(np_any)
    all = staticmethod(np_all)
    vectorize = staticmethod(np_vectorize)
    arange = staticmethod(np_arange)
    linspace = staticmethod(np_linspace)
    isnan = staticmethod(np_isnan)
    roll = staticmethod(np_roll)
    round = around = round_ = staticmethod(np_round)
    loadtxt = staticmethod(np_loadtxt)
    repeat = staticmethod(np_repeat)
    tile = staticmethod(np_tile)
    cumsum = staticmethod(np_cumsum)
    reshape = staticmethod(np_reshape)
    ravel = staticmethod(lambda x: to_T(x).reshape(-1))
    transpose = staticmethod(lambda x: to_T(x).T)
    radians = staticmethod(np_radians)
    deg2rad = staticmethod(np_radians)
    exp = staticmethod(_np1('exp'))
    log = staticmethod(_np1('log'))
    log10 = staticmethod(_np1('log10'))
    sqrt = staticmethod(_np1('sqrt'))
    sin = staticmethod(_np1('sin'))
    cos = staticmethod(_np1('cos'))
    tan = staticmethod(_np1('tan'))
    sinh = staticmethod(_np1('sinh'))
    cosh = staticmethod(_np1('cosh'))
    arcsin = staticmethod(_np1('asin'))
    arccos = staticmethod(_np1('acos'))
    arctan = staticmethod(_np1('atan'))
    floor = staticmethod(_np1('floor'))
    ceil = staticmethod(_np1('ceil'))
    arctan2 = staticmethod(_np2(lambda a, b: mk_fn('atan2', [a, b])))
    power = staticmethod(lambda a, b: _conv(a) ** b)
    add = _ufunc(lambda a, b: a + b)
    subtract = _ufunc(lambda a, b: a - b)
    multiply = _ufunc(lambda a, b: a * b)
    divide = _ufunc(lambda a, b: a / b)
    true_divide = divide
    square = staticmethod(lambda a: _conv(a) * a)
    negative = staticmethod(lambda a: -_conv(a))
    outer = staticmethod(lambda a, b: to_T(a).reshape(-1, 1) * to_T(b).reshape(1, -1))
    float64 = float32 = float_ = 'float'
    int64 = int32 = int_ = 'int'
    int = 'int'
    float = 'float'
    bool_ = bool = 'bool'
    interp = staticmethod(np_interp)
    polyval = staticmethod(np_polyval)
    generic = number = floating = integer = S

    def __getattr__(self, n):
        raise Unsupported('np.' + n)


def _m1(name, real):
    def g(x, *r):
        if isinstance(x, (S, T)):
            x = x if isinstance(x, S) else S(to_entry(x))
            if x.p.is_const():
                return real(float(x.p.const_val()))
            return S(mk_fn(name, [x.p]))
        return real(x, *r)
    return g


class MATH:
    pi = _math.pi
    e = _math.e
    inf = _math.inf
    nan = _math.nan
    fabs = staticmethod(lambda x: abs(x))

    @staticmethod
    def radians(x):
        return x * (_math.pi / 180.0) if isinstance(x, S) else _math.radians(x)

    @staticmethod
    def degrees(x):
        return x / (_math.pi / 180.0) if isinstance(x, S) else _math.degrees(x)

    @staticmethod
    def pow(x, y):
        return _conv(x) ** y if _is_symbolic(x) or _is_symbolic(y) else _math.pow(x, y)

    @staticmethod
    def atan2(y, x):
        if _is_symbolic(x) or _is_symbolic(y):
            return S(mk_fn('atan2', [to_entry(y), to_entry(x)]))
        return _math.atan2(y, x)

    @staticmethod
    def isnan(x):
        return bool(np_isnan(x)) if _is_symbolic(x) else _math.isnan(x)

    @staticmethod
    def fsum(x):
        return B_sum(x)

    @staticmethod
    def floor(x):
        return S(mk_fn('floor', [x.p])) if isinstance(x, S) and not x.p.is_const() else _math.floor(x)

    @staticmethod
    def ceil(x):
        return S(mk_fn('ceil', [x.p])) if isinstance(x, S) and not x.p.is_const() else _math.ceil(x)

    def __getattr__(self, n):
        raise Unsupported('math.' + n)


for _n, _f in (('exp', 'exp'), ('log', 'log'), ('log10', 'log10'), ('sqrt', 'sqrt'), ('sin', 'sin'), ('cos', 'cos'),
               ('tan', 'tan'), ('asin', 'asin'), ('acos', 'acos'), ('atan', 'atan'), ('sinh', 'sinh'),
               ('cosh', 'cosh')):
    setattr(MATH, _n, staticmethod(_m1(_f, getattr(_math, _n))))


# ------------------------------------------------------------------ builtins
class _Meta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls.real) or (isinstance(o, S) and cls.sym_ok(o))


class FloatT(metaclass=_Meta):
    real = float

    @staticmethod
    def sym_ok(o):
        return not o.isb

    def __new__(cls, x=0.0):
        if hasattr(x, 'isnone'):
            x = x.some()
        if isinstance(x, S):
            return S(x.p)
        if isinstance(x, T):
            return from_entry(x.a.reshape(-1)[0]) if x.a.size == 1 and not any(x.sym) else float(x)
        return float(x)


class IntT(metaclass=_Meta):
    real = int

    @staticmethod
    def sym_ok(o):
        return False

    def __new__(cls, x=0):
        if hasattr(x, 'isnone'):
            x = x.some()
        if isinstance(x, T):
            if x.a.size != 1 or any(x.sym):
                raise Unsupported('int of an array')
            x = from_entry(x.a.reshape(-1)[0])
        if isinstance(x, S):
            if x.p.is_const():
                return int(x.p.const_val())
            if is_int(x.p):
                return S(x.p)
            return S(mk_fn('trunc', [x.p]))
        return int(x)


INTVARS = tm.INTVARS


def is_int(p):
    """is the term certainly integer valued?"""
    for (bv, fs), c in p.t.items():
        if isinstance(c, float) and c != int(c) or isinstance(c, Fraction):
            return False
        for a, q in fs:
            if q < 0:
                return False
            if a.kind == 'iv' or a.kind in tm.BOOL_KINDS:
                continue
            if a.kind == 'v' and a.data[0] in INTVARS:
                continue
            if a.kind == 'f' and a.data[0] in ('floor', 'ceil', 'trunc'):
                continue
            return False
    return True


class BoolT(metaclass=_Meta):
    real = bool

    @staticmethod
    def sym_ok(o):
        return o.isb

    def __new__(cls, x=False):
        if isinstance(x, S):
            return x if x.isb else S(b_not(ez(x.p)), True)
        return True if bool(x) else False


class StrT(metaclass=_Meta):
    real = str

    @staticmethod
    def sym_ok(o):
        return False

    def __new__(cls, x=''):
        if isinstance(x, Choice):
            return x
        if isinstance(x, Opaque):
            return x
        if isinstance(x, S) and x.isb:
            return from_entry(EnumV({'True': x.p, 'False': P1.sub(x.p)}))
        return str(x)

    join = str.join
    format = str.format


def B_len(x):
    if isinstance(x, SymList):
        return S(x.dim)
    if isinstance(x, T):
        return x.shape[0]
    return len(x)


def B_range(*a):
    if any(isinstance(x, S) and not x.p.is_const() for x in a):
        if len(a) == 1 or (len(a) == 2 and not isinstance(a[0], S) and a[0] == 0):
            return SymRange(a[-1].p)
        if len(a) == 2 or (len(a) == 3 and not isinstance(a[2], S) and a[2] == 1):
            lo, hi = _conv(a[0]), _conv(a[1])
            if not decide(tm.lt0(lo.p.sub(hi.p))):
                return range(0)
            return SymList(hi.p.sub(lo.p), lambda p: S(lo.p.add(p)))
        raise Unsupported('range with symbolic bounds')
    return range(*[int(x) if isinstance(x, S) else x for x in a])


def B_max(*a, **k):
    return _mm(a, k, p_max, max)


def B_min(*a, **k):
    return _mm(a, k, p_min, min)


def _mm(a, k, f, real):
    if len(a) == 1:
        if isinstance(a[0], SymList):
            raise Unsupported('max/min of a symbolic list')
        a = list(a[0])
    if k or not any(_is_symbolic(x) for x in a):
        return real(*a, **k) if len(a) > 1 else real(a, **k)
    r = to_entry(a[0])
    for x in a[1:]:
        r = f(r, to_entry(x))
    return from_entry(r)


def B_sum(x, start=0):
    if isinstance(x, SymList):
        iv = new_iv(x.dim)
        e = x.elem(iv)
        n = _ivname(iv)
        if isinstance(e, T):
            r = T(_omap(lambda q: sum_over(q, n, x.dim), e.a), e.sym)
            return r if start == 0 else r + start
        return S(sum_over(to_entry(e), n, x.dim)) + start
    if isinstance(x, T):
        if x.ndim == 1:
            return np_sum(x) + start
        return np_sum(x, axis=0) + start
    r = start
    for e in x:
        r = r + e
    return r


def B_abs(x):
    return abs(x)


def B_round(x, n=None):
    if isinstance(x, S) and not x.p.is_const():
        return S(mk_fn('round', [x.p, Poly.const(n or 0)]))
    return round(float(x) if isinstance(x, S) else x, n) if n is not None else round(x)


def B_enumerate(x, start=0):
    if isinstance(x, SymList):
        return SymList(x.dim, lambda p: (S(p.add(Poly.const(start))), x.elem(p)))
    if isinstance(x, T) and x.sym[0]:
        return SymList(x.sym[0][1], lambda p: (S(p.add(Poly.const(start))), x[S(p)]))
    return enumerate(x, start)


def _aslist(x):
    if isinstance(x, T) and x.sym[0]:
        return SymList(x.sym[0][1], lambda p: x[S(p)])
    return x


def B_zip(*xs):
    xs = [_aslist(x) for x in xs]
    if any(isinstance(x, SymList) for x in xs):
        if not all(isinstance(x, SymList) for x in xs):
            raise Unsupported('zip of symbolic and concrete lists')
        d = xs[0].dim
        if any(x.dim != d for x in xs):
            raise Unsupported('zip of lists of different symbolic lengths')
        return SymList(d, lambda p: tuple(x.elem(p) for x in xs))
    return zip(*xs)


def B_list(x=()):
    if isinstance(x, SymList):
        return SymList(x.dim, x.elem)
    if isinstance(x, T):
        return tolist(x) if x.ndim == 1 else DList(list(x))
    return DList(x)


def B_isinstance(o, c):
    if isinstance(c, tuple):
        return any(B_isinstance(o, x) for x in c)
    if c is NP.ndarray or c is T:
        return isinstance(o, T)
    if c is list or c is BUILTINS['list'] or getattr(c, 'is_list', False):
        return isinstance(o, (list, SymList))
    if hasattr(o, '_alts'):
        o = o.resolve()
    if isinstance(o, Choice):
        return isinstance(next(iter(o.e.m)), c) if not isinstance(c, _Meta) else c is StrT
    return isinstance(o, c)


def B_any(x):
    if isinstance(x, T):
        return np_any(x)
    if isinstance(x, SymList):
        iv = new_iv(x.dim)
        e = x.elem(iv)
        return np_any(np_array(SymList(x.dim, x.elem)))
    for e in x:
        if e:
            return True
    return False


def B_all(x):
    if isinstance(x, T):
        return np_all(x)
    if isinstance(x, SymList):
        return np_all(np_array(x))
    for e in x:
        if not e:
            return False
    return True


def B_sorted(x, **k):
    if isinstance(x, (SymList, T)):
        raise Unsupported('sorted of symbolic values')
    return DList(sorted(x, **k))


def B_reversed(x):
    if isinstance(x, SymList):
        raise Unsupported('reversed of a symbolic list')
    return reversed(x)


def B_pow(x, y):
    return x ** y


BUILTINS = dict(len=B_len, range=B_range, max=B_max, min=B_min, sum=B_sum, abs=B_abs, round=B_round,
                enumerate=B_enumerate, zip=B_zip, list=B_list, isinstance=B_isinstance, any=B_any, all=B_all,
                sorted=B_sorted, float=FloatT, int=IntT, bool=BoolT, str=StrT, reversed=B_reversed, pow=B_pow)


# ------------------------------------------------------------------ symbolic inputs
CONSTR = {}        # variable name -> list of functions (Poly element) -> bool Poly (assumed facts)


def mkvar(name, *dims, lo=None, hi=None, lo_strict=False, hi_strict=False, integer=False, facts=()):
    """symbolic array (or scalar when there are no dims) of uninterpreted reals"""
    CONSTR[name] = list(facts)
    tm.BOUNDS[name] = (-tm._INF if lo is None else lo, lo is None or lo_strict, tm._INF if hi is None else hi, hi is None or hi_strict)
    if integer:
        INTVARS.add(name)
    return _mk(lambda idx: tm.var(name, *idx), dims, name=name)


VDIMS = {}         # input array -> which axes are concrete of length one (they carry no index)


def _mk(f, dims, isb=False, name=None):
    if name is not None:
        VDIMS[name] = [not isinstance(d, (S, Poly)) and d == 1 for d in dims]
    sym, shp, idx = [], [], []
    conc = []
    for d in dims:
        if isinstance(d, (S, Poly)) or d >= LONG:
            dp = dim_poly(d)
            iv = new_iv(dp)
            sym.append((_ivname(iv), dp))
            shp.append(1)
            idx.append(iv)
        else:
            sym.append(None)
            shp.append(d)
            idx.append(None)
    a = rnp.empty(tuple(shp), dtype=object)
    for pos in rnp.ndindex(a.shape):
        # a concrete axis of length one carries no index
        ii = [iv if iv is not None else Poly.const(pos[k]) for k, iv in enumerate(idx)
              if iv is not None or shp[k] != 1]
        a[pos] = f(ii)
    t = T(a, sym, isb)
    return _wrap0(t)


def mkbool(name, *dims):
    return _mk(lambda idx: tm.boolvar(name, *idx), dims, True, name=name)


def mkenum(name, members, *dims):
    members = list(members)

    def f(idx):
        r = {}
        rest = P1
        for m in members[:-1]:
            p = Poly.of_atom(Atom('en', (name, tuple(idx), str(m))))
            r[m] = p
            rest = rest.sub(p)
        r[members[-1]] = rest
        return EnumV(r)
    return _mk(f, dims, name=name)


def mkdim(name, lo=1):
    CONSTR[name] = []
    tm.BOUNDS[name] = (min(lo, 1), False, tm._INF, True)
    INTVARS.add(name)
    p = tm.var(name)
    if lo >= 1:
        tm.NONEMPTY.add(p.key())
    return S(p)
