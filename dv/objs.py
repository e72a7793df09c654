"""Objects of the program under a path condition.

A value that is one of several objects (a part that is of wood or of steel, a dictionary with or without a key) is an `Alt`:
attribute access, calls and indexing act on every alternative under its condition and merge the results; anything else forks.
Objects of one class merge attribute by attribute.  `enum`, `copy`, and `type` are the versions that understand such values.
"""
import enum as _enum
from . import symnp as sn
from . import terms as tm
from .symnp import Choice, S, T, SymList, decide, explore, conj
from .terms import Unsupported, P1, ZERO


def is_obj(v):
    return isinstance(v, object) and type(v).__module__.startswith('dvsym.') and not isinstance(v, (_enum.Enum, tuple, BaseException)) \
        and hasattr(v, '__dict__')


def _assume(c):
    if c == P1:
        return
    allpc = [q for x in sn._ctx for q in x.pc]
    if c == ZERO or (sn.FEASIBLE is not None and sn.FEASIBLE(allpc + [c]) is False):
        raise sn.Infeasible()
    sn._ctx[-1].pc.append(c)


def over(alts, fn, resolve):
    """fn(alternative) for every alternative, merged; forks where a path raises or the results do not merge"""
    out = []
    ok = bool(sn._ctx) or len(alts) == 1
    if ok:
        for c, o in alts:
            res = explore(lambda: (_assume(c), fn(o))[1])
            if any(k == 'exc' for pc, k, v in res):
                ok = False
                break
            for pc, k, v in res:
                out.append((conj(pc), v))
    if ok and out:
        try:
            return sn.merge_values(out)
        except Unsupported:
            pass
    return fn(resolve())


class Alt:
    def __init__(self, alts):
        object.__setattr__(self, '_alts', alts)

    def resolve(self):
        for c, o in self._alts[:-1]:
            if decide(c):
                return o
        return self._alts[-1][1]

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if any(callable(getattr(type(o), n, None)) for c, o in self._alts):
            return lambda *a, **k: over(self._alts, lambda o: getattr(o, n)(*a, **k), self.resolve)
        return over(self._alts, lambda o: getattr(o, n), self.resolve)

    def __setattr__(self, n, v):
        setattr(self.resolve(), n, v)

    def __getitem__(self, k):
        return over(self._alts, lambda o: o[k], self.resolve)

    def __setitem__(self, k, v):
        self.resolve()[k] = v

    def get(self, k, d=None):
        return over(self._alts, lambda o: o.get(k, d), self.resolve)

    def update(self, *a, **k):
        return self.resolve().update(*a, **k)

    def __contains__(self, k):
        return k in self.resolve()

    def __iter__(self):
        return iter(self.resolve())

    def __len__(self):
        return len(self.resolve())

    def __call__(self, *a, **k):
        return over(self._alts, lambda o: o(*a, **k), self.resolve)

    def __eq__(self, o):
        return self.resolve() == o

    def __ne__(self, o):
        return self.resolve() != o

    __hash__ = object.__hash__

    def subst(self, s):
        return Alt([(c.subst(s), subst(o, s)) for c, o in self._alts])


def _alts(c, v):
    if isinstance(v, Alt):
        return [(c.mul(d), o) for d, o in v._alts]
    return [(c, v)]


def merge(cv):
    """NotImplemented unless some value is an object, a union or one of differing containers"""
    vs = [v for c, v in cv]
    if any(isinstance(v, SymList) for v in vs):
        if all(isinstance(v, SymList) and v.dim == vs[0].dim for v in vs):
            return SymList(vs[0].dim, lambda p: sn.merge_values([(c, v.elem(p)) for c, v in cv]))
        return union(cv)
    if any(isinstance(v, Alt) or isinstance(v, Segs) or is_obj(v) for v in vs):
        return union(cv)
    if all(isinstance(v, dict) for v in vs):
        if any(set(v) != set(vs[0]) for v in vs):
            return union(cv)
        return DICT({k: sn.merge_values([(c, v[k]) for c, v in cv]) for k in vs[0]})
    if any(isinstance(v, (dict, list)) for v in vs):
        if all(isinstance(v, list) and len(v) == len(vs[0]) and getattr(v, 'tail', None) is None for v in vs):
            return LIST([sn.merge_values([(c, v[i]) for c, v in cv]) for i in range(len(vs[0]))])
        return union(cv)
    if any(callable(v) for v in vs) and not any(isinstance(v, (S, T)) for v in vs):
        return union(cv)
    if any(isinstance(v, tuple) for v in vs) and any(type(v) is not type(vs[0]) or isinstance(v, tuple) and len(v) != len(vs[0]) for v in vs):
        return union(cv)
    return NotImplemented


def union(cv):
    groups = []
    for c, v in cv:
        for d, o in _alts(c, v):
            if d == ZERO:
                continue
            for g in groups:
                if _same_kind(g[0][1], o):
                    g.append((d, o))
                    break
            else:
                groups.append([(d, o)])
    out = []
    for g in groups:
        c = ZERO
        for d, o in g:
            c = c.add(d)
        o = g[0][1] if len(g) == 1 or all(x is g[0][1] for d, x in g) else merge_same(g)
        out.append((c, o))
    return out[0][1] if len(out) == 1 else Alt(out)


def _same_kind(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if is_obj(a):
        return set(a.__dict__) == set(b.__dict__)
    if isinstance(a, dict):
        return set(a) == set(b)
    if isinstance(a, tuple):
        return len(a) == len(b)
    return False


def merge_same(g):
    o = g[0][1]
    if isinstance(o, dict):
        return DICT({k: sn.merge_values([(c, v[k]) for c, v in g]) for k in o})
    if isinstance(o, tuple):
        r = [sn.merge_values([(c, v[i]) for c, v in g]) for i in range(len(o))]
        return type(o)(*r) if hasattr(o, '_fields') else tuple(r)
    r = object.__new__(type(o))
    for k in o.__dict__:
        r.__dict__[k] = sn.merge_values([(c, v.__dict__[k]) for c, v in g])
    return r


def subst(v, s):
    """value with index variables replaced"""
    if isinstance(v, S):
        return S(v.p.subst(s), v.isb)
    if isinstance(v, T):
        return T(sn._omap(lambda e: sn.e_subst(e, s), v.a), list(v.sym), v.isb)
    if isinstance(v, Choice):
        return sn.from_entry(v.e.subst(s))
    if isinstance(v, Alt):
        return v.subst(s)
    if isinstance(v, SymList):
        return SymList(v.dim.subst(s), lambda p: subst(v.elem(p), s))
    if isinstance(v, Segs):
        return v.subst(s)
    if isinstance(v, tuple):
        r = [subst(x, s) for x in v]
        return type(v)(*r) if hasattr(v, '_fields') else tuple(r)
    if isinstance(v, dict):
        return DICT({k: subst(x, s) for k, x in v.items()})
    if isinstance(v, list):
        if getattr(v, 'tail', None) is not None:
            return subst(v.tail, s)
        return LIST([subst(x, s) for x in v])
    if v is None or isinstance(v, (str, int, float, bool, _enum.Enum, bytes)):
        return v
    if hasattr(v, 'isnone'):
        return type(v)(v.isnone.subst(s), subst(v.val, s))
    if is_obj(v):
        r = object.__new__(type(v))
        for k, x in v.__dict__.items():
            r.__dict__[k] = subst(x, s)
        return r
    if isinstance(v, sn.Opaque):
        return sn.e_subst(v, s)
    raise Unsupported('element of a symbolic list of type %r' % (type(v),))


def deepcopy(v, memo=None):
    if isinstance(v, T):
        return v.copy()
    if isinstance(v, (S, Choice, str, int, float, bool, _enum.Enum, SymList, Segs)) or v is None:
        return v
    if isinstance(v, Alt):
        return Alt([(c, deepcopy(o)) for c, o in v._alts])
    if isinstance(v, tuple):
        r = [deepcopy(x) for x in v]
        return type(v)(*r) if hasattr(v, '_fields') else tuple(r)
    if isinstance(v, dict):
        return DICT({k: deepcopy(x) for k, x in v.items()})
    if isinstance(v, list):
        if getattr(v, 'tail', None) is not None:
            return v.tail
        return LIST([deepcopy(x) for x in v])
    if is_obj(v):
        r = object.__new__(type(v))
        for k, x in v.__dict__.items():
            r.__dict__[k] = deepcopy(x)
        return r
    raise Unsupported('deepcopy of %r' % (type(v),))


def copy(v):
    if isinstance(v, dict):
        return DICT(v)
    if isinstance(v, list):
        return LIST(v) if getattr(v, 'tail', None) is None else v.tail
    if is_obj(v):
        r = object.__new__(type(v))
        r.__dict__.update(v.__dict__)
        return r
    return deepcopy(v)


# ------------------------------------------------------------------ lists made of pieces
class Segs:
    """list made of pieces: (dim, index name, [(guard, value)]); a piece stands for its guarded values at index 0, then at
    index 1, ...; dim None: its values once"""

    def __init__(self, segs):
        self.segs = [s for s in segs if s[2]]

    @staticmethod
    def of(x):
        if isinstance(x, Segs):
            return x
        if getattr(x, 'tail', None) is not None:
            return Segs.of(x.tail)
        if isinstance(x, SymList):
            iv = tm.new_iv(x.dim)
            return Segs([(x.dim, sn._ivname(iv), [(P1, x.elem(iv))])])
        if isinstance(x, (list, tuple)):
            return Segs([(None, None, [(P1, v) for v in x])])
        raise TypeError('can only concatenate list')

    def single(self):
        """as a list with one value for every index, or self"""
        if len(self.segs) == 1 and self.segs[0][0] is not None and len(self.segs[0][2]) == 1 and self.segs[0][2][0][0] == P1:
            d, n, ((c, v),) = self.segs[0]
            return SymList(d, lambda p: subst(v, {n: p}))
        if all(d is None and all(c == P1 for c, v in it) for d, n, it in self.segs):
            return LIST([v for d, n, it in self.segs for c, v in it])
        return self

    def __add__(self, o):
        return Segs(self.segs + Segs.of(o).segs)

    def __radd__(self, o):
        return Segs(Segs.of(o).segs + self.segs)

    def map(self, f):
        """f(value) -> list of values, on every path"""
        out = []
        for d, n, it in self.segs:
            new = []
            for c, v in it:
                new += paths_of([n] if n else [], c, lambda v=v: f(v))
            out.append((d, n, new))
        return Segs(out).single()

    def total(self, entry):
        r = ZERO
        for d, n, it in self.segs:
            e = ZERO
            for c, v in it:
                e = e.add(c.mul(entry(v)))
            r = r.add(e if d is None else tm.sum_over(e, n, d))
        return r

    def length(self):
        return S(self.total(lambda v: P1))

    def subst(self, s):
        return Segs([(None if d is None else d.subst(s), n, [(c.subst(s), subst(v, s)) for c, v in it]) for d, n, it in self.segs])

    def column(self, j, w):
        """every w-th value from the j-th"""
        out = []
        for d, n, it in self.segs:
            if len(it) % w or any(c != P1 for c, v in it):
                raise Unsupported('values of a list are not in groups of %d' % w)
            out.append((d, n, it[j::w]))
        return Segs(out).single()

    def __len__(self):
        raise Unsupported('native len() of a symbolic list')

    def __iter__(self):
        raise Unsupported('native iteration over a symbolic list')

    def __bool__(self):
        return decide(tm.b_not(tm.ez(self.length().p)))

    def __getitem__(self, k):
        raise Unsupported('index into a list made of pieces')


def paths_of(ivs, cond, fn):
    """[(guard, value)] of the list fn() at a generic element of the indices ivs, its paths merged where they agree in length"""
    new = [n for n in ivs if n not in sn.ACTIVE]
    sn.ACTIVE.update(new)
    try:
        def run():
            if cond != P1:
                sn.given(cond)
            return list(fn())
        res = explore(run)
    finally:
        sn.ACTIVE.difference_update(new)
    bad = [v for pc, k, v in res if k == 'exc']
    if bad:
        if len(res) == 1:
            raise bad[0]
        raise Unsupported('path raising %r inside a merged evaluation' % (bad[0],))
    if not res:
        return []
    if all(len(v) == len(res[0][2]) for pc, k, v in res):
        return [(cond, sn.merge_values([(conj(pc), v[i]) for pc, k, v in res])) for i in range(len(res[0][2]))]
    return [(cond.mul(conj(pc)), x) for pc, k, v in res for x in v]


def _sl_add(a, b):
    return Segs.of(a) + b


def _sl_radd(a, b):
    return Segs.of(b) + a


SymList.__add__ = _sl_add
SymList.__radd__ = _sl_radd


class Copy:
    deepcopy = staticmethod(deepcopy)
    copy = staticmethod(copy)


# ------------------------------------------------------------------ enumerations
class _EnumMeta(type(_enum.Enum)):
    def __call__(cls, value, *a, **k):
        if isinstance(value, Choice) and not a and not k:
            return over([(p, v) for v, p in value.e.m.items()], lambda v: cls(v), value.resolve)
        if isinstance(value, S):
            if value.p.is_const():
                value = value.p.const_val()
                return super().__call__(int(value) if value == int(value) else value)
            for m in cls:
                if isinstance(m.value, (int, float)) and decide(tm.ez(value.p.sub(tm.Poly.const(m.value)))):
                    return m
            raise ValueError('%r is not a valid %s' % (value, cls.__name__))
        return super().__call__(value, *a, **k)

    def __getitem__(cls, name):
        if isinstance(name, Choice):
            return over([(p, v) for v, p in name.e.m.items()], lambda v: cls[v], name.resolve)
        return super().__getitem__(name)


class Enum(_enum.Enum, metaclass=_EnumMeta):
    pass


class EnumModule:
    Enum = Enum
    EnumMeta = _EnumMeta
    IntEnum = _enum.IntEnum
    auto = _enum.auto
    unique = staticmethod(_enum.unique)

    def __getattr__(self, n):
        raise Unsupported('enum.' + n)


def choice_attr(self, n):
    if n.startswith('__'):
        raise AttributeError(n)
    ms = list(self.e.m)
    if not all(isinstance(m, (_enum.Enum, str)) for m in ms):
        raise AttributeError(n)
    alts = [(p, m) for m, p in self.e.m.items()]
    if any(callable(getattr(type(m), n, None)) for m in ms):
        return lambda *a, **k: over(alts, lambda o: getattr(o, n)(*a, **k), self.resolve)
    return over(alts, lambda o: getattr(o, n), self.resolve)


Choice.__getattr__ = choice_attr


def _str_add(self, o):
    if isinstance(o, (str, Choice)):
        x = o.e if isinstance(o, Choice) else sn.as_enum(o)
        r = {}
        for a, p in self.e.m.items():
            for b, q in x.m.items():
                if not (isinstance(a, str) and isinstance(b, str)):
                    return NotImplemented
                r[a + b] = r.get(a + b, ZERO).add(p.mul(q))
        return sn.from_entry(sn.EnumV(r))
    return NotImplemented


def _str_radd(self, o):
    if isinstance(o, str):
        r = {}
        for a, p in self.e.m.items():
            if not isinstance(a, str):
                return NotImplemented
            r[o + a] = r.get(o + a, ZERO).add(p)
        return sn.from_entry(sn.EnumV(r))
    return NotImplemented


Choice.__add__ = _str_add
Choice.__radd__ = _str_radd


def B_type(*a, **k):
    if len(a) != 1 or k:
        return type(*a, **k)
    x = a[0]
    if isinstance(x, Alt):
        ts = [type(o) for c, o in x._alts]
        return ts[0] if all(t is ts[0] for t in ts) else type(x.resolve())
    if isinstance(x, Choice):
        x = x.resolve()
    return type(x)


DICT = dict
LIST = list
sn.MERGE_OBJ = merge
