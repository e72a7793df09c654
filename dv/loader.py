"""Load the real modules of /repo under the symbolic domain.

The source text is read from /repo on every run.  What the translation changes (and nothing else):
  * numpy/math and the builtins len,range,max,min,sum,abs,round,enumerate,zip,list,isinstance,any,all,
    sorted,float,int,bool,str are bound to symbolic versions that agree with the real ones on constants;
  * list displays / dict displays are wrapped (DList / DDict) so that symbolic keys and symbolic
    lengths work;  comprehensions over a list of symbolic length evaluate the generic element;
  * a `for` statement inside a function keeps its native form and gets a second form, used only when
    the iterable has a symbolic length: its body as a closure, run once for a generic element;
  * an `if` that only prints evaluates its condition and does not branch;
  * `x is None` is asked of the value (an optional symbolic value answers symbolically).
Docstrings, type annotations and prints are irrelevant to the result.
"""
import ast
import builtins
import enum
import importlib
import os
import sys
import types
from . import symnp as sn
from . import terms as tm
from . import vfs
from . import objs
from .terms import Poly, Unsupported, ZERO, P1, new_iv, sum_over, b_not
from .symnp import S, T, SymList, DList, Choice, decide

REPO = os.environ.get('DV_REPO', '/repo')
PKG = 'heat_load_calc'


# ------------------------------------------------------------------ optional values
class Opt:
    """value that may be None"""

    def __init__(self, isnone, val):
        self.isnone = isnone
        self.val = val

    def __getitem__(self, k):
        if decide(self.isnone):
            raise TypeError("'NoneType' object is not subscriptable")
        return self.val[k]

    def some(self):
        return None if decide(self.isnone) else self.val

    def entry(self):
        return None if decide(self.isnone) else sn.to_entry(self.val)

    def __bool__(self):
        return not decide(self.isnone) and bool(self.val)

    def __eq__(self, o):
        return self.some() == o

    def __ne__(self, o):
        return self.some() != o

    __hash__ = object.__hash__

    def __getattr__(self, n):
        if n.startswith('__') or n in ('isnone', 'val'):
            raise AttributeError(n)
        return getattr(self.some(), n)


def _is_none(x):
    if x is Undefined:
        _undefined()
    if isinstance(x, Opt):
        return S(x.isnone, True)
    if isinstance(x, Choice) and None in x.e.m:
        return S(x.e.m[None], True)
    return x is None


def _is_not_none(x):
    r = _is_none(x)
    return S(b_not(r.p), True) if isinstance(r, S) else not r


# ------------------------------------------------------------------ dicts
def _guard(name):
    old = getattr(dict, name)

    def change(self, *a, **k):
        _changing(self)
        return old(self, *a, **k)
    return change


class DDict(dict):
    __setitem__, __delitem__, update, pop, popitem, setdefault, clear = map(_guard, '__setitem__ __delitem__ update pop popitem setdefault clear'.split())

    def __init__(self, *a, **k):
        dict.__init__(self, *a, **k)
        _own(self)

    def __getitem__(self, k):
        if isinstance(k, Choice):
            items = []
            for v, p in k.e.m.items():
                items.append((v, p))
            miss = [v for v, p in items if v not in self]
            if miss:
                k = k.resolve()
                return dict.__getitem__(self, k)
            try:
                return sn.merge_values([(p, dict.__getitem__(self, v)) for v, p in items])
            except Unsupported:
                return dict.__getitem__(self, k.resolve())
        if isinstance(k, S):
            if k.p.is_const():
                return dict.__getitem__(self, k.p.const_val())
            for v in self:
                if isinstance(v, (int, float)) and decide(tm.ez(k.p.sub(Poly.const(v)))):
                    return dict.__getitem__(self, v)
            raise KeyError(k)
        if isinstance(k, tuple) and any(isinstance(e, (S, Choice)) for e in k):
            for v in self:
                if isinstance(v, tuple) and len(v) == len(k) and all(bool(a == b) for a, b in zip(k, v)):
                    return dict.__getitem__(self, v)
            raise KeyError(k)
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        try:
            return self[k]
        except KeyError:
            return d

    def __contains__(self, k):
        if isinstance(k, (S, Choice)):
            for v in self.keys():
                if k == v:
                    return True
            return False
        return dict.__contains__(self, k)


# ------------------------------------------------------------------ runtime support of the transformed code
def _comp(it, f):
    it = _symiter(it)
    if isinstance(it, SymList):
        iv = tm.new_iv(it.dim)
        n = sn._ivname(iv)
        return objs.Segs([(it.dim, n, objs.paths_of([n], P1, lambda: f(it.elem(iv))))]).single()
    if isinstance(it, objs.Segs):
        return it.map(f)
    return DList([y for e in it for y in f(e)])


def _symiter(it):
    if isinstance(it, DList) and getattr(it, 'tail', None) is not None:
        return it.tail
    if isinstance(it, T) and it.ndim == 1 and it.sym[0] and it.mask:
        n, d = it.sym[0]
        return objs.Segs([(d, n, [(it.mask[1], sn.from_entry(it.a[0], it.isb))])])
    if isinstance(it, T) and it.ndim and it.sym[0]:
        return SymList(it.sym[0][1], lambda p: it[S(p)])
    return it


def _issym(it):
    return isinstance(_symiter(it), (SymList, objs.Segs))


class Ghost:
    """value of a ghost counter: the state after so many steps of a process (tag); a loop that carries it has the
    invariant  position = position at entry + number of iterations  (checked, then used)"""

    def __init__(self, tag, pos):
        self.tag = tag
        self.pos = pos
        GHOSTS[tag] = pos


GHOSTS = {}             # latest position of each process


def _surely(p, c):
    if p == P1:
        return True
    from . import prover as pv
    return pv.feasible([q for x in sn._ctx for q in x.pc] + [c, b_not(p)]) is False


class _LoopFrame:
    def __init__(self):
        self.appends = {}
        self.order = []


def _own(x):
    if _frames:
        _frames[-1].own.add(id(x))
        _frames[-1].keep.append(x)


def _changing(x):
    if _frames and id(x) not in _frames[-1].own:
        raise Unsupported('a symbolic loop changes an object that outlives it')


def _own_parts(e, depth=0):
    if depth > 3:
        return
    if isinstance(e, dict) or objs.is_obj(e):
        _own(e)
        for v in (e.values() if isinstance(e, dict) else e.__dict__.values()):
            _own_parts(v, depth + 1)
    elif isinstance(e, tuple):
        for v in e:
            _own_parts(v, depth + 1)


def _setattr(self, n, v):
    if _frames:
        if n in self.__dict__ or self.__dict__:
            _changing(self)
        else:
            _own(self)
    object.__setattr__(self, n, v)


class DListX(DList):
    pass


_frames = []


def _append(self, x):
    if _frames and id(self) not in _frames[-1].own:
        f = _frames[-1]
        f.appends.setdefault(id(self), (self, []))[1].append(x)
        return
    list.append(self, x)


class LList(DList):
    """list display of the program; may acquire a symbolic tail in a loop over a symbolic list"""

    def __init__(self, *a):
        list.__init__(self, *a)
        self.tail = None
        if _frames:
            _frames[-1].own.add(id(self))
            _frames[-1].keep.append(self)

    def append(self, x):
        if _frames and id(self) not in _frames[-1].own:
            _frames[-1].appends.setdefault(id(self), (self, []))[1].append(x)
            return
        if self.tail is not None:
            self.tail = objs.Segs.of(self.tail) + [x]
            return
        list.append(self, x)

    def extend(self, xs):
        xs = _symiter(xs)
        if _frames and id(self) not in _frames[-1].own:
            if isinstance(xs, (SymList, objs.Segs)):
                raise Unsupported('loop extends a list by a symbolic list')
            _frames[-1].appends.setdefault(id(self), (self, []))[1].extend(xs)
            return
        if self.tail is not None or isinstance(xs, (SymList, objs.Segs)):
            self.tail = (objs.Segs.of(self) + xs).single()
            list.clear(self)
            return
        list.extend(self, xs)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def _plain(self, what):
        if self.tail is not None:
            raise Unsupported('%s of a symbolic list' % what)
        if _frames and id(self) not in _frames[-1].own and what not in ('iteration', 'len', 'in', 'index', 'count'):
            raise Unsupported('%s of a list in a symbolic loop' % what)

    def __iter__(self):
        self._plain('iteration')
        return list.__iter__(self)

    def __len__(self):
        self._plain('len')
        return list.__len__(self)

    def __bool__(self):
        if self.tail is not None:
            return bool(self.tail)
        return list.__len__(self) > 0

    def __contains__(self, x):
        self._plain('in')
        for y in list.__iter__(self):
            if y is x or y == x:
                return True
        return False

    def index(self, *a):
        self._plain('index')
        return list.index(self, *a)

    def count(self, *a):
        if self.tail is not None and isinstance(self.tail, SymList):
            return self.tail.count(*a)
        self._plain('count')
        return list.count(self, *a)

    def insert(self, *a):
        self._plain('insert')
        list.insert(self, *a)

    def pop(self, *a):
        self._plain('pop')
        return list.pop(self, *a)

    def remove(self, *a):
        self._plain('remove')
        list.remove(self, *a)

    def reverse(self):
        self._plain('reverse')
        list.reverse(self)

    def sort(self, **k):
        self._plain('sort')
        list.sort(self, **k)

    def clear(self):
        self._plain('clear')
        list.clear(self)

    def copy(self):
        return LList(self) if self.tail is None else self.tail

    def __mul__(self, n):
        self._plain('repetition')
        if isinstance(n, S) and not n.p.is_const():
            if len(self) != 1:
                raise Unsupported('list repetition')
            return sn.np_full(n, self[0])
        return LList(list.__mul__(self, int(n)))

    __rmul__ = __mul__

    def __add__(self, o):
        o = _symiter(o)
        if self.tail is not None or isinstance(o, (SymList, objs.Segs)):
            return (objs.Segs.of(self) + o).single()
        return LList(list.__add__(self, list(o)))

    def __eq__(self, o):
        self._plain('comparison')
        return list.__eq__(self, o)

    def __ne__(self, o):
        self._plain('comparison')
        return list.__ne__(self, o)

    __hash__ = None

    def __getitem__(self, k):
        if self.tail is not None:
            return self.tail[k]
        if isinstance(k, S) and not k.p.is_const():
            return sn.merge_values([(tm.ez(k.p.sub(Poly.const(i))), list.__getitem__(self, i))
                                    for i in range(len(self))])
        if isinstance(k, S):
            k = int(k)
        return list.__getitem__(self, k)


def _symloop(it, body, getters, setters, plain=()):
    """run the body once for the generic element; merge its paths; summarise appends and accumulations"""
    it = _symiter(it)
    if isinstance(it, objs.Segs):
        def guarded(items):
            for c, v in items:
                if c == P1 or decide(c):
                    body(v)
        for d, n, items in it.segs:
            if d is None:
                if any(c != P1 for c, v in items):
                    raise Unsupported('loop over a list of unknown length')
                for c, v in items:
                    body(v)
            else:
                _symloop(SymList(d, lambda p: tuple((c.subst({n: p}), objs.subst(v, {n: p})) for c, v in items)), guarded, getters, setters, plain)
        return
    dim = it.dim
    iv = new_iv(dim)
    name = sn._ivname(iv)
    base = [g() for g in getters]
    acc = {}
    for n, b in enumerate(base):
        if isinstance(b, (S, int, float)) and not isinstance(b, bool):
            acc[n] = tm.var(tm.fresh_name('acc'))
        elif isinstance(b, T):
            acc[n] = None
        elif isinstance(b, Ghost):
            acc[n] = Ghost(b.tag, sn._conv(b.pos) + S(iv))
    # a variable that the body assigns and that is neither a running total nor an array changed in place has no known value when an iteration begins
    rebound = [n for n in range(len(base)) if n not in acc or acc[n] is None and n in plain]
    w0 = len(sn.LOOP_WRITES)
    sn.enter_loop(name, dim)
    mine = [_atom(v) for v in acc.values() if isinstance(v, Poly)]
    sn.LOOP_ACC.update((a, name) for a in mine)

    def run():
        fr = _LoopFrame()
        fr.own = set()
        fr.keep = []
        _frames.append(fr)
        try:
            for n, v in acc.items():
                if isinstance(v, Ghost):
                    setters[n](v)
                elif v is not None:
                    setters[n](S(v))
            for n in rebound:
                setters[n](Undefined)
            e = it.elem(iv)
            _own_parts(e)
            shot = _shot(e)
            hold = list(e.values()) if isinstance(e, dict) else list(e.__dict__.values()) if objs.is_obj(e) else None
            body(e)
            fr.elem = e if _shot(e) != shot else None
            if fr.elem is not None and not isinstance(e, dict) and not objs.is_obj(e):
                raise Unsupported('loop changes its elements')
            res = [g() for g in getters]
        finally:
            _frames.pop()
        return fr, res
    try:
        saved = [(b, b.a) for b in base if isinstance(b, T)]
        sn.ACTIVE.add(name)
        try:
            out = sn.explore(run)
        finally:
            sn.ACTIVE.discard(name)
        if any(k == 'exc' for pc, k, v in out):
            bad = [v for pc, k, v in out if k == 'exc'][0]
            if len(out) == 1:
                raise bad
            raise Unsupported('loop body may raise %r' % (bad,))
        if len(sn.LOOP_WRITES) > w0 and len(out) > 1:
            raise Unsupported('branching loop body that writes arrays')
        if any(fr.elem is not None for pc, k, (fr, res) in out):
            if len(out) > 1:
                raise Unsupported('branching loop body that changes its elements')
            it.elem = _generic(dim, name, out[0][2][0].elem).elem
        # appends
        lists = {}
        for pc, k, (fr, res) in out:
            for i, (l, xs) in fr.appends.items():
                lists[i] = l
        for pc, k, (fr, res) in out:
            for l, xs in fr.appends.values():
                for x in xs:
                    _no_total(x)
        for i, l in lists.items():
            per = [(sn.conj(pc), fr.appends.get(i, (l, []))[1]) for pc, k, (fr, res) in out]
            w = len(per[0][1])
            if all(len(xs) == w for c, xs in per):
                items = [(P1, _merge_opt([(c, xs[j]) for c, xs in per])) for j in range(w)]
            else:
                items = [(c, x) for c, xs in per for x in xs]
            more = objs.Segs([(dim, name, items)])
            l.tail = (more if not list.__len__(l) and l.tail is None else objs.Segs.of(l) + more).single()
            list.clear(l)
            if isinstance(l.tail, list):
                list.extend(l, l.tail)
                l.tail = None
        # accumulations
        for n in range(len(base)):
            if n not in acc:
                setters[n](Undefined)
        for n, v in acc.items():
            finals = [(sn.conj(pc), res[n]) for pc, k, (fr, res) in out]
            if isinstance(v, Ghost):
                if all(isinstance(f, Ghost) and f.tag == v.tag and _surely(tm.ez(sn._conv(f.pos - v.pos).p.sub(P1)), c) for c, f in finals):
                    setters[n](Ghost(v.tag, sn._conv(base[n].pos) + S(dim)))
                else:
                    setters[n](Undefined)
                    GHOSTS.pop(v.tag, None)
                continue
            if v is None:
                setters[n](Undefined if n in plain or any(f is not base[n] for c, f in finals) else base[n])
                continue
            fin = sn.to_entry(sn.merge_values(finals))
            if not isinstance(fin, Poly):
                setters[n](Undefined)
                continue
            d = fin.sub(v)
            if any(a in d.atoms() for a in mine):
                setters[n](Undefined)
            else:
                tot = sum_over(d, name, dim)
                setters[n](S(sn.to_entry(base[n]).add(tot)))
    finally:
        sn.leave_loop(name)
        for a in mine:
            sn.LOOP_ACC.pop(a, None)


def _no_total(v):
    if isinstance(v, S):
        sn.loop_bound([v.p])
    elif isinstance(v, T):
        sn.loop_bound(v.a.reshape(-1))
    elif isinstance(v, Choice):
        sn.loop_bound([v.e])
    elif isinstance(v, dict):
        for x in v.values():
            _no_total(x)
    elif isinstance(v, (list, tuple)):
        for x in (list.__iter__(v) if isinstance(v, list) else v):
            _no_total(x)
    elif objs.is_obj(v):
        for x in v.__dict__.values():
            _no_total(x)


def _atom(p):
    (m, c), = p.t.items()
    return m[1][0][0]


def _shot(e, depth=0):
    """identity of the parts of a mutable element"""
    if depth > 3:
        return ()
    if isinstance(e, dict):
        return tuple((k, id(v), _shot(v, depth + 1)) for k, v in e.items())
    if isinstance(e, (list, tuple)) and getattr(e, 'tail', None) is None:
        return tuple((id(v), _shot(v, depth + 1)) for v in list.__iter__(e) if 1) if isinstance(e, list) else \
            tuple((id(v), _shot(v, depth + 1)) for v in e)
    if objs.is_obj(e):
        return tuple((k, id(v), _shot(v, depth + 1)) for k, v in e.__dict__.items())
    return ()


class _Undefined:
    pass


def _undefined(*a):
    raise Unsupported('loop-carried variable without an invariant')


for _n in ('getattr bool eq ne lt le gt ge add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod pow rpow neg pos abs '
           'and rand or ror xor rxor invert matmul rmatmul iter len getitem setitem contains call float int index str repr format').split():
    setattr(_Undefined, '__%s__' % _n, _undefined)
_Undefined.__hash__ = object.__hash__

Undefined = _Undefined()


def _merge_opt(cv):
    vals = [v for c, v in cv]
    if any(v is None for v in vals) and any(isinstance(v, (S, T, int, float)) for v in vals):
        none = ZERO
        some = []
        for c, v in cv:
            if v is None:
                none = none.add(c)
            else:
                some.append((c, v))
        return Opt(none, sn.merge_values(some) if len(some) > 1 else some[0][1])
    return sn.merge_values(cv)


def _generic(dim, name, val):
    return SymList(dim, lambda p: objs.subst(val, {name: p}))


def _mklist(l):
    return LList(l)


objs.DICT = DDict
objs.LIST = LList
_old_conv = sn._conv


def _conv2(x):
    if isinstance(x, Opt):
        if decide(x.isnone):
            raise TypeError('unsupported operand type: NoneType')
        return _old_conv(x.val)
    if isinstance(x, LList) and x.tail is not None:
        return sn.np_array(x.tail)
    return _old_conv(x)


sn._conv = _conv2
_old_array = sn.np_array


def _array2(x, dtype=None, copy=True):
    if isinstance(x, LList) and x.tail is not None:
        x = x.tail
    if isinstance(x, objs.Segs):
        return _segs_array(x)
    return _old_array(x, dtype)


def _segs_array(x):
    """numbers of a list made of one piece of unknown length and single values"""
    if len(x.segs) == 1 and x.segs[0][0] is not None and len(x.segs[0][2]) == 1 and isinstance(x.segs[0][2][0][1], (S, int, float)):
        d, n, ((c, v),) = x.segs[0]
        iv = new_iv(d)
        s = {n: iv}
        v = sn._conv(v)
        return T(sn._obj((1,), v.p.subst(s)), [(sn._ivname(iv), d)], v.isb, None if c == P1 else (0, c.subst(s)))
    if len(x.segs) == 1 and x.segs[0][0] is not None and len(x.segs[0][2]) == 1 and isinstance(x.segs[0][2][0][1], T) and x.segs[0][2][0][1].mask is None:
        d, n, ((c, v),) = x.segs[0]
        iv = new_iv(d)
        v = objs.subst(v, {n: iv})
        return T(v.a[None, ...], [(sn._ivname(iv), d)] + list(v.sym), v.isb, None if c == P1 else (0, c.subst({n: iv})))
    if sum(1 for d, n, it in x.segs if d is not None) != 1 or any(c != P1 or not isinstance(v, (S, int, float)) for d, n, it in x.segs for c, v in it) \
            or any(d is not None and len(it) != 1 for d, n, it in x.segs):
        raise Unsupported('array of such a list')
    at, pins, main = tm.ZERO, [], None
    for d, n, it in x.segs:
        if d is None:
            for c, v in it:
                pins.append((at, sn._conv(v).p))
                at = at.add(P1)
        else:
            main = (at, n, sn._conv(it[0][1]).p)
            at = at.add(d)
    iv = new_iv(at)
    r = main[2].subst({main[1]: iv.sub(main[0])})
    for k, v in pins:
        c = tm.ez(iv.sub(k))
        r = c.mul(v).add(b_not(c).mul(r))
    return T(sn._obj((1,), r), [(sn._ivname(iv), at)])


def _blist(x=()):
    x = _symiter(x)
    if isinstance(x, (SymList, objs.Segs)):
        l = LList()
        l.tail = x
        return l
    return LList(sn.B_list(x))


_blist.is_list = True


sn.np_array = _array2
sn.NP.array = sn.NP.asarray = staticmethod(_array2)
_old_aslist = sn._aslist


def _aslist2(x):
    if isinstance(x, LList) and x.tail is not None:
        return x.tail
    return _old_aslist(x)


sn._aslist = _aslist2


def _blen(x):
    x = _symiter(x)
    if isinstance(x, objs.Segs):
        return x.length()
    return sn.B_len(x)


def _benum(x, start=0):
    return sn.B_enumerate(_symiter(x), start)


def _bsum(x, start=0):
    x = x if isinstance(x, T) else _symiter(x)
    if isinstance(x, objs.Segs):
        return S(x.total(sn.to_entry)) + start
    return sn.B_sum(x if isinstance(x, T) else _symiter(x), start)


def _deepconv(x):
    if isinstance(x, dict):
        return DDict({k: _deepconv(v) for k, v in x.items()})
    if isinstance(x, list):
        return LList([_deepconv(v) for v in x])
    return x


# ------------------------------------------------------------------ AST
class Tr(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0
        self.n = 0
        self.loops = 0      # symbolic loop bodies around the statement

    def visit_AnnAssign(self, node):
        self.generic_visit(node)
        return node

    def visit_FunctionDef(self, node):
        # annotations are not evaluated for their effect on results
        node.returns = None
        for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs:
            a.annotation = None
        self.depth += 1
        g = [set()]
        for st in ast.walk(node):
            if isinstance(st, (ast.Global, ast.Nonlocal)):
                g[0] |= set(st.names)
        self.globs = g[0]
        node.body = self._stmts(node.body)
        self.depth -= 1
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        return node

    def _stmts(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append(r)
        return out

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return _call('__mklist__', [node])
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        return _call('__mkdict__', [node])

    visit_DictComp = visit_Dict

    def visit_ListComp(self, node):
        return self._comp(node)

    def visit_GeneratorExp(self, node):
        return self._comp(node)

    def _comp(self, node):
        self.generic_visit(node)
        g0 = node.generators[0]
        it = g0.iter
        e = ast.Name('__e', ast.Load())
        ng = [ast.comprehension(target=g0.target, iter=ast.Tuple([e], ast.Load()), ifs=g0.ifs, is_async=0)]
        inner = ast.ListComp(elt=node.elt, generators=ng + node.generators[1:])
        lam = ast.Lambda(args=_args(['__e']), body=inner)
        return _call('__comp__', [it, lam])

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.comparators[0], ast.Constant) and node.comparators[0].value is None:
            if isinstance(node.ops[0], ast.Is):
                return _call('__isnone__', [node.left])
            if isinstance(node.ops[0], ast.IsNot):
                return _call('__isnotnone__', [node.left])
        return node

    def visit_If(self, node):
        self.generic_visit(node)
        if not node.orelse and all(isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name)
                                   and x.value.func.id == 'print' for x in node.body):
            return ast.Expr(node.test)
        return node

    def visit_Assign(self, node):
        if self.loops and len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) and not _has([node.targets[0]], (ast.Slice,)) and isinstance(node.targets[0].value, ast.Name):
            t = node.targets[0]
            here = ast.dump(_load(t))
            v = _clone(node.value)
            at, up = v, None
            while isinstance(at, ast.BinOp) and isinstance(at.op, (ast.Add, ast.Sub)):
                at, up = at.left, at
            if up is not None and ast.dump(at) == here:
                up.left = ast.Constant(0)
                if not any(isinstance(m, ast.Name) and m.id == t.value.id for m in ast.walk(v)):
                    return self._accum(node, t, v)
        self.generic_visit(node)
        return node

    def visit_AugAssign(self, node):
        t = node.target
        if self.loops and isinstance(t, ast.Subscript) and not _has([t], (ast.Slice,)) and isinstance(t.value, ast.Name) and isinstance(node.op, (ast.Add, ast.Sub)) and \
                not any(isinstance(m, ast.Name) and m.id == t.value.id for m in ast.walk(node.value)):
            return self._accum(node, t, _clone(node.value) if isinstance(node.op, ast.Add) else ast.UnaryOp(ast.USub(), _clone(node.value)))
        self.generic_visit(node)
        return node

    def _accum(self, node, t, delta):
        self.generic_visit(node)
        key = self.visit(_clone(_load(t).slice))
        cond = _call('__accum__', [_load(t.value), ast.Lambda(args=_args([]), body=key), ast.Lambda(args=_args([]), body=self.visit(delta))])
        return ast.If(test=ast.UnaryOp(ast.Not(), cond), body=[node], orelse=[])

    def visit_For(self, node):
        simple = self.depth > 0 and not node.orelse and not _has(node.body, (ast.Return, ast.Break, ast.Yield, ast.YieldFrom))
        if not simple:
            self.generic_visit(node)
            return node
        self.n += 1
        itn = '__it%d' % self.n
        bn = '__body%d' % self.n
        names = sorted(_assigned([node]) - self.globs)
        it = self.visit(node.iter)
        body1 = self._stmts([_clone(s) for s in node.body])
        self.loops += 1
        body2 = self._stmts([_clone(s) for s in node.body])
        self.loops -= 1
        asg = ast.Assign(targets=[ast.Name(itn, ast.Store())], value=it)
        native = ast.For(target=node.target, iter=ast.Name(itn, ast.Load()), body=body1, orelse=[])
        if _has(node.body, (ast.Continue,)):
            cont = _Cont()
            body2 = [cont.visit(s) for s in body2]
        fbody = ([ast.Nonlocal(names=names)] if names else []) + \
            [ast.Assign(targets=[_clone(node.target)], value=ast.Name('__e', ast.Load()))] + body2
        fdef = ast.FunctionDef(name=bn, args=_args(['__e']), body=fbody, decorator_list=[], returns=None,
                               type_comment=None, type_params=[])
        tnames = _assigned([ast.For(target=node.target, iter=ast.Constant(0), body=[ast.Pass()], orelse=[])])
        state = [n for n in names if n not in tnames]
        stored = {m.id for m in ast.walk(ast.Module(body=[_clone(x) for x in node.body if 1], type_ignores=[])) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)}
        for m in ast.walk(ast.Module(body=node.body, type_ignores=[])):
            if isinstance(m, ast.AugAssign) and isinstance(m.target, ast.Name):
                stored.discard(m.target.id)
        for m in ast.walk(ast.Module(body=node.body, type_ignores=[])):
            if isinstance(m, (ast.Assign, ast.AnnAssign, ast.For, ast.With, ast.NamedExpr)):
                for t in (m.targets if isinstance(m, ast.Assign) else [i.optional_vars for i in m.items if i.optional_vars] if isinstance(m, ast.With) else [m.target]):
                    stored |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        plain = tuple(i for i, n in enumerate(state) if n in stored)
        getters, setters = [], []
        defs = []
        for n in state:
            defs.append(ast.parse('def __get_%s():\n  try:\n    return %s\n  except NameError:\n    return None' % (n, n)).body[0])
            defs.append(ast.parse('def __set_%s(v):\n  nonlocal %s\n  %s = v' % (n, n, n)).body[0])
            getters.append(ast.Name('__get_' + n, ast.Load()))
            setters.append(ast.Name('__set_' + n, ast.Load()))
        sym = [fdef] + defs + [ast.Expr(_call('__symloop__', [ast.Name(itn, ast.Load()), ast.Name(bn, ast.Load()),
                                                             ast.List(getters, ast.Load()), ast.List(setters, ast.Load()), ast.Constant(plain)]))]
        return [asg, ast.If(test=_call('__issym__', [ast.Name(itn, ast.Load())]), body=sym, orelse=[native])]


class _Cont(ast.NodeTransformer):
    def visit_Continue(self, n):
        return ast.Return(value=None)

    def visit_For(self, n):
        return n

    def visit_While(self, n):
        return n

    def visit_FunctionDef(self, n):
        return n


def _load(t):
    t = _clone(t)
    if hasattr(t, 'ctx'):
        t.ctx = ast.Load()
    return t


def _only(q):
    """an index list of one element selects that element (the increment is a number)"""
    if isinstance(q, list) and getattr(q, 'tail', None) is None and list.__len__(q) == 1 and isinstance(list.__getitem__(q, 0), S):
        return list.__getitem__(q, 0)
    return q


def _accum(x, key, delta):
    """x[key] += delta() in symbolic loops that key does not run over; False: do it as written"""
    if not isinstance(x, T) or len(sn.LOOP_IVS) <= x.ld:
        return False
    k = key()
    if isinstance(k, tuple):
        k = tuple(_only(q) for q in k)
    own, scattered = sn.own_index(x, k)
    if all(n in own for n, d in sn.LOOP_IVS[x.ld:]):
        return False
    return sn.accumulate(x, k, delta())


def _clone(n):
    import copy
    return copy.deepcopy(n)


def _has(body, kinds):
    for s in body:
        for n in _walk_nofn(s):
            if isinstance(n, kinds):
                return True
    return False


def _walk_nofn(n):
    yield n
    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
        return
    for c in ast.iter_child_nodes(n):
        yield from _walk_nofn(c)


def _assigned(body):
    r = set()
    for s in body:
        for n in _walk_stmt_scope(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                r.add(n.id)
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                r.add(n.name)
    return r


def _walk_stmt_scope(n):
    yield n
    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
        return
    for c in ast.iter_child_nodes(n):
        yield from _walk_stmt_scope(c)


def _args(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[])


def _call(f, args):
    return ast.Call(ast.Name(f, ast.Load()), args, [])


# ------------------------------------------------------------------ modules
class _Stub:
    """a library the verifier does not interpret"""

    def __init__(self, name):
        object.__setattr__(self, '_n', name)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return _Stub(self._n + '.' + n)

    def __call__(self, *a, **k):
        raise Unsupported('call of %s' % self._n)

    def __mro_entries__(self, bases):
        return (object,)


class World:
    """one symbolic copy of the package"""

    def __init__(self, overrides=None):
        self.mods = {}
        self.fs = {}
        self.over = {'numpy': sn.NP(), 'math': sn.MATH(), 'pandas': vfs.Pandas(self), 'scipy': _Stub('scipy'),
                     'scipy.optimize': _Stub('scipy.optimize'), 'json': vfs.Json(_deepconv), 'csv': vfs.Csv(),
                     'enum': objs.EnumModule(), 'copy': objs.Copy()}
        self.over.update(overrides or {})
        self.loading = []

    def builtins_for(self):
        b = dict(vars(builtins))
        b.update(sn.BUILTINS)
        b.update({'len': _blen, 'list': _blist, 'enumerate': _benum, 'sum': _bsum,
                  '__mklist__': _mklist, '__mkdict__': DDict, '__comp__': _comp, '__isnone__': _is_none,
                  '__isnotnone__': _is_not_none, '__issym__': _issym, '__symloop__': _symloop, '__accum__': _accum,
                  'type': objs.B_type, '__import__': self.imp, 'print': lambda *a, **k: None, 'open': self._open})
        return b

    def _open(self, *a, **k):
        return vfs.make_open(self, REPO)(*a, **k)

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals['__name__'].rsplit('.', level)[0]
            name = base + ('.' + name if name else '')
        if name in self.over:
            m = self.over[name]
            return m
        if '.' in name and name.split('.')[0] in self.over and name.split('.')[0] != PKG:
            if fromlist:
                return getattr(self.over[name.split('.')[0]], name.split('.', 1)[1])
            return self.over[name.split('.')[0]]
        if name == PKG or name.startswith(PKG + '.'):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        try:
                            setattr(m, f, self.load(name + '.' + f))
                        except FileNotFoundError:
                            raise ImportError(f)
                return m
            return self.load(name.split('.')[0])
        return builtins.__import__(name, globals, locals, fromlist, level)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path = os.path.join(REPO, name.replace('.', '/'))
        if os.path.isdir(path):
            path = os.path.join(path, '__init__.py')
            pkg = True
            src = open(path).read() if os.path.exists(path) else ''
        else:
            path += '.py'
            pkg = False
            src = open(path).read()
        m = types.ModuleType(name)
        m.__file__ = path
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        self.mods[name] = m
        m.__dict__['__builtins__'] = self.builtins_for()
        sys.modules.setdefault('dvsym.' + name, m)
        tree = ast.parse(src)
        tree = Tr().visit(tree)
        ast.fix_missing_locations(tree)
        m.__dict__['__name__'] = 'dvsym.' + name
        m.__dict__['__package__'] = name if pkg else name.rsplit('.', 1)[0]
        sys.modules['dvsym.' + name] = m
        try:
            exec(compile(tree, path, 'exec'), m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        for c in list(m.__dict__.values()):
            if isinstance(c, type) and c.__module__ == 'dvsym.' + name and c.__setattr__ is object.__setattr__ and not hasattr(c, '__slots__') \
                    and not issubclass(c, (tuple, dict, list, enum.Enum, BaseException)):
                c.__setattr__ = _setattr
        if '.' in name:
            parent, ch = name.rsplit('.', 1)
            setattr(self.load(parent), ch, m)
        return m

    def __getitem__(self, short):
        return self.load(PKG + '.' + short)

    def patch(self, old, new):
        """replace a function in every namespace that refers to it"""
        n = 0
        for m in list(self.mods.values()):
            for k, v in list(vars(m).items()):
                if v is old:
                    setattr(m, k, new)
                    n += 1
        return n
