"""refactor.py: systematic changes of form that keep the behaviour, applied to the whole program; the checks must stay quiet (development aid, no part of a check).
  refactor.py KIND[,KIND...] [OUT]     rewrites a fresh clone of /repo at OUT (default /tmp/rf); run the checks with DV_REPO=OUT
"""
import ast
import builtins
import copy
import os
import shutil
import subprocess
import sys

FN = (ast.FunctionDef,)


def names(n, ctx=ast.Load):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)}


def bodies(tree):
    for n in ast.walk(tree):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, f, b


def in_functions(tree, change):
    """change(function, statement list) -> statement list for every block within functions"""
    for fn in [x for x in ast.walk(tree) if isinstance(x, FN)]:
        for n, f, b in list(bodies(fn)):
            setattr(n, f, change(fn, b))


def returns(tree):
    def ch(fn, b):
        out = []
        for s in b:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                out += [ast.Assign([ast.Name('outcome', ast.Store())], s.value), ast.Return(ast.Name('outcome', ast.Load()))]
            else:
                out.append(s)
        return out
    in_functions(tree, ch)


def flip(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        elif isinstance(n, ast.IfExp):
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body


def loops(tree):
    """list comprehensions of assignments and returns as loops"""
    def ch(fn, b):
        out = []
        for s in b:
            v = getattr(s, 'value', None)
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, ast.ListComp) and len(v.generators) == 1:
                g = v.generators[0]
                used = names(g.target, ast.Store)
                others = set()
                for x in ast.walk(fn):
                    if isinstance(x, ast.Name):
                        others.add(x.id)
                inner = {x.id for x in ast.walk(v) if isinstance(x, ast.Name)}
                more = [x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id in used]
                mine = [x.id for x in ast.walk(v) if isinstance(x, ast.Name) and x.id in used]
                if len(more) != len(mine):
                    out.append(s)
                    continue
                body = [ast.Expr(ast.Call(ast.Attribute(ast.Name('collected', ast.Load()), 'append', ast.Load()), [v.elt], []))]
                for c in reversed(g.ifs):
                    body = [ast.If(c, body, [])]
                out += [ast.Assign([ast.Name('collected', ast.Store())], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, [])]
                s.value = ast.Name('collected', ast.Load())
                out.append(s)
            else:
                out.append(s)
        return out
    in_functions(tree, ch)


def helpers(tree):
    """right-hand sides of assignments and returned expressions become functions of their own"""
    new = []
    top = {n.name for n in tree.body if isinstance(n, FN)}
    for fn in [x for x in ast.walk(tree) if isinstance(x, FN)]:
        local = {a.arg for a in fn.args.args + fn.args.kwonlyargs} | names(fn, ast.Store)
        if any(isinstance(x, (ast.FunctionDef, ast.Global, ast.Nonlocal, ast.Lambda)) for x in ast.walk(fn) if x is not fn):
            continue
        nested = any(fn in ast.walk(o) and o is not fn for o in ast.walk(tree) if isinstance(o, FN))
        if nested:
            continue
        k = 0
        for s in [x for x in ast.walk(fn) if isinstance(x, (ast.Assign, ast.Return))]:
            v = s.value
            if v is None or not isinstance(v, (ast.BinOp, ast.Call, ast.IfExp, ast.ListComp)):
                continue
            if any(isinstance(x, (ast.NamedExpr, ast.Yield)) or (isinstance(x, ast.Name) and x.id in ('super', '__class__', 'locals')) or
                   (isinstance(x, ast.Attribute) and x.attr.startswith('__')) for x in ast.walk(v)):
                continue
            comp = set()
            for x in ast.walk(v):
                if isinstance(x, ast.comprehension):
                    comp |= names(x.target, ast.Store)
            args = sorted((names(v) & local) - comp)
            if len(args) > 12:
                continue
            k += 1
            name = '_step_%d_of_%s_%d' % (k, fn.name.strip('_'), fn.lineno)
            new.append(ast.FunctionDef(name, ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), [ast.Return(v)], [], None, type_params=[]))
            s.value = ast.Call(ast.Name(name, ast.Load()), [ast.Name(a, ast.Load()) for a in args], [])
    at = next((i for i, n in enumerate(tree.body) if isinstance(n, ast.If) and '__name__' in ast.dump(n.test)), len(tree.body))
    tree.body[at:at] = new


def reorder(tree):
    """neighbouring assignments that do not depend on each other change places"""
    def simple(s):
        return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and \
            not any(isinstance(x, ast.Attribute) and x.attr in ('append', 'pop', 'info') for x in ast.walk(s))

    def ch(fn, b):
        b, i = list(b), 0
        while i + 1 < len(b):
            p, q = b[i], b[i + 1]
            if simple(p) and simple(q) and p.targets[0].id not in names(q.value) and q.targets[0].id not in names(p.value) and p.targets[0].id != q.targets[0].id:
                b[i], b[i + 1] = q, p
                i += 1
            i += 1
        return b
    in_functions(tree, ch)


def products(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult):
            n.left, n.right = n.right, n.left
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq}.get(type(n.ops[0]))
            if m:
                n.left, n.comparators, n.ops = n.comparators[0], [n.left], [m()]


def rename(tree):
    """local variables get other names"""
    for fn in [x for x in ast.walk(tree) if isinstance(x, FN)]:
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal)) for x in ast.walk(fn) if x is not fn):
            continue
        args = {a.arg for a in fn.args.args + fn.args.kwonlyargs}
        local = names(fn, ast.Store) - args
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and x.id in local:
                x.id = x.id + '_here'


def wrap(tree):
    """functions of a module hand over to another one that does the work"""
    out = []
    for n in tree.body:
        if isinstance(n, FN) and not n.decorator_list and not n.args.vararg and not n.args.kwarg:
            inner = copy.deepcopy(n)
            inner.name = '_do_' + n.name.strip('_')
            n.body = [ast.Return(ast.Call(ast.Name(inner.name, ast.Load()), [ast.Name(a.arg, ast.Load()) for a in n.args.args],
                                          [ast.keyword(a.arg, ast.Name(a.arg, ast.Load())) for a in n.args.kwonlyargs]))]
            inner.args.defaults = []
            out += [n, inner]
        else:
            out.append(n)
    at = next((i for i, n in enumerate(out) if isinstance(n, ast.If) and '__name__' in ast.dump(n.test)), None)
    tree.body = out


def ternary(tree):
    """conditional expressions of assignments as if statements, and the other way round"""
    def ch(fn, b):
        out = []
        for s in b:
            one = lambda x: isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name)
            if one(s) and isinstance(s.value, ast.IfExp):
                t = s.targets[0]
                out.append(ast.If(s.value.test, [ast.Assign([t], s.value.body)], [ast.Assign([copy.deepcopy(t)], s.value.orelse)]))
            elif isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                out.append(ast.If(s.value.test, [ast.Return(s.value.body)], []))
                out.append(ast.Return(s.value.orelse))
            elif isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1 and one(s.body[0]) and one(s.orelse[0]) and s.body[0].targets[0].id == s.orelse[0].targets[0].id:
                out.append(ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value)))
            elif isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1 and isinstance(s.body[0], ast.Return) and isinstance(s.orelse[0], ast.Return) and s.body[0].value and s.orelse[0].value:
                out.append(ast.Return(ast.IfExp(s.test, s.body[0].value, s.orelse[0].value)))
            else:
                out.append(s)
        return out
    in_functions(tree, ch)


def constants(tree):
    """numbers get names at the head of the module"""
    new, seen = [], {}
    class V(ast.NodeTransformer):
        def visit_Constant(self, n):
            if isinstance(n.value, float):
                k = seen.setdefault(repr(n.value), '_NUMBER_%d' % len(seen))
                return ast.Name(k, ast.Load())
            return n

        def visit_JoinedStr(self, n):
            return n
    for fn in [x for x in ast.walk(tree) if isinstance(x, FN)]:
        fn.body = [V().visit(s) for s in fn.body]
    at = 1 if tree.body and isinstance(tree.body[0], ast.Expr) and isinstance(tree.body[0].value, ast.Constant) else 0
    while at < len(tree.body) and isinstance(tree.body[at], ast.ImportFrom) and tree.body[at].module == '__future__':
        at += 1
    tree.body[at:at] = [ast.Assign([ast.Name(k, ast.Store())], ast.Constant(float(v))) for v, k in seen.items()]


def dicts(tree):
    """returned and assigned dictionaries are filled entry by entry"""
    def ch(fn, b):
        out = []
        for s in b:
            v = getattr(s, 'value', None)
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, ast.Dict) and v.keys and all(k is not None for k in v.keys):
                out.append(ast.Assign([ast.Name('entries', ast.Store())], ast.Dict([], [])))
                for k, x in zip(v.keys, v.values):
                    out.append(ast.Assign([ast.Subscript(ast.Name('entries', ast.Load()), k, ast.Store())], x))
                s.value = ast.Name('entries', ast.Load())
            out.append(s)
        return out
    in_functions(tree, ch)


def inline(tree):
    """a variable used once in the next statement is replaced by its expression"""
    def ch(fn, b):
        b, i = list(b), 0
        while i + 1 < len(b):
            p, q = b[i], b[i + 1]
            if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and isinstance(q, (ast.Assign, ast.Return)) and q.value is not None:
                x = p.targets[0].id
                uses = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == x]
                here = [n for n in ast.walk(q.value) if isinstance(n, ast.Name) and n.id == x]
                deep = any(isinstance(c, (ast.ListComp, ast.Lambda, ast.DictComp, ast.GeneratorExp, ast.SetComp)) and x in names(c) for c in ast.walk(q.value))
                if len(uses) == 2 and len(here) == 1 and not deep:
                    class V(ast.NodeTransformer):
                        def visit_Name(self, n):
                            return p.value if n is here[0] else n
                    q.value = V().visit(q.value)
                    del b[i]
                    continue
            i += 1
        return b
    in_functions(tree, ch)


def collect(tree):
    """loops that only append as comprehensions"""
    def ch(fn, b):
        b, i = list(b), 0
        while i + 1 < len(b):
            p, q = b[i], b[i + 1]
            if isinstance(p, ast.Assign) and isinstance(p.targets[0], ast.Name) and isinstance(p.value, ast.List) and not p.value.elts and \
                    isinstance(q, ast.For) and not q.orelse and len(q.body) == 1 and isinstance(q.body[0], ast.Expr) and isinstance(q.body[0].value, ast.Call) and \
                    isinstance(q.body[0].value.func, ast.Attribute) and q.body[0].value.func.attr == 'append' and \
                    isinstance(q.body[0].value.func.value, ast.Name) and q.body[0].value.func.value.id == p.targets[0].id:
                b[i:i + 2] = [ast.Assign(p.targets, ast.ListComp(q.body[0].value.args[0], [ast.comprehension(q.target, q.iter, [], 0)]))]
            i += 1
        return b
    in_functions(tree, ch)


def nested(tree):
    """'if a and b' without else as two ifs; chained comparisons as two"""
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            vs = n.test.values
            body = n.body
            for v in reversed(vs[1:]):
                body = [ast.If(v, body, [])]
            n.test, n.body = vs[0], body


def keywords(tree, sig={}):
    """arguments of the module's own functions by name if they were by position, by position if they were by name"""
    own = {n.name: n for n in tree.body if isinstance(n, FN) and not n.args.vararg and not n.args.kwarg and not n.args.kwonlyargs}
    for c in [x for x in ast.walk(tree) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in own]:
        ps = [a.arg for a in own[c.func.id].args.args]
        if any(isinstance(a, ast.Starred) for a in c.args) or any(k.arg is None for k in c.keywords):
            continue
        if c.args and not c.keywords:
            c.keywords = [ast.keyword(p, a) for p, a in zip(ps, c.args)]
            c.args = []
        elif c.keywords and not c.args and [k.arg for k in c.keywords] == ps[:len(c.keywords)]:
            c.args = [k.value for k in c.keywords]
            c.keywords = []


def augmented(tree):
    for n in ast.walk(tree):
        for f in ('body', 'orelse'):
            b = getattr(n, f, None)
            if isinstance(b, list):
                for i, s in enumerate(b):
                    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                        b[i] = ast.Assign([s.target], ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value))


def plain(tree):
    pass


def main():
    kinds = sys.argv[1].split(',')
    out = sys.argv[2] if len(sys.argv) > 2 else '/tmp/rf'
    if os.path.exists(out):
        assert out.startswith('/tmp/')
        shutil.rmtree(out)
    subprocess.run(['git', 'clone', '-q', '/repo', out], check=True)
    for d, _, fs in os.walk(out + '/heat_load_calc'):
        for f in fs:
            if f.endswith('.py') and not f.startswith('test_') and '/test' not in d and 'setup' not in f:
                p = os.path.join(d, f)
                try:
                    t = ast.parse(open(p, encoding='utf-8').read())
                except SyntaxError:
                    continue
                for k in kinds:
                    globals()[k](t)
                    ast.fix_missing_locations(t)
                    t = ast.parse(ast.unparse(t))
                open(p, 'w', encoding='utf-8').write(ast.unparse(t) + '\n')


if __name__ == '__main__':
    main()
