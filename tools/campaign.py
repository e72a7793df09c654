"""campaign.py: systematic small changes of the code against the contracts (development aid, no part of a check).
  campaign.py cover                      which contract executes which lines of the repository
  campaign.py run [FILE-substring ...]   apply each small change, run the contracts that execute the line; survivors to /tmp/camp/survivors.txt
"""
import ast
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys

V = '/verif'
C = '/tmp/camp'


def cover():
    sys.argv = ['x']
    sys.path[:0] = [V, V + '/dv']
    import importlib.util
    spec = importlib.util.spec_from_file_location('run', V + '/dv/run.py')
    run = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(run)
    ct = run.ct
    names = [c.name for c in run.load_contracts()]

    def one(name):
        c = [x for x in ct.REGISTRY if x.name == name][0]
        seen = set()

        def tr(fr, ev, arg):
            f = fr.f_code.co_filename
            if '/repo/heat_load_calc/' not in f:
                return None
            seen.add((f, fr.f_lineno))
            return tr
        sys.settrace(tr)
        try:
            for k in range(min(c.trials, 16)):
                ct.run_trial(c, 1, k, None)
        finally:
            sys.settrace(None)
        return name, sorted(seen)
    global _one
    _one = one
    with mp.get_context('fork').Pool(8) as p:
        res = p.map(_call, names, chunksize=1)
    cov = {}
    for n, s in res:
        for f, l in s:
            cov.setdefault(f[len('/repo/'):], {}).setdefault(l, []).append(n)
    json.dump(cov, open(C + '/cover.json', 'w'))
    print(len(names), 'contracts', {f: len(v) for f, v in cov.items()})


def _call(n):
    return _one(n)


SWAP = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*'}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '=='}


def mutants(path, rel):
    src = open(path, encoding='utf-8').read()
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l) + 1)
    bl = [l.encode('utf-8') for l in lines]

    def pos(ln, col):
        return off[ln - 1] + len(bl[ln - 1][:col].decode('utf-8'))

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
    out = []

    def add(n, a, b, new, what):
        if src[a:b] != new:
            out.append((rel, n.lineno, a, b, new, what, src[a:b]))
    tree = ast.parse(src)
    ann = set()
    for n in ast.walk(tree):
        for f in ('annotation', 'returns'):
            x = getattr(n, f, None)
            if isinstance(x, ast.AST):
                ann |= {id(y) for y in ast.walk(x)}
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            ann.add(id(n.value))
        if isinstance(n, ast.Raise):
            ann |= {id(y) for y in ast.walk(n)}
        if isinstance(n, ast.Call) and 'logg' in ast.unparse(n.func):
            ann |= {id(y) for y in ast.walk(n)}
    for n in ast.walk(tree):
        if id(n) in ann:
            continue
        if isinstance(n, ast.BinOp) and type(n.op) in SWAP:
            a = span(n.left)[1]
            b = span(n.right)[0]
            mid = src[a:b]
            o = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/'}[type(n.op)]
            if mid.count(o) == 1:
                add(n, a, b, mid.replace(o, SWAP[type(n.op)]), 'op')
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            a = span(n.left)[1]
            b = span(n.comparators[0])[0]
            t = type(n.ops[0])
            if t in CMP:
                mid = src[a:b]
                old = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}[t]
                add(n, a, b, mid.replace(old, CMP[t]), 'cmp')
            elif t in (ast.In, ast.NotIn):
                add(n, a, b, ' in ' if t is ast.NotIn else ' not in ', 'in')
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            a, b = span(n)
            v = n.value
            add(n, a, b, repr(v + 1) if type(v) is int else repr(v * 1.01 if v else 0.01), 'const')
        elif isinstance(n, ast.BoolOp):
            a = span(n.values[0])[1]
            b = span(n.values[1])[0]
            mid = src[a:b]
            o, w = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
            if mid.count(o) == 1:
                add(n, a, b, mid.replace(o, w), 'bool')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            a, b = span(n)
            c = span(n.operand)
            add(n, a, b, '(' + src[c[0]:c[1]] + ')', 'unary')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Invert):
            a, b = span(n)
            c = span(n.operand)
            add(n, a, b, '(' + src[c[0]:c[1]] + ')', 'unary')
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            a, b = span(n.test)
            add(n, a, b, 'not (' + src[a:b] + ')', 'negate')
        elif isinstance(n, ast.comprehension):
            for i in n.ifs:
                a, b = span(i)
                out.append((rel, i.lineno, a, b, 'True', 'nofilter', src[a:b]))
        elif isinstance(n, ast.Call):
            for x, y in zip(n.args, n.args[1:]):
                a, b = span(x)
                c, d = span(y)
                if not isinstance(x, ast.Starred) and not isinstance(y, ast.Starred):
                    add(n, a, d, src[c:d] + src[b:c] + src[a:b], 'args')
            for x, y in zip(n.keywords, n.keywords[1:]):
                a, b = span(x.value)
                c, d = span(y.value)
                add(n, a, d, src[c:d] + src[b:c] + src[a:b], 'kwargs')
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('min', 'max', 'minimum', 'maximum', 'any', 'all', 'floor', 'ceil', 'sin', 'cos', 'ones', 'zeros'):
                w = dict(min='max', max='min', minimum='maximum', maximum='minimum', any='all', all='any', floor='ceil', ceil='floor', sin='cos', cos='sin', ones='zeros', zeros='ones')[n.func.attr]
                b = span(n.func)[1]
                add(n, b - len(n.func.attr), b, w, 'func')
            if isinstance(n.func, ast.Name) and n.func.id in ('min', 'max', 'any', 'all'):
                a, b = span(n.func)
                add(n, a, b, dict(min='max', max='min', any='all', all='any')[n.func.id], 'func')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2:
            a, b = span(n.slice.elts[0])
            c, d = span(n.slice.elts[1])
            add(n, a, d, src[c:d] + src[b:c] + src[a:b], 'axes')
        elif isinstance(n, ast.AugAssign):
            a, b = span(n)
            add(n, a, b, 'pass', 'noaug')
        elif isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Tuple) and len(n.value.elts) > 1:
            e = n.value.elts
            for x, y in zip(e, e[1:]):
                a, b = span(x)
                c, d = span(y)
                add(n, a, d, src[c:d] + src[b:c] + src[a:b], 'ret')
    # names that differ in one token
    names = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name)} | {n.attr for n in ast.walk(tree) if isinstance(n, ast.Attribute)} | {
        n.arg for n in ast.walk(tree) if isinstance(n, ast.arg)}
    pairs = [('h', 'c'), ('heating', 'cooling'), ('cs', 'hs'), ('sol', 'rad'), ('d', 'sky'), ('is', 'js'), ('h', 'w'), ('n', 's'), ('ntr', 'ot'),
             ('pls', ''), ('conv', 'rad'), ('sen', 'lat'), ('min', 'max'), ('r', 'c'), ('o', 'r'), ('a', 'v'), ('upper', 'lower'), ('gen', 'hum'), ('c', 'r'), ('theta', 'x'), ('0', '1'), ('s', 'r'), ('l', 'r')]
    for n in ast.walk(tree):
        if id(n) in ann:
            continue
        if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
            w = n.id if isinstance(n, ast.Name) else n.attr
            t = w.split('_')
            for x, y in pairs:
                for p, q in ((x, y), (y, x)):
                    if p and p in t:
                        k = t.index(p)
                        u = '_'.join(t[:k] + ([q] if q else []) + t[k + 1:])
                        if u != w and u in names:
                            b = span(n)[1]
                            add(n, b - len(w), b, u, 'name')
    # de-duplicate
    seen, res = set(), []
    for m in out:
        k = (m[2], m[3], m[4])
        if k not in seen:
            seen.add(k)
            res.append(m)
    return res


WORK = r'''
import sys, os, json, time
V='/verif'
names=json.loads(sys.argv[1])
sys.argv=['x']
sys.path[:0]=[V,V+'/dv']
import importlib.util
spec=importlib.util.spec_from_file_location('run',V+'/dv/run.py')
run=importlib.util.module_from_spec(spec)
spec.loader.exec_module(run)
run.load_contracts()
reg={c.name:c for c in run.ct.REGISTRY}
t0=time.time()
note=[]
for n in names:
    r=run._num_job(n,1,0,min(reg[n].trials,24),None,20)
    if r['bad'] and r['bad']['kind']!='inapplicable':
        print(json.dumps(['caught',n,r['bad']['goal']])); os._exit(0)
    if r['bad']: note.append('inapplicable '+n)
for n in sorted(names,key=lambda n:reg[n].timeout):
    if reg[n].mode=='T': continue
    res=run.parallel([(0,run._sym_job,(n,min(reg[n].timeout,60)),70)],1)[0]
    if res[0]!='ok': note.append(n+' '+res[0]); continue
    obls,info=res[1]
    if info['unsupported']: note.append(n+' unsupported '+info['unsupported'][:80])
    f=[o for o in obls if o[1]=='failed']
    if f:
        print(json.dumps(['proof',n,f[0][0]])); os._exit(0)
    u=[o for o in obls if o[1]!='proved']
    if u: note.append(n+' unknown '+u[0][0])
print(json.dumps(['survived','; '.join(note),'']))
os._exit(0)
'''


def try_one(m):
    rel, line, a, b, new, what, old, names = m
    k = mp.current_process()._identity[0]
    d = '%s/w%d' % (C, k)
    if not os.path.isdir(d):
        shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git', 'docs', 'notebook', '*.ipynb'))
    p = os.path.join(d, rel)
    src = open('/repo/' + rel, encoding='utf-8').read()
    s = src[:a] + new + src[b:]
    try:
        ast.parse(s)
    except SyntaxError:
        return m, ('syntax', '', '')
    open(p, 'w', encoding='utf-8').write(s)
    try:
        r = subprocess.run(['/opt/venv/bin/python', C + '/work.py', json.dumps(names)], env=dict(os.environ, DV_REPO=d, OMP_NUM_THREADS='1'),
                           capture_output=True, text=True, timeout=400)
        o = r.stdout.strip().splitlines()
        res = json.loads(o[-1]) if o else ['crash', r.stderr[-300:], '']
    except subprocess.TimeoutExpired:
        res = ['timeout', '', '']
    except Exception as e:
        res = ['crash', repr(e), '']
    open(p, 'w', encoding='utf-8').write(src)
    return m, res


def main():
    if sys.argv[1] == 'cover':
        return cover()
    open(C + '/work.py', 'w').write(WORK)
    subs = [a for a in sys.argv[2:] if not a.startswith('-')]
    frac = float(os.environ.get('FRAC', '1'))
    nproc = int(os.environ.get('NPROC', '7'))
    cov = json.load(open(C + '/cover.json'))
    todo, unc = [], {}
    again = None
    if os.environ.get('AGAIN'):         # only the survivors of an earlier run
        again = {l.split(' | ')[0] for l in open(os.environ['AGAIN'], encoding='utf-8')}
    rnd = random.Random(int(os.environ.get('SEED', '5')))
    for rel in sorted(cov):
        if subs and not any(s in rel for s in subs):
            continue
        for m in mutants('/repo/' + rel, rel):
            # a statement may begin some lines above
            names = cov[rel].get(str(m[1])) or []
            k = m[1]
            while not names and k > m[1] - 12 and k > 1:
                k -= 1
                names = cov[rel].get(str(k)) or []
            if not names:
                unc.setdefault(rel, set()).add(m[1])
                continue
            if again is not None:
                if '%s:%d [%s] %r -> %r' % (m[0], m[1], m[5], m[6][:100], m[4][:100]) in again:
                    todo.append(m + (names,))
            elif rnd.random() < frac:
                todo.append(m + (names,))
    print(len(todo), 'changes;', 'not executed by a contract:', {k: sorted(v) for k, v in unc.items()}, flush=True)
    rnd.shuffle(todo)
    count = {}
    with open(C + '/survivors.txt', 'a') as f, mp.Pool(nproc) as p:
        for i, (m, r) in enumerate(p.imap_unordered(try_one, todo, chunksize=1)):
            count[r[0]] = count.get(r[0], 0) + 1
            if r[0] not in ('caught', 'proof', 'syntax'):
                f.write('%s:%d [%s] %r -> %r | %s %s\n' % (m[0], m[1], m[5], m[6][:100], m[4][:100], r[0], str(r[1])[:200]))
                f.flush()
            if i % 50 == 0:
                print(i, count, flush=True)
    print(count)


if __name__ == '__main__':
    main()
