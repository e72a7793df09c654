"""Driver: decide one property.   python dv/run.py C03   |   --replay FILE   |   --list"""
import importlib
import importlib.util
import json
import multiprocessing as mp
import os
import resource
import sys
import time
import glob

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('DV_REPO', '/repo')
OUT = VERIF if REPO == '/repo' else '/tmp/dv_scratch'   # development runs against copies leave /verif alone
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def _z3():
    for d in ('/opt/veriftools/pyvenv/lib/python3.12/site-packages',):
        p = os.path.join(d, 'z3', '__init__.py')
        if os.path.exists(p):
            spec = importlib.util.spec_from_file_location('z3', p, submodule_search_locations=[os.path.dirname(p)])
            m = importlib.util.module_from_spec(spec)
            sys.modules['z3'] = m
            spec.loader.exec_module(m)
            return m
    raise SystemExit('z3 not found')


_z3()
from dv import contract as ct  # noqa: E402


def load_contracts(prop=None):
    d = os.path.join(HERE, 'contracts')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and not f.startswith('_'):
            importlib.import_module('dv.contracts.' + f[:-3])
    return [c for c in ct.REGISTRY if prop is None or prop in c.prop]


# ------------------------------------------------------------------ parallel tasks
def _limits(mem_gb):
    resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2 ** 30), int(mem_gb * 2 ** 30)))


def _quiet():
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2)


def _task(fn, args, conn):
    _quiet()
    _limits(8)
    try:
        r = ('ok', fn(*args))
    except MemoryError:
        r = ('memory', None)
    except BaseException as e:
        import traceback
        r = ('crash', '%r\n%s' % (e, traceback.format_exc()[-1500:]))
    try:
        conn.send(r)
    except Exception as e:
        conn.send(('crash', 'unpicklable %r' % e))
    conn.close()


def parallel(jobs, nproc=8):
    """jobs: list of (key, fn, args, timeout); returns {key: (status, value)}"""
    out = {}
    todo = list(jobs)
    live = {}
    while todo or live:
        while todo and len(live) < nproc:
            key, fn, args, to = todo.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=_task, args=(fn, args, b))
            p.start()
            b.close()
            live[key] = (p, a, time.time() + to)
        done = []
        for key, (p, a, dl) in live.items():
            if a.poll(0):
                try:
                    out[key] = a.recv()
                except EOFError:
                    out[key] = ('crash', 'no result')
                p.join(5)
                done.append(key)
            elif not p.is_alive():
                out[key] = ('crash', 'died')
                done.append(key)
            elif time.time() > dl:
                p.kill()
                p.join()
                out[key] = ('timeout', None)
                done.append(key)
        for k in done:
            live.pop(k)[1].close()
        if not done:
            time.sleep(0.01)
    return out


def _sym_job(name, budget):
    c = [x for x in ct.REGISTRY if x.name == name][0]
    obls, info = ct.run_symbolic(c, budget)
    return [(o.name, o.status, o.how, o.detail) for o in obls], info


def _classify_error(etype, tb):
    """an exception out of the real code is a violation; one out of the contract's own frame means the
    contract does not fit this tree (renamed function, changed signature)"""
    lines = [l for l in tb.splitlines() if l.strip().startswith('File ')]
    last = lines[-1] if lines else ''
    if '/dv/contracts/' in last or '/dv/contract.py' in last:
        return 'inapplicable'
    return 'raised'


def _num_job(name, seed, first, count, hints, seconds, cases_file=None):
    c = [x for x in ct.REGISTRY if x.name == name][0]
    t0 = time.time()
    n = ok = skip = 0
    findings = {}
    checked = 0
    distinct = set()
    sample = None
    for k in range(first, first + count):
        if time.time() - t0 > seconds:
            break
        st, v = ct.run_trial(c, seed, k, hints)
        n += 1
        if st == 'ok':
            ok += 1
            checked += v.checked
            d = repr(v.inputs)
            distinct.add(hash(d))
            if sample is None:
                sample = d[:400]
            for f in v.findings:
                findings.setdefault(f[0], (f[1], f[2], d[:600]))
        elif st == 'skip':
            skip += 1
        elif st == 'violation':
            g, goal, msg = v
            return dict(n=n, ok=ok, skip=skip, checked=checked, distinct=len(distinct), sample=sample, findings=findings,
                        bad=dict(kind='violation', trial=k, goal=goal, msg=msg, inputs=repr(g.inputs)[:6000]))
        else:
            g, et, msg = v
            kind = 'inapplicable' if et == 'Unfit' else _classify_error(et, msg)
            return dict(n=n, ok=ok, skip=skip, checked=checked, distinct=len(distinct), sample=sample, findings=findings,
                        bad=dict(kind=kind, trial=k, goal='returns normally', msg='%s: %s' % (et, msg[-1500:]),
                                 inputs=repr(g.inputs)[:6000]))
    return dict(n=n, ok=ok, skip=skip, checked=checked, distinct=len(distinct), sample=sample, findings=findings, bad=None)


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': []}


def main():
    if '--replay' in sys.argv:
        return replay(sys.argv[sys.argv.index('--replay') + 1])
    if '--list' in sys.argv:
        for c in load_contracts():
            print(c.mode, ','.join(c.prop), c.name, ','.join(c.func))
        return 0
    prop = sys.argv[1]
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    verbose = '-v' in sys.argv
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    cs = load_contracts(prop)
    if only:
        cs = [c for c in cs if only in c.name]
    mult = 1 if tier == 'quick' else 12
    total = 600 if tier == 'quick' else 3000
    # ---- symbolic + first numeric round together
    jobs = []
    for c in sorted(cs, key=lambda c: -c.timeout):
        if c.mode in 'PB':
            jobs.append((('sym', c.name), _sym_job, (c.name, c.timeout * (1 if tier == 'quick' else 4)),
                         c.timeout * (1 if tier == 'quick' else 4) + 40))
    for c in cs:
        if c.trials:
            parts = max(1, min(8 if tier != 'quick' else 2, c.trials * mult // 20))
            per = (c.trials * mult + parts - 1) // parts
            for k in range(parts):
                jobs.append((('num', c.name, k), _num_job, (c.name, seed, k * per, per, None, 100 * (1 if tier == 'quick' else 6)),
                             160 * (1 if tier == 'quick' else 6)))
    res = parallel(jobs)
    # ---- second round for contracts whose obligations are not all discharged
    jobs2 = []
    report = []
    for c in cs:
        st = res.get(('sym', c.name))
        c.obls, c.info = [], {}
        c.symstate = None
        if st is not None:
            if st[0] == 'ok':
                c.obls, c.info = st[1]
                c.symstate = 'ok' if not c.info['unsupported'] else 'unsupported: ' + c.info['unsupported']
                xb = (c.info.get('xval') or {}).get('bad')
                if xb:
                    c.symstate = 'the symbolic interpretation disagrees with execution: %s' % xb[0]
                    c.obls = [(o[0], 'unknown', 'disagrees', '') for o in c.obls]
            else:
                c.symstate = '%s %s' % (st[0], st[1] or '')
        c.bad = [o for o in c.obls if o[1] != 'proved']
        c.numbad = None
        for k, v in res.items():
            if k[0] == 'num' and k[1] == c.name and v[0] == 'ok' and v[1]['bad'] and c.numbad is None:
                c.numbad = v[1]['bad']
                c.hints_used = None
        if (c.bad or c.symstate not in (None, 'ok')) and c.numbad is None and c.trials:
            left = max(20, min(150, total - (time.time() - t0)))
            for k in range(8):
                h = (c.info or {}).get('hints') or None
                jobs2.append((('num2', c.name, k), _num_job,
                              (c.name, seed, 100000 + k * 4000, max(100, c.trials * 5), h, left / 2), left))
    res2 = parallel(jobs2) if jobs2 else {}
    for c in cs:
        for k, v in res2.items():
            if k[1] == c.name and v[0] == 'ok' and v[1]['bad'] and c.numbad is None:
                c.numbad = v[1]['bad']
                c.hints_used = (c.info or {}).get('hints')
    # ---- outcome
    known = known_findings()
    listed = {f['id']: f for f in known['findings']}
    viol = []
    found = {}
    notes = []
    ncheck = 0
    nproved = nobl = 0
    for c in cs:
        nums = [v[1] for k, v in list(res.items()) + list(res2.items()) if k[0] in ('num', 'num2') and k[1] == c.name and v[0] == 'ok']
        c.num = dict(n=sum(x['n'] for x in nums), ok=sum(x['ok'] for x in nums), checked=sum(x['checked'] for x in nums),
                     distinct=sum(x['distinct'] for x in nums), sample=next((x['sample'] for x in nums if x['sample']), None))
        lost = [(k, v) for k, v in list(res.items()) + list(res2.items()) if k[0] in ('num', 'num2') and k[1] == c.name and v[0] != 'ok']
        if lost:
            notes.append('%s: numeric run %s %s' % (c.name, lost[0][1][0], lost[0][1][1] or ''))
        for x in nums:
            for fid, w in x['findings'].items():
                found.setdefault(fid, (c.name,) + tuple(w))
        for fid, goal in (c.info or {}).get('findings', []) if c.info else []:
            found.setdefault(fid, (c.name, goal, 'by proof', ''))
        ncheck += c.num['ok']
        nobl += len(c.obls)
        nproved += sum(1 for o in c.obls if o[1] == 'proved')
        if c.numbad and c.numbad['kind'] != 'inapplicable':
            viol.append((c, c.numbad, True))
        else:
            if c.numbad:
                notes.append('%s does not fit this tree: %s' % (c.name, c.numbad['msg'].splitlines()[0][:200]))
            fl = [o for o in c.bad if o[1] == 'failed']
            if fl and not (c.numbad and c.numbad['kind'] == 'inapplicable') and c.mode in 'PB':
                viol.append((c, dict(kind='obligation', goal=fl[0][0], msg='%s %s' % (fl[0][2], fl[0][3]), trial=None, inputs=''), False))
            for o in c.bad:
                if o[1] == 'unknown':
                    notes.append('%s: obligation %r not discharged (%s %s)' % (c.name, o[0], o[2], o[3][:300]))
            if c.mode in 'PB' and c.symstate != 'ok':
                notes.append('%s: no proof (%s)' % (c.name, (c.symstate or '')[:400]))
    code = 0
    for fid, w in sorted(found.items()):
        if fid in listed:
            print('KNOWN-FINDING: property=%s %s: %s' % (prop, fid, listed[fid]['what']))
        else:
            c = [x for x in cs if x.name == w[0]][0]
            viol.append((c, dict(kind='unlisted finding', goal=w[1], msg=fid + ' ' + w[2], trial=None, inputs=w[3]), True))
    for c, b, replayed in viol[:3]:
        path = write_replay(prop, c, b, seed, replayed)
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if replayed else ' no-failing-input-found'))
        code = 1
        break
    for c, b, replayed in viol:
        print('  %s: %s: %s' % (c.name, b['goal'], b['msg'][:600].replace('\n', ' / ')))
    if nobl == 0 and ncheck == 0 and code == 0:
        print('no obligation was generated and nothing was executed: undecided')
        code = 2
    ev = evidence(prop, tier, seed, cs, found, notes, viol, time.time() - t0, res)
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    with open(os.path.join(OUT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
    print('%s: %d/%d obligations discharged, %d contract executions on the real code, %.1f s%s' % (
        prop, nproved, nobl, ncheck, time.time() - t0, '' if not notes else ' (%d notes in evidence)' % len(notes)))
    if verbose:
        for c in cs:
            i = c.info or {}
            print('-- %s [%s] obls %d/%d sym=%s paths=%s wall=%.1f num ok=%d/%d' % (
                c.name, c.mode, sum(1 for o in c.obls if o[1] == 'proved'), len(c.obls), c.symstate, i.get('paths'),
                i.get('wall', 0), c.num['ok'], c.num['n']))
            for o in c.bad:
                print('     ', o[0], o[1], o[2], o[3][:1500])
            if i.get("xval"):
                print("      xval", i["xval"])
            if i.get('alt'):
                print('      not as the listed finding either:', i['alt'])
            if i.get("div_assumed"):
                print('      divisors assumed nonzero:', i['div_assumed'])
        for n in notes:
            print('note:', n)
    return code


def write_replay(prop, c, b, seed, replayed):
    d = os.path.join(OUT, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.json' % (prop, c.name))
    with open(p, 'w') as f:
        json.dump(dict(property=prop, contract=c.name, functions=c.func, seed=seed, trial=b['trial'], goal=b['goal'],
                       message=b['msg'], inputs=b['inputs'], hints=getattr(c, 'hints_used', None), replayed=replayed,
                       obligations=[o for o in c.bad][:20],
                       how='cd /verif && ./check --replay %s' % p), f, indent=1, default=str)
    return p


def replay(p):
    r = json.load(open(p))
    cs = [c for c in load_contracts() if c.name == r['contract']]
    if r['trial'] is None:
        print('obligation %s of %s: %s' % (r['goal'], r['contract'], r['message']))
        return 1
    st, v = ct.run_trial(cs[0], r['seed'], r['trial'], r.get('hints'))
    print(st, v[1:] if isinstance(v, tuple) else '')
    return 1 if st in ('violation', 'error') else 0


TRUSTED = [
    'dv/terms.py normal forms and dv/prover.py (own verifier), z3 %s',
    'dv/symnp.py: the symbolic numpy/math/builtins agree with numpy/math on the operations used',
    'dv/loader.py: the AST changes listed in its header preserve meaning; CPython executes the rest of the real source',
    'machine floating point is treated as real arithmetic (dtype int arrays as integers)',
    'exp, sin, cos, sqrt, pow, ... are uninterpreted with the axioms in dv/prover.py',
]


def evidence(prop, tier, seed, cs, found, notes, viol, wall, res):
    import z3
    level = MANIFEST_LEVEL.get(prop)
    P = [c for c in cs if c.mode in 'PB']
    nobl = sum(len(c.obls) for c in cs)
    npr = sum(1 for c in cs for o in c.obls if o[1] == 'proved')
    if level is None:
        level = 'proof' if P else 'exploration'
    by = {}
    for c in cs:
        for o in c.obls:
            if o[1] == 'proved':
                by[o[2]] = by.get(o[2], 0) + 1
    cov = dict(
        obligations=nobl, discharged=npr, discharged_by=by,
        checker_cmd='./check %s' % prop,
        trusted_base=[TRUSTED[0] % z3.get_version_string()] + TRUSTED[1:],
        functions_under_contract=[dict(contract=c.name, functions=c.func,
                                       level={'P': 'proved for all inputs and sizes', 'B': 'proved for the stated concrete sizes only (bounded)',
                                              'T': 'executed only (bounded stand-in, not proved)'}[c.mode],
                                       says=c.doc, obligations=len(c.obls),
                                       discharged=sum(1 for o in c.obls if o[1] == 'proved'),
                                       paths=(c.info or {}).get('paths', 0), proof_state=c.symstate,
                                       divisors_proved_nonzero=(c.info or {}).get('div_proved', 0),
                                       divisors_assumed_nonzero=(c.info or {}).get('div_assumed', []),
                                       matrices_assumed_invertible=(c.info or {}).get('inverted', 0),
                                       assumed=(c.info or {}).get('assumed', []),
                                       terms_cross_validated_against_execution=((c.info or {}).get('xval') or {}).get('compared', 0),
                                       wall_s=round((c.info or {}).get('wall', 0), 2),
                                       z3_s=round((c.info or {}).get('stats', {}).get('z3_s', 0), 2),
                                       z3_queries=(c.info or {}).get('stats', {}).get('z3', 0),
                                       executions=c.num['ok'], notes=c.note) for c in cs],
        obligation_list=[['%s/%s' % (c.name, o[0]), o[1], o[2]] for c in cs for o in c.obls][:400],
        evaluations=sum(c.num['n'] for c in cs),
        distinct_nontrivial=sum(c.num['distinct'] for c in cs),
        rule='contract executed on the real code with seeded inputs drawn from its preconditions (ends of ranges included); '
             'counted when every precondition held and at least one postcondition was evaluated; distinct by input values',
        samples=[dict(contract=c.name, inputs=c.num['sample']) for c in cs if c.num['sample']][:6],
        known_findings=sorted(found),
        notes=notes,
    )
    return dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
                assumptions=sorted({a for c in cs for a in (c.info or {}).get('assumed', [])} |
                                   {c.note for c in cs if c.note}),
                wall_s=round(wall, 2), violations=len(viol))


MANIFEST_LEVEL = {}
try:
    for _c in json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks']:
        MANIFEST_LEVEL[_c['property']] = _c['level']
except Exception:
    pass

if __name__ == '__main__':
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    sys.exit(main())
