"""writes MANIFEST.json from the registered contracts (run with /opt/venv/bin/python)"""
import json, os, sys
sys.argv = ['x']
sys.path.insert(0, '/verif')
sys.path.insert(0, '/verif/dv')
import importlib.util
spec = importlib.util.spec_from_file_location('run', '/verif/dv/run.py')
run = importlib.util.module_from_spec(spec)
spec.loader.exec_module(run)
cs = run.load_contracts()
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
NA = {}
checks, na = [], []
for p in props:
    mine = [c for c in cs if p['id'] in c.prop]
    if not mine:
        na.append(dict(property=p['id'], reason=NA.get(p['id'], 'no contract written yet')))
        continue
    P = [c.name for c in mine if c.mode == 'P']
    B = [c.name for c in mine if c.mode == 'B']
    T = [c.name for c in mine if c.mode == 'T']
    note = []
    if P:
        note.append('Proved for all inputs and array sizes: ' + ', '.join(P) + '.')
    if B:
        note.append('Proved for the stated concrete sizes or element lists only (bounded in size, unbounded in values): ' + ', '.join(B) + '.')
    if T:
        note.append('Bounded stand-in (contract executed on the real code, not proved): ' + ', '.join(T) + '.')
    note.append('Every contract is also executed on the unmodified code with seeded inputs. Trusted: own verifier (dv/), z3, real arithmetic for floats, axioms of transcendental functions.')
    checks.append(dict(property=p['id'], quick_cmd='./check %s' % p['id'], thorough_cmd='./check %s --thorough' % p['id'],
                       technique='contract-based deductive verification: contracts on the real functions, obligations generated from the current source by symbolic execution and discharged by normal-form rewriting and z3; failures replayed on the real code' if P or B else
                       'contracts on the real functions, executed at run time (bounded stand-in; no obligation within the verifier\'s reach)',
                       level='proof' if P or B else 'exploration', level_note=' '.join(note)))
m = dict(version=1, setup_cmd='chmod +x check && ./check --list > /dev/null', checks=checks, not_applicable=na,
         notes='see DESIGN.md; known findings and fixes in known_findings.json')
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
import subprocess
subprocess.run(['python3-vt', '-c', "import json,jsonschema;jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))"], check=True)
print(len(checks), 'claimed', len(na), 'not')
