"""plant.py SPEC.py [id ...]: make and confirm planted bugs (development aid).
SPEC.py defines BUGS = [dict(id, prop, edits=[(file, old, new)...], needs, breaks, demo)].
Everything happens in scratch copies under /tmp/plant; keeps /verif/seeded/<id> when confirmed."""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(sys.argv[1])))
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
BASE = json.load(open('/opt/vp/BASELINE.json'))
stable = set(BASE['stable'])


def sh(cmd, cwd=None, env=None, to=900):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=to)


for b in ns['BUGS']:
    if want and b['id'] not in want:
        continue
    d = '/tmp/plant/' + b['id']
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh(['git', '-C', '/repo', 'worktree', 'prune'])
    sh(['git', 'clone', '-q', '/repo', d + '/repo'])
    r = d + '/repo'
    demo = d + '/demo'
    os.makedirs(demo)
    open(demo + '/demo.py', 'w').write("import os, sys\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\n" + b['demo'])
    open(demo + '/demo.sh', 'w').write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(demo + '/demo.sh', 0o755)
    c = sh(['bash', demo + '/demo.sh'], cwd=r)
    ok = c.returncode == 0
    if not ok:
        print(b['id'], 'demo fails on the clean tree', c.stdout[-500:], c.stderr[-800:])
        continue
    for f, old, new in b['edits']:
        p = os.path.join(r, f)
        s = open(p, encoding='utf-8', newline='').read()
        if '\r\n' in s:
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        if s.count(old) < 1:
            print(b['id'], 'edit not found', f)
            break
        open(p, 'w', encoding='utf-8', newline='').write(s.replace(old, new, 1))
    diff = subprocess.run(['git', 'diff'], cwd=r, capture_output=True).stdout
    c = sh(['bash', demo + '/demo.sh'], cwd=r)
    if c.returncode == 0:
        print(b['id'], 'demo passes with the patch')
        continue
    t = open('/opt/vp/test.sh').read().replace('-C /repo', '-C ' + r)
    open(d + '/test.sh', 'w').write(t)
    sh(['bash', d + '/test.sh', d + '/o.json'])
    o = json.load(open(d + '/o.json'))
    lost = stable - set(o['passed'])
    if lost:
        print(b['id'], 'breaks stable tests', sorted(lost)[:5])
        continue
    e = dict(os.environ, DV_REPO=r, DV_SCRATCH='1', VERIF_SEED='1', VERIF_TIER='quick')
    k = sh(['/verif/check', b['prop']], env=e, to=1000)
    print(b['id'], 'confirmed; check', b['prop'], 'exit', k.returncode, k.stdout[-400:].replace('\n', ' | '), flush=True)
    s = '/verif/seeded/' + b['id']
    os.makedirs(s, exist_ok=True)
    open(s + '/patch.diff', 'wb').write(diff)
    for f in ('demo.py', 'demo.sh'):
        shutil.copy(demo + '/' + f, s + '/' + f)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(s + '/meta.json', 'w'), indent=1)
    shutil.rmtree(d, ignore_errors=True)
