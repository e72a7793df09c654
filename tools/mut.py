"""mut.py PROP FILE OLD NEW [check args]: run a check against a scratch copy with one textual change (development aid)"""
import os, shutil, subprocess, sys
prop, f, old, new = sys.argv[1:5]
d = '/tmp/mut/r%d' % os.getpid()
shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git', 'docs', 'notebook', '*.ipynb'))
p = os.path.join(d, f)
s = open(p, encoding='utf-8').read()
assert s.count(old) >= 1, 'not found'
open(p, 'w', encoding='utf-8').write(s.replace(old, new, 1))
e = dict(os.environ, DV_REPO=d, DV_SCRATCH='1')
r = subprocess.run(['/verif/check', prop] + sys.argv[5:], env=e, capture_output=True, text=True)
print(r.stdout[-3000:], r.stderr[-1500:], 'exit', r.returncode)
shutil.rmtree(d)
