"""recheck.py [id ...]: runs the check of each planted bug against a scratch copy with the patch; records who catches it (development aid)"""
import glob, json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = '/verif'
S = V + '/tools/planted/status.json'
st = json.load(open(S)) if os.path.exists(S) else {}


def one(b):
    d = '/tmp/plant/re_' + b
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', d], check=True)
    a = subprocess.run(['git', '-C', d, 'apply', '%s/seeded/%s/patch.diff' % (V, b)], capture_output=True, text=True)
    if a.returncode:
        return b, 'patch does not apply'
    p = json.load(open('%s/seeded/%s/meta.json' % (V, b)))['property']
    k = subprocess.run([V + '/check', p], env=dict(os.environ, DV_REPO=d, DV_SCRATCH='1'), capture_output=True, text=True)
    shutil.rmtree(d, ignore_errors=True)
    m = re.search(r'replays/%s-(\w+)\.json(.*)' % p, k.stdout)
    return b, (m.group(1) + (' (obligation, no input)' if 'no-failing' in m.group(2) else '')) if k.returncode == 1 and m else 'missed (exit %d)' % k.returncode


ids = sys.argv[1:] or [os.path.basename(x) for x in sorted(glob.glob(V + '/seeded/*'))]
with ThreadPoolExecutor(3) as ex:
    for b, r in ex.map(one, ids):
        print(b, r, flush=True)
        st[b] = r
st = {b: r for b, r in st.items() if os.path.isdir(V + '/seeded/' + b)}
json.dump(st, open(S, 'w'), indent=1, sort_keys=True)
