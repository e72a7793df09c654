"""Self-test of the loop rules (run by hand): functions whose loops carry state must be refused or summed, never misread."""
import os
import shutil
import sys
import tempfile

SRC = '''
import numpy as np
class O:
    def __init__(self): self.t = 0.0
def f1(a):
    o = O()
    for x in a:
        o.t = o.t + x
    return o.t
def f2(a):
    d = {'t': 0.0}
    for x in a:
        d['t'] = x
    return d['t']
def f3(a):
    last = None
    for x in a:
        last = x
    return last
def f4(a):
    first = True
    r = []
    for x in a:
        if first:
            r.append(x)
        else:
            r.append(x * 2)
        first = False
    return r[1]
def f5(a):
    s = 0.0
    r = []
    for x in a:
        s += x
        r.append(s)
    return r[1] - r[0]
def f6(a):
    X = np.zeros(3)
    for x in a:
        X += x
    return X[0]
def f7(a):
    X = np.ones(3)
    for x in a:
        X[1] = X[1] * x
    return X[1]
def f8(a):
    X = np.ones(3)
    for x in a:
        X[1] += x
    return X[1]
def f9(a):
    X = np.ones(3)
    for x in a:
        X[1] = X[1] + x
        X[2] = X[1]
    return X[2]
def f10(a):
    X = np.ones(3)
    for x in a:
        X = X * x
    return X[1]
def f11(a):
    def g(o, x):
        o.t = x
    o = O()
    for x in a:
        g(o, x)
    return o.t
def f12(a):
    r = [g for g in a]
    q = []
    for x in a:
        p = O()
        p.t = x
        q.append(p)
    return q[1].t
'''
WANT = {8: 'sum', 12: 'element'}

d = tempfile.mkdtemp()
os.makedirs(d + '/heat_load_calc')
open(d + '/heat_load_calc/__init__.py', 'w').close()
open(d + '/heat_load_calc/m.py', 'w').write(SRC)
os.environ['DV_REPO'] = d
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dv import loader, symnp as sn, terms as tm

m = loader.World()['m']
bad = 0
for k in range(1, 13):
    try:
        out = sn.explore(lambda: getattr(m, 'f%d' % k)(sn.mkvar('a', sn.mkdim('n', 2))) + 0.0)
        got = 'sum' if k == 8 and 'β0:1·;n' in repr(out[0][2]) else 'element' if k == 12 and 'a[1' in repr(out[0][2]) else 'value'
    except tm.Unsupported as e:
        got = 'refused'
    ok = got == WANT.get(k, 'refused')
    bad += not ok
    print('f%d' % k, got, '' if ok else 'WRONG')
shutil.rmtree(d)
sys.exit(bool(bad))
