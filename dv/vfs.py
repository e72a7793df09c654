"""Files of the program under contract.

A contract describes input files by their content (g.dir) and inspects output files by their content (g.read).
Executed: real files with that content are written to a temporary directory and the real code reads them.
Symbolic: the content itself (records, matrices of any size) is handed to the program; json, csv and pandas are
treated as exact inverses of each other (reading returns what was written) - an assumption on those libraries.
"""
import builtins
import csv as rcsv
import json as rjson
import os
import shutil
import tempfile
from . import symnp as sn
from .terms import Unsupported


# ------------------------------------------------------------------ executed side
def plain(x):
    import numpy as rnp
    if isinstance(x, rnp.ndarray):
        return [plain(v) for v in x]
    if isinstance(x, rnp.generic):
        return x.item()
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def write_real(files):
    import pandas as pd
    d = tempfile.mkdtemp(prefix='dvfs')
    for name, c in files.items():
        p = os.path.join(d, name)
        if name.endswith('.json'):
            with open(p, 'w') as f:
                rjson.dump(plain(c), f)
        elif isinstance(c, dict):
            pd.DataFrame({k: plain(v) for k, v in c['cols'].items()}).to_csv(p)
        else:
            with open(p, 'w') as f:
                rcsv.writer(f, lineterminator='\n').writerows(plain(c))
    return d


def read_real(d, name):
    import numpy as rnp
    p = os.path.join(d, name)
    if name.endswith('.json'):
        with open(p) as f:
            return rjson.load(f)
    with open(p) as f:
        return rnp.array([[float(v) for v in row] for row in rcsv.reader(f)])


def cleanup(dirs):
    for d in dirs:
        if os.path.basename(d).startswith('dvfs') and os.path.dirname(d) == tempfile.gettempdir():
            shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ symbolic side
class FakeFile:
    def __init__(self, fs, path, mode):
        self.fs, self.path, self.mode = fs, path, mode

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    @property
    def content(self):
        return self.fs[self.path]


def norm(p):
    if not isinstance(p, str):
        raise Unsupported('path %r' % (p,))
    pre, rest = p[:7], p[7:]
    return pre + os.path.normpath(rest)


def make_open(world, repo):
    def op(path, mode='r', *a, **k):
        if isinstance(path, str) and path.startswith('dvfs://'):
            path = norm(path)
            if 'w' in mode:
                world.fs[path] = None
                return FakeFile(world.fs, path, mode)
            if path not in world.fs:
                raise FileNotFoundError(path)
            return FakeFile(world.fs, path, mode)
        rp = os.path.realpath(path)
        if 'r' in mode and '+' not in mode and rp.startswith(os.path.realpath(repo) + os.sep):
            return builtins.open(path, mode, *a, **k)
        raise Unsupported('file access %s' % (path,))
    return op


def long_lists(x, name, number, word):
    """data of the repository: long lists of numbers or words are treated as any such lists (the structure stays)"""
    if isinstance(x, dict):
        return {k: long_lists(v, name + '/' + k, number, word) for k, v in x.items()}
    if isinstance(x, list) and len(x) >= sn.LONG:
        if all(isinstance(v, (int, float)) and not isinstance(v, bool) for v in x):
            return number(name, x)
        if all(isinstance(v, str) for v in x) and len(set(x)) <= 6:
            return word(name, x)
    return x


def any_lists(x, name):
    from .terms import Poly
    return long_lists(x, name, lambda n, v: sn.mkvar(n, Poly.const(len(v))), lambda n, v: sn.mkenum(n, sorted(set(v)), Poly.const(len(v))))


class Json:
    def __init__(self, conv):
        self.conv = conv

    def load(self, f, **k):
        if isinstance(f, FakeFile):
            return f.content
        return self.conv(any_lists(rjson.load(f, **k), 'json:' + os.path.basename(f.name) + ':'))

    def loads(self, s, **k):
        return self.conv(rjson.loads(s, **k))

    def dump(self, obj, f, **k):
        if not isinstance(f, FakeFile):
            raise Unsupported('json.dump to a real file')
        f.fs[f.path] = obj

    def dumps(self, obj, **k):
        try:
            return rjson.dumps(obj, **k)
        except TypeError:
            return sn.Opaque(('json', id(obj)))


class _Writer:
    def __init__(self, f):
        self.f = f

    def writerows(self, rows):
        c = self.f.fs.get(self.f.path)
        if c is not None:
            raise Unsupported('several writerows')
        self.f.fs[self.f.path] = rows

    def writerow(self, row):
        c = self.f.fs.get(self.f.path)
        self.f.fs[self.f.path] = (c or []) + [row]


class Csv:
    QUOTE_NONNUMERIC = rcsv.QUOTE_NONNUMERIC
    QUOTE_ALL, QUOTE_MINIMAL, QUOTE_NONE = rcsv.QUOTE_ALL, rcsv.QUOTE_MINIMAL, rcsv.QUOTE_NONE

    def reader(self, f, quoting=rcsv.QUOTE_MINIMAL, **k):
        if not isinstance(f, FakeFile):
            rows = list(rcsv.reader(f, quoting=quoting, **k))
            return sn.DList([sn.DList(r) for r in rows])
        if quoting != rcsv.QUOTE_NONNUMERIC:
            raise Unsupported('csv fields are read as text')
        return f.content

    def writer(self, f, **k):
        return _Writer(f)


class Column:
    """pandas Series: a vector and the pandas operations (not interpreted) applied to it"""

    def __init__(self, v, ops=()):
        self.values = v
        self.ops = ops

    def to_numpy(self):
        if self.ops:
            raise Unsupported('values of a pandas operation')
        return self.values

    def _op(self, *o):
        return Column(self.values, self.ops + (o,))

    def resample(self, rule):
        return self._op('resample', rule)

    def asfreq(self, rule):
        return self._op('asfreq', rule)

    def mean(self):
        return self._op('mean')

    def sum(self):
        return self._op('sum')

    def round(self, n=0):
        return self._op('round', n)

    def __getattr__(self, n):
        raise Unsupported('pandas Series.%s' % n)


class Frame:
    """pandas DataFrame as a mapping of column names to vectors of one length"""

    def __init__(self, data=None, index=None, columns=None, **k):
        self.index = index
        self.written = None
        self.cols = {}
        for n, v in (data or {}).items():
            self[n] = v

    def __getitem__(self, n):
        if not isinstance(n, str) or n not in self.cols:
            raise KeyError(n)
        v = self.cols[n]
        return v if isinstance(v, Column) else Column(v)

    def __setitem__(self, n, v):
        self.cols[n] = v.values if isinstance(v, Column) and not v.ops else v

    def to_csv(self, path, **k):
        self.written = (path, dict(self.cols))
        if isinstance(path, str) and path.startswith('dvfs://') and WORLD:
            if set(k) - {'encoding', 'index', 'index_label'}:
                raise Unsupported('to_csv options')
            WORLD[-1].fs[norm(path)] = Frame({n: v for n, v in self.cols.items()}, index=self.index)

    def __getattr__(self, n):
        raise Unsupported('pandas DataFrame.%s' % n)


class DateIndex:
    def __init__(self, start, periods, freq):
        self.start, self.periods, self.freq = start, periods, freq

    def real(self):
        import pandas as pd
        if sn._is_symbolic(self.periods):
            raise Unsupported('instants of a calendar of any length')
        return pd.date_range(start=self.start, periods=self.periods, freq=self.freq)

    def __getitem__(self, k):
        return self.real()[k]

    def __len__(self):
        return len(self.real())


class Duration:
    """pandas Timedelta, s"""

    def __init__(self, s):
        self.s = s

    def __truediv__(self, n):
        return Duration(self.s / n)

    def __mul__(self, n):
        return Duration(self.s * n)

    __rmul__ = __mul__


WORLD = []


class Pandas:
    def Timedelta(self, days=0, hours=0, minutes=0, seconds=0, **k):
        if k or isinstance(days, str):
            raise Unsupported('pandas.Timedelta')
        return Duration(86400 * days + 3600 * hours + 60 * minutes + seconds)

    def __init__(self, world):
        self.world = world
        WORLD[:] = [world]
        self.DataFrame = Frame

    def read_csv(self, path, **k):
        if not (isinstance(path, str) and path.startswith('dvfs://')):
            raise Unsupported('pandas.read_csv')
        if k.get('index_col') != 0 or set(k) - {'index_col', 'engine', 'encoding'}:
            raise Unsupported('pandas.read_csv options')
        c = self.world.fs[norm(path)]
        fr = Frame()
        fr.cols = dict(c['cols'])
        return fr

    def date_range(self, start=None, periods=None, freq=None, **k):
        return DateIndex(start, periods, freq)

    def __getattr__(self, n):
        raise Unsupported('pandas.%s' % n)
