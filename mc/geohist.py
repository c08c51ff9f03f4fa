"""Histories of coordinate conversions: every sequence of calls up to a depth on
one GPS object, with argument objects that are kept and changed in place between
the calls.  The expected result of a call is what it gives as the only call of a
fresh process (the grids of C20-C23 compare those with the oracles)."""
import itertools, math, os, pickle, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from mc.spec import *
import numpy as np
from opendis.RangeCoordinates import GPS
from opendis import RangeCoordinates

P1, P2, P3 = (-2707169.7, -4353741.2, 3781441.0), (4201000.0, 172460.5, 4780100.25), (1113194.9, -6259542.9, -550000.5)
V1, V2 = (1200.5, -300.25, -55.0), (-7.0, 8000.0, 912.5)
L1, L2, L3 = (36.6, -121.9, 12.5), (-45.25, 171.0, 3000.0), (60.5, 4.75, 0.0)
# method -> argument tuples; a tuple inside is a vector, kept in one object per position
CALLS = {
    'ecef2lla': [(P1,), (P2,), (P3,)],
    'lla2ecef': [(L1,), (L2,), (L3,)],
    'lla2gcc': [(L1, ''), (L1, '-121.5 36.5 0'), (L2, '-121.5 36.5 0'), (L1, '170 -45 10')],
    'ecef2ned': [(P1, P2), (P2, P1), (P3, P1), (P3, P2)],
    'ned2ecef': [(V1, P1), (V1, P2), (V2, P1)],
    'ecef2pae': [(P1, P2), (P2, P1), (P3, P1), (P3, P2)],
    'ned2pae': [(V1,), (V2,)],
    'ecef2llarpy': [P1 + (0.1, 0.2, 0.3), P2 + (0.1, 0.2, 0.3), P1 + (2.5, -0.9, 0.3), P1 + (0.1, 1.2, -3.0)],
    'llarpy2ecef': [(0.6, -2.1, 12.0, 0.1, 0.2, 0.3), (0.6, -2.1, 12.0, -2.5, 0.2, 0.3), (0.6, -2.1, 12.0, 0.1, 0.2, 5.0),
                    (-0.7, 3.0, 12.0, 0.1, 0.2, 0.3), (0.6, -2.1, 12.0, 0.1, -1.3, 0.3)],
    'rotate_3x3': [(0.5, V1), (0.75, V1), (0.5, V2)],
    'ecefvec2nedvec': [(0.6, -2.1), (0.6, 1.0), (-0.3, -2.1)],
    'lla2utm': [(L1,), (L2,), (L3,)],
    'ecef2utm': [(P1,), (P2,)],
    'utmLetterDesignator': [(36.6,), (-5.0,)],
    'transpose': [(V1,), (V2,)],
}
OWN = {'C20': ('ecef2lla', 'lla2ecef', 'lla2gcc'), 'C21': ('ecef2llarpy', 'llarpy2ecef', 'rotate_3x3', 'ecefvec2nedvec', 'transpose'),
       'C22': ('ecef2ned', 'ned2ecef', 'ecef2pae', 'ned2pae'), 'C23': ('lla2utm', 'ecef2utm', 'utmLetterDesignator')}
STYLES = ('kept list', 'kept array', 'fresh')


def plain(x):
    """The value of a result, free of containers of the library."""
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, (list, tuple)):
        return tuple(plain(y) for y in x)
    if isinstance(x, np.generic):
        return x.item()
    return x


def vec(args):
    return [np.array(a) if isinstance(a, tuple) else a for a in args]


def isolated():
    """{(method, i): result as the only call of the process}, from a fresh process."""
    p = subprocess.run([sys.executable, '-B', os.path.abspath(__file__)], stdout=subprocess.PIPE, check=True)
    return pickle.loads(p.stdout)


def forked(m, a):
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            try:
                v = plain(getattr(GPS(), m)(*vec(a)))
            except Exception as e:
                v = ('raises', type(e).__name__)
            os.write(w, pickle.dumps(v))
        finally:
            os._exit(0)
    os.close(w)
    b = b''
    while True:
        c = os.read(r, 65536)
        if not c:
            break
        b += c
    os.close(r)
    os.waitpid(pid, 0)
    return pickle.loads(b)


class Session:
    """One GPS object and the argument objects kept by its caller."""

    def __init__(self):
        self.g = GPS()
        self.kept = {}

    def arg(self, style, m, j, a):
        if not isinstance(a, tuple):
            return a
        if style == 'fresh':
            # (arithmetic on axes wants arrays)
            return np.array(a) if m in ('rotate_3x3',) else tuple(a)
        k = (style, j)
        if m in ('rotate_3x3',):
            k = ('kept array', j)
        if k not in self.kept:
            self.kept[k] = np.zeros(3) if k[0] == 'kept array' else [0.0] * 3
        self.kept[k][:] = a
        return self.kept[k]

    def call(self, m, i, style):
        a = CALLS[m][i]
        args = [self.arg(style, m, j, x) for j, x in enumerate(a)]
        try:
            r = getattr(self.g, m)(*args)
        except Exception as e:
            r = ('raises', type(e).__name__)
        return r, plain(args) == plain(a)


def close(x, y):
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(map(close, x, y))
    if isinstance(x, float) and isinstance(y, (int, float)) or isinstance(y, float) and isinstance(x, (int, float)):
        return math.isclose(x, y, rel_tol=1e-12, abs_tol=1e-9)
    return x == y


def tasks(tier):
    return [('history', s, tier) for s in STYLES]


def run(u, R, prop):
    style, tier = u[1], u[2]
    want = isolated()
    ops = [(m, i) for m in CALLS for i in range(len(CALLS[m]))]
    own = [o for o in ops if o[0] in OWN[prop]]
    if tier == 'quick':
        mids = [o for o in ops if o[0] in OWN[prop] or o[1] == 0]
        firsts = [o for o in ops if o[1] < 2]
    else:
        mids = firsts = ops
    s = Session()
    for seq in itertools.chain(((o,) for o in own), itertools.product(ops, own), itertools.product(firsts, mids, own)):
        if len(R.viol) > 20:
            return
        if R.evaluations % 500 == 0:
            s = Session()
        R.evaluations += 1
        R.nstates += 1
        R.transitions += len(seq)
        held = []
        for n, (m, i) in enumerate(seq):
            r, same = s.call(m, i, style)
            held.append((m, i, r))
            if m in OWN[prop]:
                if not same:
                    R.bad(f'{m} changes its argument', f'{m}{CALLS[m][i]} changes its argument ({style})', sequence=seq)
                if not close(plain(r), want[m, i]):
                    R.bad(f'{m} after other calls', f'{m}{CALLS[m][i]} as the last of {seq[:n + 1]} with {style} arguments gives '
                          f'{plain(r)}, alone it gives {want[m, i]}', sequence=seq)
        for m, i, r in held:
            if m in OWN[prop] and not close(plain(r), want[m, i]):
                R.bad(f'{m} result changed later', f'the result of {m}{CALLS[m][i]} changes when {seq} goes on ({style})', sequence=seq)
        # results belong to the caller, who may overwrite them
        for m, i, r in held:
            scribble(r)
    R.sample(dict(style=style, sequence=seq))


def scribble(r):
    if isinstance(r, np.ndarray):
        if r.flags.writeable:
            r[...] = -7777.0
    elif isinstance(r, list):
        for k, x in enumerate(r):
            if isinstance(x, (list, np.ndarray)):
                scribble(x)
            else:
                r[k] = -7777.0
    elif isinstance(r, tuple):
        for x in r:
            scribble(x)


if __name__ == '__main__':
    out = {(m, i): forked(m, a) for m in CALLS for i, a in enumerate(CALLS[m])}
    sys.stdout.buffer.write(pickle.dumps(out))
