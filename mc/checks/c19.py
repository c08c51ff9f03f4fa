"""C19 dead reckoning is pure and steps compose."""
import math
from mc.checks.c18 import *

LEVEL = 'model_checking'
BOUNDS = {'quick': 'nine models x 8 initial states: all sequences of up to 5 time steps over {1, -1, 0, 0.25, -3} feeding results back as arguments (fixed models against the closed form, rotating models against the reference step), with purity, aliasing and repetition probes after every call; every argument array in turn shared with another argument; every ordered pair of models called in turn; each argument through magnitudes 1e-9 to 1e9 and the neighbourhoods of the numbers in the source, with probes, a zero step and two composed steps; every history of up to three calls over all models and both matrix helpers, each call with one argument (or all) other than before, every pair of calls with any components of one argument changed in place to four other values, argument objects kept and changed in place by their owner (list, array) or fresh or read-only, results overwritten by the caller',
          'thorough': 'sequences of up to 7 time steps; all argument sets in every position of the histories'}
ASSUMPTIONS = ['composition is compared to 1e-9 of the size of the terms']
STEPS = (1.0, -1.0, 0.0, 0.25, -3.0)
STATES = [((0.0, 0.0, 0.0), (1.0, 2.0, 3.0), (0.5, -0.25, 4.0), (0.0, 0.0, 0.0), (0.0, 0.0, 0.0)),
          ((6378137.0, 1.0, -2.0), (-300.0, 10.0, 1.0), (0.0, 9.81, 0.0), (0.3, 0.2, -0.1), (0.1, -0.2, 0.05)),
          ((1.0, 2.0, 3.0), (0.0, 0.0, 0.0), (1.0, 1.0, 1.0), (2.0, -1.0, 3.0), (0.5, 0.0, 0.0)),
          ((-4e6, 3e6, 4e6), (50.0, -60.0, 70.0), (0.0, 0.0, 0.0), (-1.0, H, 0.5), (0.2, 0.1, 0.3)),
          ((0.0, 5.0, 0.0), (1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (math.pi, 0.0, H), (0.0, 0.3, 0.0)),
          ((1e7, -1e7, 1e7), (1e3, 1e3, 1e3), (-10.0, 5.0, 2.0), (-2.0, 1.0, -3.0), (0.0, 0.0, -0.4)),
          ((3.0, 0.0, 0.0), (0.0, 2.0, 0.0), (0.0, 0.0, 1.0), (0.1, -H, 0.2), (1.0, 1.0, 1.0)),
          ((0.0, 0.0, 1.0), (0.0, 0.0, 0.0), (0.0, 0.0, 0.0), (1.0, 0.5, 0.25), (0.0, 0.0, 0.0))]


def tasks(tier):
    n = 5 if tier == 'quick' else 7
    out = []
    for m in MODELS:
        for i in range(len(STATES)):
            out.append((m, 'steps', i, n))
        out.append((m, 'alias'))
        out += [(m, 'sizes', k, tier) for k in 'p' + MODELS[m]]
    out.append(('all', 'pairs'))
    for style in STYLES:
        for m in MODELS:
            out.append((m, 'history', style, tier))
    for m in MODELS:
        out.append((m, 'inplace'))
    return out


# histories: each set differs from the first in one argument, the last in all
BASE = ((4e6, -2e6, 4.5e6), (30.0, -4.0, 5.5), (1.0, -2.0, 0.5), 2.0, (0.4, -0.3, 1.1), (0.02, 0.1, -0.05))
OTHER = ((1e6, 6e6, -1e6), (-7.0, 80.0, 9.0), (0.0, 0.25, -9.81), -0.5, (-2.0, 0.7, 0.2), (-0.3, 0.0, 0.4))
SETS = [BASE] + [tuple(OTHER[j] if i == j else BASE[j] for j in range(6)) for i in range(6)] + [OTHER]
STYLES = ('kept list', 'kept array', 'fresh list', 'read-only array')
ARGS = 'pvatow'


def takes(m, i):
    """Set i makes a difference to the arguments model m takes."""
    if m == 'angular':
        return i in (0, 6)
    if m == 'rotation':
        return i in (0, 5)
    return i in (0, 7) or ARGS[i - 1] == 'p' or ARGS[i - 1] in MODELS[m]


def history(u, R):
    """All sequences of up to three calls that end in model m, with argument
    objects kept between the calls and changed in place by their owner, and
    results overwritten by the caller."""
    last, _, style, tier = u
    ops = [(m, i) for m in list(MODELS) + ['rotation', 'angular'] for i in range(len(SETS)) if takes(m, i)]
    own = [o for o in ops if o[0] == last]
    few = ops if tier == 'thorough' else [o for o in ops if o[1] in (0, 5, 7) or o[0] == last]
    want = {(m, i): oracle(m, *SETS[i]) for m, i in own}
    kept = {}

    def arg(j, x):
        if style == 'fresh list':
            return list(x)
        if style == 'read-only array':
            a = np.array(x)
            a.setflags(write=False)
            return a
        if j not in kept:
            kept[j] = [0.0] * 3 if style == 'kept list' else np.zeros(3)
        kept[j][:] = x
        return kept[j]

    def one(m, i):
        s = SETS[i]
        x = [arg(j, v) if isinstance(v, tuple) else v for j, v in enumerate(s)]
        R.transitions += 1
        if m == 'rotation':
            return DR.get_rotation_matrix(*x[4]),
        if m == 'angular':
            return DR.get_angular_velocity_matrix(x[5]),
        r = call(m, *x)
        for j, v in enumerate(s):
            if isinstance(v, tuple) and tuple(map(float, x[j])) != v:
                R.bad(f'{m} changes an argument', f'{m} leaves argument {ARGS[j]} as {list(x[j])}, was {v} ({style})')
            if isinstance(x[j], np.ndarray) and any(np.shares_memory(x[j], y) for y in r):
                R.bad(f'{m} result aliases an argument', f'{m}: result shares memory with argument {ARGS[j]} ({style})')
        if np.shares_memory(r[0], r[1]):
            R.bad(f'{m} results alias', f'{m}: the two results share memory ({style})')
        return r

    for seq in itertools.chain(((o,) for o in own), itertools.product(ops, own), itertools.product(few, few, own)):
        R.nstates += 1
        R.traces += 1
        held = [(o, one(*o)) for o in seq]
        for o, r in held:
            if o[0] != last:
                continue
            ref = want[o]
            if not close(r[0], ref[0], ref[2]) or not close(r[1], ref[1], ref[3]):
                R.bad(f'{last} after other calls', f'{last} with {SETS[o[1]]} in the history {seq} ({style}) gives '
                      f'{[list(x) for x in r]}, expected {ref[:2]}', history=seq)
        for o, r in held:
            for x in r:
                if isinstance(x, np.ndarray) and x.flags.writeable:
                    x[...] = -7777.0
        if len(R.viol) > 20:
            return
    R.sample(dict(unit=u, last=seq))


def inplace(m, R):
    """A call, then any components of one of its arguments (or the time) changed
    in place by the owner, then a call of m: the same arrays or lists."""
    def one(n, x):
        R.transitions += 1
        if n == 'rotation':
            return DR.get_rotation_matrix(*x[4]),
        if n == 'angular':
            return DR.get_angular_velocity_matrix(x[5]),
        return call(n, *x)
    for made in (list, np.array):
        for n in list(MODELS) + ['rotation', 'angular']:
            for j in (0, 1, 2, 4, 5):
                for which in range(8):
                    for src in (OTHER[j], tuple(y + 1e-7 * (1 + abs(y)) for y in BASE[j]), tuple(-y for y in BASE[j]), BASE[j][1:] + BASE[j][:1]):
                        x = [made(v) if isinstance(v, tuple) else v for v in BASE]
                        one(n, x)
                        for c in range(3):
                            if which >> c & 1:
                                x[j][c] = src[c]
                        vals = [tuple(map(float, v)) if i != 3 else v for i, v in enumerate(x)]
                        R.state((m, n, made.__name__, tuple(vals)))
                        R.traces += 1
                        got = one(m, x)
                        ref = oracle(m, *vals)
                        if not close(got[0], ref[0], ref[2]) or len(got) > 1 and not close(got[1], ref[1], ref[3]):
                            R.bad(f'{m} after a change in place', f'{m} after {n} and a change of argument {ARGS[j]} to {vals[j]} in its '
                                  f'{made.__name__} gives {[list(y) for y in got]}, expected {ref[:2]}')
                            if len(R.viol) > 20:
                                return
    R.sample(dict(unit=(m, 'inplace')))


def probe(m, arrs, t, R, key):
    """One call on arrays: pure, unaliased and repeatable; returns the result."""
    before = [a.copy() for a in arrs]
    P, V, A, o, w = arrs
    res = call(m, P, V, A, t, o, w)
    R.transitions += 1
    for a, b, n in zip(arrs, before, 'PVAow'):
        if not np.array_equal(a, b):
            R.bad(f'{m} changes an argument', f'{m} changed argument {n} from {list(b)} to {list(a)} ({key})')
            a[:] = b
        for r in res:
            if np.shares_memory(a, r):
                R.bad(f'{m} result aliases an argument', f'{m}: result shares memory with argument {n} ({key})')
    if np.shares_memory(res[0], res[1]):
        R.bad(f'{m} results alias', f'{m}: the two results share memory')
    keep = [r.copy() for r in res]
    again = call(m, P, V, A, t, o, w)
    R.transitions += 1
    for r, k, g in zip(res, keep, again):
        if not np.array_equal(k, g):
            R.bad(f'{m} repeated', f'{m} called again with the same arguments gives {list(g)}, was {list(k)}')
        if not np.array_equal(r, k):
            R.bad(f'{m} earlier result', f'{m} called again changes the earlier result')
        if np.shares_memory(r, g):
            R.bad(f'{m} result reused', f'{m}: two calls return the same memory')
        g += 17.0                        # a caller may change what it was given
    third = call(m, P, V, A, t, o, w)
    R.transitions += 1
    for k, g in zip(keep, third):
        if not np.array_equal(k, g):
            R.bad(f'{m} remembers', f'{m} after its earlier result was changed gives {list(g)}, was {list(k)}')
    return res


def run(u, R):
    if u[1] == 'pairs':
        return pairs(R)
    if u[1] == 'history':
        return history(u, R)
    m = u[0]
    if u[1] == 'inplace':
        return inplace(m, R)
    if u[1] == 'alias':
        alias(m, R)
        return containers(m, R)
    if u[1] == 'sizes':
        return magnitudes(u, R)
    start = STATES[u[2]]
    arr = [np.array(x) for x in start]
    walk(m, start, arr, [], [], u[3], R)
    R.sample(dict(model=m, state=start, depth=u[3]))


def walk(m, start, cur, path, trace, depth, R):
    """Depth-first over step sequences; cur holds the arrays reached by path."""
    for t in STEPS:
        P, V, A, o, w = cur
        res = probe(m, cur, t, R, f'after {path}')
        R.nstates += 1
        R.traces += 1
        ref = oracle(m, *[tuple(map(float, x)) for x in (P, V, A)], t, tuple(map(float, o)), tuple(map(float, w)))
        if not close(res[0], ref[0], ref[2]) or not close(res[1], ref[1], ref[3]):
            R.bad(f'{m} step', f'{m} step {t} after {path}: {[list(r) for r in res]}, expected {ref[:2]}')
        if t == 0 and not (np.array_equal(res[0], P) and np.array_equal(res[1], o)):
            R.bad(f'{m} zero step', f'{m} with no time passing moves from {list(P)}, {list(o)} to '
                  f'{[list(r) for r in res]}')
        p = path + [t]
        if m[0] in 'fs':
            T = sum(p)
            one = oracle(m, start[0], start[1], start[2], T, start[3], start[4])
            span = sum(map(abs, p))
            tol = 1e-9 * (max(map(abs, start[0])) + 1 + sum(abs(x) * span for x in start[1])
                          + sum(abs(x) * span * span for x in start[2]))
            if not close(res[0], one[0], tol) or not np.array_equal(res[1], start[3]):
                R.bad(f'{m} composition', f'{m} steps {p} reach {[list(r) for r in res]}, one step of {T} reaches {one[:2]}',
                      steps=p, start=start)
        for q, r in trace:
            if np.shares_memory(r, res[0]) or np.shares_memory(r, res[1]):
                R.bad(f'{m} result reused', f'{m}: the result after {p} is the memory of the one after {q}')
        if depth > 1:
            nv = V + A * t if 'v' in m else V.copy()
            if m == 'static':
                nv = V.copy()
            snap = [r.copy() for r in res]
            walk(m, start, [res[0], nv, A, res[1], w], p, trace + [(p, res[0]), (p, res[1])], depth - 1, R)
            if not (np.array_equal(snap[0], res[0]) and np.array_equal(snap[1], res[1])):
                R.bad(f'{m} earlier result', f'{m}: the result after {p} changed during later steps')


def magnitudes(u, R):
    """One argument through all magnitudes and the neighbourhoods of the numbers
    in the source: purity and repetition, and there and back again."""
    m, _, k, tier = u
    i = 'pvatow'.index(k)
    for base in BASES:
        for c in range(1 if k == 't' else 4):
            for x in sizes(tier):
                a = list(base)
                a[i] = x if k == 't' else (x, -x, x) if c == 3 else base[i][:c] + (x,) + base[i][c + 1:]
                if not allowed(a[4]):
                    continue
                R.nstates += 1
                R.traces += 1
                P, V, A, t, o, w = a
                arrs = [np.array(y) for y in (P, V, A, o, w)]
                res = probe(m, arrs, t, R, f'{k} = {a[i]}')
                ref = oracle(m, *a)
                if not close(res[0], ref[0], ref[2]) or not close(res[1], ref[1], ref[3]):
                    R.bad(f'{m} step', f'{m}{tuple(a)}: {[list(r) for r in res]}, expected {ref[:2]}')
                z = call(m, *arrs[:3], 0, *arrs[3:])
                R.transitions += 1
                if not (np.array_equal(z[0], arrs[0]) and np.array_equal(z[1], arrs[3])):
                    R.bad(f'{m} zero step', f'{m}{tuple(a)} with no time passing gives {[list(r) for r in z]}')
                if m[0] in 'fs':
                    for f in (1.0, 0.25, -2.0):
                        nv = arrs[1] + arrs[2] * t if 'v' in m else arrs[1]
                        q = call(m, res[0], nv, arrs[2], (f - 1) * t, res[1], arrs[4])
                        one = oracle(m, P, V, A, f * t, o, w)
                        tol = 3 * ref[2] + one[2] + 1e-9 * sum(abs(y) for y in nv) * abs(t)
                        R.transitions += 1
                        if not close(q[0], one[0], tol) or not np.array_equal(q[1], arrs[3]):
                            R.bad(f'{m} composition', f'{m}{tuple(a)} then {f - 1} of the time again: {[list(r) for r in q]}, '
                                  f'at once {one[:2]}')
    R.sample(dict(unit=u, values=len(sizes(tier))))


def alias(m, R):
    """One array passed for two arguments, and lists that must stay as they are."""
    for s in STATES:
        for t in STEPS:
            for i, j in itertools.combinations(range(5), 2):
                arrs = [np.array(x) for x in s]
                arrs[j] = arrs[i]
                vals = list(s)
                vals[j] = vals[i]
                res = probe(m, arrs, t, R, 'shared argument')
                ref = oracle(m, vals[0], vals[1], vals[2], t, vals[3], vals[4])
                R.nstates += 1
                R.traces += 1
                if not close(res[0], ref[0], ref[2]) or not close(res[1], ref[1], ref[3]):
                    R.bad(f'{m} shared argument', f'{m}: one array for arguments {i} and {j}: '
                          f'{[list(r) for r in res]}, expected {ref[:2]}')
            ls = [list(x) for x in s]
            res = call(m, ls[0], ls[1], ls[2], t, ls[3], ls[4])
            for r in res:
                r += 5.0
            R.transitions += 1
            if ls != [list(x) for x in s]:
                R.bad(f'{m} changes an argument', f'{m} changed a list argument: {ls}, was {s}')


def containers(m, R):
    """Arguments of every kind, each object also passed for a second argument:
    they stay as they are, and share nothing with the results."""
    def whole(x):
        return [list(map(float, y)) for y in x]
    for s in STATES:
        s = [tuple(map(float, (round(y) for y in x))) for x in s]
        for kind, made in KINDS.items():
            for t in STEPS:
                for i, j in [(0, 0)] + list(itertools.combinations(range(5), 2)):
                    x = [made(y) for y in s]
                    x[j] = x[i]
                    was = whole(x)
                    first = call(m, *x[:3], t, *x[3:])
                    R.nstates += 1
                    R.traces += 1
                    R.transitions += 2
                    keep = [y.copy() for y in first]
                    for y in first:
                        for z in x:
                            if isinstance(z, np.ndarray) and np.shares_memory(y, z):
                                R.bad(f'{m} result aliases an argument', f'{m}: a result shares memory with an argument ({kind})')
                        y += 3.0
                    if np.shares_memory(*first):
                        R.bad(f'{m} results alias', f'{m}: the two results share memory ({kind})')
                    second = call(m, *x[:3], t, *x[3:])
                    if whole(x) != was:
                        R.bad(f'{m} changes an argument', f'{m} changed an argument ({kind}): {whole(x)}, was {was}')
                    if not all(np.array_equal(y, z) for y, z in zip(second, keep)):
                        R.bad(f'{m} repeated', f'{m} repeated ({kind}) gives {whole(second)}, was {whole(keep)}')


def pairs(R):
    """No model's answer depends on what was called before."""
    for s in STATES:
        a = [np.array(x) for x in s]
        for m, n in itertools.product(MODELS, repeat=2):
            for t in STEPS:
                args = (a[0], a[1], a[2], t, a[3], a[4])
                first = call(n, *args)
                other = call(m, *[x + 1 for x in args])
                second = call(n, *args)
                R.transitions += 3
                R.traces += 1
                R.nstates += 1
                for x, y in zip(first, second):
                    if not np.array_equal(x, y):
                        R.bad(f'{m} then {n}', f'{n} gives {list(y)} after {m}, {list(x)} before')
                    if any(np.shares_memory(z, q) for z in (x, y) for q in other):
                        R.bad(f'{m} then {n}', 'results of two models share memory')
