"""C18 dead reckoning follows the published equations."""
import math
from mc.spec import *
import numpy as np
from mc import guards
from opendis import DeadReckoning as DR

LEVEL = 'exploration'
RULE = 'a case is one call of one model with one combination of inputs; it counts as non-trivial and distinct by (model, inputs) when the time step is not zero'
BOUNDS = {'quick': 'nine models; full product of 3 positions, 5 velocities, 4 accelerations, 9 x 13 x 7 orientations (both gimbal poles, points on either side of the lock, angles beyond a turn), 6 body rates and 5 time steps (forwards, backwards, zero), thinned to the arguments each model takes; each component and each vector through magnitudes 1e-9 to 1e9 and the neighbourhood of every number in the source, alone and with one component of each other argument; every container kind for every argument; the two matrix helpers over the orientation grid; numbers one function of the source compares with, in several coordinates at a time',
          'thorough': 'the same product with 5 positions, 9 velocities, 7 accelerations, 13 x 21 x 11 orientations, 11 body rates and 9 time steps'}
ASSUMPTIONS = ['results are compared to 1e-9 of the size of the terms; the lock is probed at |cos(pitch)| <= 1e-9 (locked) and >= 1e-4 (not locked)']
H = math.pi / 2

# model -> arguments after the position, in call order
MODELS = {'static': 'o', 'fpw': 'vto', 'rpw': 'vtow', 'rvw': 'vatow', 'fvw': 'vato',
          'fpb': 'vto', 'rpb': 'vtow', 'rvb': 'vatow', 'fvb': 'vato'}


def grid(tier):
    q = tier == 'quick'
    g = {'p': [(0.0, 0.0, 0.0), (4510731.25, -4510731.5, 2.0), (-1.0, 20.0, -6356752.0),
               (1e-3, 1e9, -1e-9), (3.0, 5.0, 7.0)],
         'v': [(0.0, 0.0, 0.0), (1.0, 20.0, -300.0), (-0.5, 0.0, 0.0), (0.0, 7.0, 0.0), (0.0, 0.0, 11.0),
               (1e4, -1e4, 1e4), (3.0, 2.0, 1.0), (-1e-6, 2e-6, 3e-6), (0.0, 1e3, 1.0)],
         'a': [(0.0, 0.0, 0.0), (2.0, -30.0, 0.25), (-9.81, 0.0, 0.0), (0.0, 3.0, 5.0),
               (0.0, 0.0, 9.81), (100.0, 10.0, -1.0), (1e-6, 0.0, -1e-6)],
         'w': [(0.0, 0.0, 0.0), (0.1, 0.2, -0.3), (1.0, 0.0, 0.0), (0.0, -1.0, 0.0), (0.0, 0.0, 2.0), (3.0, -5.0, 7.0),
               (0.0, 1.0, 1.0), (-1e-6, 1e-6, 1e-6), (6.3, 0.0, -6.3), (-2.0, -3.0, -4.0), (100.0, 50.0, 25.0)],
         't': [1.0, 0.0, -2.5, 0.0625, 600.0, 1, 1e-6, -1.0, 3.75]}
    yaw = [0.0, 0.3, H, 2.5, math.pi, -H, -2.0, 7.0, -math.pi, 1.0, -0.001, 3.0, -9.0]
    pitch = [0.0, H, -H, 0.4, H - 1e-10, -H + 1e-10, H - 1e-4, -H + 2e-4, -1.2, 1.5, 2.0, 3 * H, math.pi,
             -0.001, H + 1e-10, H + 1e-3, -1.57, 1.0, -2.2, -math.pi, 0.7]
    roll = [0.0, 0.6, H, -H, math.pi, -2.4, 5.0, -math.pi, 0.001, 2.0, -0.3]
    if q:
        for k, n in (('p', 3), ('v', 5), ('a', 4), ('w', 6), ('t', 5)):
            g[k] = g[k][:n]
        yaw, pitch, roll = yaw[:9], pitch[:13], roll[:7]
    g['o'] = list(itertools.product(yaw, pitch, roll))
    return g


def tasks(tier):
    out = [('matrices', tier)]
    g = grid(tier)
    for m, a in MODELS.items():
        n = len(g['o']) * len(g['v']) * (len(g['a']) if 'a' in a else 1) * (len(g['w']) if 'w' in a else 1)
        parts = max(1, n // 7000)
        for p in range(parts):
            out.append((m, p, parts, tier))
        out.append((m, 'kinds'))
        out += [(m, 'joint', p, 2, tier) for p in range(2)]
        for k in 'p' + a:
            for p in range(4):
                out.append((m, 'scale', k, p, 4, tier))
    return out


def rotx(v, a):
    c, s = math.cos(a), math.sin(a)
    return (v[0], c * v[1] - s * v[2], s * v[1] + c * v[2])


def roty(v, a):
    c, s = math.cos(a), math.sin(a)
    return (c * v[0] + s * v[2], v[1], -s * v[0] + c * v[2])


def rotz(v, a):
    c, s = math.cos(a), math.sin(a)
    return (c * v[0] - s * v[1], s * v[0] + c * v[1], v[2])


def to_world(v, o):
    return rotz(roty(rotx(v, o[2]), o[1]), o[0])


def oracle(m, P, V, A, t, o, w):
    """(position, orientation, tolerances) from the equations."""
    d = [V[i] * t + (A[i] * t * t / 2 if 'v' in m else 0.0) for i in range(3)]
    size = sum(abs(V[i] * t) + abs(A[i] * t * t) for i in range(3)) + max(map(abs, P))
    if m.endswith('b'):
        d = to_world(d, o)
    pos = [P[i] + d[i] for i in range(3)] if m != 'static' else list(P)
    ori, osz = list(o), max(map(abs, o)) + 1
    if m[0] == 'r':
        y, th, ph = o
        p, q, r = w
        turn = q * math.sin(ph) + r * math.cos(ph)
        dth = q * math.cos(ph) - r * math.sin(ph)
        if abs(math.cos(th)) < 1e-6:
            dy, dph = 0.0, p
        else:
            dy = turn / math.cos(th)
            dph = p + math.sin(th) * dy
        ori = [y + dy * t, th + dth * t, ph + dph * t]
        # cos(pitch) itself carries an error of 1e-16 near the lock
        rel = 1 + 1e-6 / abs(math.cos(th)) if abs(math.cos(th)) >= 1e-6 else 1
        osz += (abs(dy) + abs(dth) + abs(dph)) * abs(t) * rel
    return pos, ori, 1e-9 * size + 1e-12, 1e-9 * osz


def call(m, P, V, A, t, o, w):
    x = {'v': V, 'a': A, 't': t, 'o': o, 'w': w}
    return getattr(DR, 'drm_' + m)(P, *[x[k] for k in MODELS[m]])


def close(x, want, tol):
    return len(x) == 3 and all(abs(float(x[i]) - want[i]) <= tol for i in range(3))


def verify(m, args, res, R, note=''):
    P, V, A, t, o, w = args
    pos, ori, pt, ot = oracle(m, *args)
    R.evaluations += 1
    R.transitions += 1
    if t:
        R.nstates += 1
    if not close(res[0], pos, pt):
        R.bad(f'{m} position{note}', f'{m}{args}: position {list(map(float, res[0]))}, expected {pos}', arguments=args)
    if not close(res[1], ori, ot):
        R.bad(f'{m} orientation{note}', f'{m}{args}: orientation {list(map(float, res[1]))}, expected {ori}',
              arguments=args)


def run(u, R):
    if u[0] == 'matrices':
        return matrices(u, R)
    m = u[0]
    Z = (0.0, 0.0, 0.0)
    if u[1] == 'kinds':
        return kinds(m, R)
    if u[1] == 'joint':
        return joint(m, *u[2:], R)
    if u[1] == 'scale':
        return scale(m, *u[2:], R)
    g = grid(u[3])
    takes = MODELS[m]
    space = itertools.product(*[g[k] if k in takes else [Z] for k in 'ovaw'])
    for o, v, a, w in itertools.islice(space, u[1], None, u[2]):
        for P in g['p']:
            for t in g['t'] if 't' in takes else [1.0]:
                args = (P, v, a, t, o, w)
                verify(m, args, call(m, *args), R)
    R.sample(dict(model=m, arguments=args))


ANGLE = 1e4         # largest angle used, in radians
BASES = [((3.0, 5.0, 7.0), (1.0, 20.0, -300.0), (2.0, -30.0, 0.25), 0.5, (0.3, 0.4, -2.4), (0.1, 0.2, -0.3)),
         ((0.0, 0.0, 0.0), (0.0, 0.0, 0.0), (0.0, 0.0, 0.0), 1000.0, (0.0, 0.0, 0.0), (0.0, 0.0, 0.0)),
         ((4510731.25, -4510731.5, 2.0), (0.0, 7.0, 0.0), (0.0, 0.0, 0.0), 1.0, (-2.0, -1.2, 0.6), (0.0, -1.0, 0.0))]


def sizes(tier):
    """Magnitudes from 1e-9 to 1e9 and the neighbourhood of every number the
    source mentions, of either sign."""
    x = [s * 10.0 ** k for k in range(-9, 10) for s in ((1, 3) if tier == 'quick' else (1, 2, 3, 5, 7))]
    return sorted({-y for y in x} | set(x) | set(around(LITS)))


LITS = file_literals('DeadReckoning.py')


def few(tier):
    x = [10.0 ** k for k in range(-6, 7, 3 if tier == 'quick' else 1)] + [y * m for y in LITS for m in (.999, 1.001)]
    return sorted(set(x) | {-y for y in x})


def allowed(o):
    return all(abs(x) <= ANGLE for x in o) and not 1e-9 < abs(math.cos(o[1])) < 1e-4


def scale(m, k, part, parts, tier, R):
    """One argument through all magnitudes: each component alone, the whole
    vector along several directions, and with one component of another
    argument."""
    order = 'pvatow'
    i = order.index(k)
    for base in BASES:
        cases = []
        if k == 't':
            cases = [(i, x) for x in sizes(tier)]
        else:
            for c in range(3):
                for x in sizes(tier):
                    v = list(base[i])
                    v[c] = x
                    cases.append((i, tuple(v)))
            for d in ((1.0, 1.0, 1.0), (1.0, -1.0, 0.0), (0.6, 0.0, 0.8), (-0.36, 0.48, 0.8)):
                for x in sizes(tier):
                    cases.append((i, tuple(x * y for y in d)))
        for i, x in cases[part::parts]:
            args = base[:i] + (x,) + base[i + 1:]
            if allowed(args[4]):
                verify(m, args, call(m, *args), R)
        for j, l in enumerate(order):
            if l <= k or l not in MODELS[m] + 'p':
                continue
            for x in few(tier)[part::parts]:
                for c in range(1 if k == 't' else 3):
                    for y in few(tier):
                        for e in range(1 if l == 't' else 3):
                            args = list(base)
                            for n, comp, val in ((i, c, x), (j, e, y)):
                                if order[n] == 't':
                                    args[n] = val
                                else:
                                    q = list(args[n])
                                    q[comp] = val
                                    args[n] = tuple(q)
                            args = tuple(args)
                            if allowed(args[4]):
                                verify(m, args, call(m, *args), R)
    R.sample(dict(unit=(m, 'scale', k)))


def joint(m, part, parts, tier, R):
    """Arguments near numbers that one function compares with, in several
    components at a time."""
    flat = [(*p, *v, *a, t, *o, *w) for p, v, a, t, o, w in BASES]
    takes = MODELS[m] + 'p'
    use = [k for l, n in zip('pvatow', (3, 3, 3, 1, 3, 3)) for k in [l] * n]
    dims = [i for i, l in enumerate(use) if l in takes]
    kinds = ''.join({'o': 'r', 'w': 'r'}.get(use[i], 'm') for i in dims)
    rng = [(-ANGLE, ANGLE) if use[i] == 'o' else (-1e9, 1e9) for i in dims]
    for x in itertools.islice(guards.joint_points('DeadReckoning.py', kinds, 30000 if tier == 'quick' else 1000000, rng,
                                                  [tuple(b[i] for i in dims) for b in flat]), part, None, parts):
        f = list(flat[0])
        for i, y in zip(dims, x):
            f[i] = y
        args = (tuple(f[0:3]), tuple(f[3:6]), tuple(f[6:9]), f[9], tuple(f[10:13]), tuple(f[13:16]))
        if allowed(args[4]):
            verify(m, args, call(m, *args), R)
    R.sample(dict(unit=(m, 'joint')))


KINDS = {'list': list, 'tuple': tuple, 'array': np.array, 'integers': lambda x: [int(y) for y in x],
         'int array': lambda x: np.array(x, dtype=np.int64), 'float32': lambda x: np.array(x, dtype=np.float32),
         'strided': lambda x: np.array([y for z in x for y in (z, 99.0)])[::2],
         'reversed': lambda x: np.array(x[::-1])[::-1], 'big-endian': lambda x: np.array(x, dtype='>f8'),
         'column': lambda x: np.asfortranarray(np.array([x, x, x]).T)[:, 1], 'numbers': lambda x: [np.float64(y) for y in x],
         'read-only': lambda x: (lambda r: (r.setflags(write=False), r)[1])(np.array(x)),
         'mixed': lambda x: [int(x[0]), np.float64(x[1]), np.int32(x[2])]}


def kinds(m, R):
    """Every combination of two containers for two arguments, others lists."""
    sets = [((4, -5, 6), (7, 8, -9), (2, -4, 3), 2, (1, -1, 2), (1, 2, -3)),
            ((0, 1, 2), (0, 0, 5), (0, 6, 0), -3, (0, 0, 0), (0, 1, 0))]
    for args in sets:
        base = [tuple(map(float, x)) if isinstance(x, tuple) else x for x in args]
        ref = call(m, *[list(x) if isinstance(x, tuple) else x for x in base])
        verify(m, tuple(base), ref, R)
        for i, j in itertools.combinations([k for k in range(6) if k != 3], 2):
            for ki, kj in itertools.product(KINDS, repeat=2):
                for t in (args[3], float(args[3]), np.float64(args[3])):
                    x = [list(y) if isinstance(y, tuple) else y for y in base]
                    x[i], x[j], x[3] = KINDS[ki](base[i]), KINDS[kj](base[j]), t
                    res = call(m, *x)
                    verify(m, tuple(base), res, R, f' from {ki} and {kj}')
                    for r in res:
                        if not isinstance(r, np.ndarray) or r.dtype != np.float64 or r.shape != (3,):
                            R.bad(f'{m} result kind', f'{m} returns {r!r} for {ki} and {kj}')


def matrices(u, R):
    g = grid(u[1])
    E = [(1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0)]
    for o in g['o']:
        R.evaluations += 1
        R.nstates += 1
        M = np.asarray(DR.get_rotation_matrix(*o))
        W = [to_world(e, o) for e in E]
        if M.shape != (3, 3) or max(abs(M[i][j] - W[j][i]) for i in range(3) for j in range(3)) > 1e-12:
            R.bad('rotation matrix', f'get_rotation_matrix{o}: {M.tolist()}')
    for w in g['w'] + g['v']:
        for x in g['v'] + g['a'] + g['p']:
            R.evaluations += 1
            R.nstates += 1
            y = np.asarray(DR.get_angular_velocity_matrix(w)) @ np.array(x)
            c = (w[1] * x[2] - w[2] * x[1], w[2] * x[0] - w[0] * x[2], w[0] * x[1] - w[1] * x[0])
            if not close(y, c, 1e-12 * (1 + max(map(abs, w)) * max(map(abs, x)))):
                R.bad('angular velocity matrix', f'{w} applied to {x} gives {list(y)}')
    R.sample(dict(unit=u))
