"""C22 local tangent-plane conversions are rigid and inverse."""
import math
from mc.checks.c20 import g, wgs, solve, whole, INTS, A, B, LITS, decades, degrees_around, DEG, TURN, UP
from mc.checks.c21 import frame
from mc.spec import *
from mc import geohist, guards
import numpy as np
from opendis.RangeCoordinates import euclideanDistance

LEVEL = 'exploration'
RULE = 'a case is one origin and one displacement converted in every direction; cases are distinct by their inputs; those with a displacement of zero do not count as non-trivial'
BOUNDS = {'quick': 'full product of 29 latitudes x 23 longitudes x 4 altitudes of origins (poles, equator, date line and neighbours) and 125 displacements in three sizes from 1 mm to 10 000 km; origins on the axis; all pairs of 27 displacements at 60 origins; range, azimuth and elevation over 343 vectors; list, tuple and array arguments, whole and fractional numbers mixed on either side; the neighbourhood (1, +-0.1%, x0.5, x2, x10, both signs, as metres, degrees and radians) of every number in the source in each coordinate; every history of up to three calls over the whole GPS interface ending in a conversion of this property (2-5 argument values per method), with argument objects kept and changed in place between calls (list, array) or fresh, results overwritten by the caller; numbers one function of the source compares with, in several coordinates at a time; directions at 2 times every power of ten from each axis of either frame, origins likewise from poles, equator, axes and date line',
          'thorough': '73 latitudes x 73 longitudes x 7 altitudes, displacements in five sizes'}
ASSUMPTIONS = ['compared to 1e-6 m plus 1e-8 of the distance (the latitude of the origin is only known to 1e-9 rad)']


def grid(tier):
    if tier == 'quick':
        la = set(range(-90, 91, 9))
        lo = set(range(-180, 181, 20))
        al = [0.0, 10000.0, -500.0, 3.6e7]
        sz = [1e-3, 1234.5, 1e7]
    else:
        la = {x / 2 for x in range(-180, 181, 5)}
        lo = set(range(-180, 181, 5))
        al = [0.0, 10000.0, -500.0, 3.6e7, 1.0, 4e5, -10000.0]
        sz = [1e-3, 1.0, 1234.5, 1e5, 1e7]
    la |= {90 - 1e-9, -90 + 1e-9, 89.9999, -89.9999, 1e-9, -1e-9, 45.3, -33.7}
    lo |= {180 - 1e-9, -180 + 1e-9, 90.0, -90.0}
    return sorted(map(float, la)), sorted(map(float, lo)), al, sz


def tasks(tier):
    la = grid(tier)[0]
    return geohist.tasks(tier) + [('grid', i, tier) for i in range(len(la))] + [('axis', tier), ('pairs', tier), ('pae', tier), ('forms',)] + \
        [(k, i, 8, tier) for k in ('lits', 'joint', 'special') for i in range(8)]


DIRS = [d for d in itertools.product((-1.0, -0.3, 0.0, 0.3, 1.0), repeat=3)]
DIRS27 = [d for d in itertools.product((-1.0, 0.0, 1.0), repeat=3)]


def tol(*vs):
    return 1e-6 + sum(1e-8 * math.hypot(*v) for v in vs)


def run(u, R):
    if u[0] == 'history':
        return geohist.run(u, R, 'C22')
    {'grid': run_grid, 'axis': axis, 'pairs': pairs, 'pae': pae, 'forms': forms, 'lits': lits, 'joint': joint, 'special': special}[u[0]](u, R)


def check(o, fr, d, R, conv=tuple, case=''):
    """o origin, fr its north/east/down axes (columns), d Earth-centred displacement."""
    R.evaluations += 1
    R.transitions += 3
    if any(d):
        R.nstates += 1
    e = tuple(a + b for a, b in zip(o, d))
    d = tuple(a - b for a, b in zip(e, o))
    ned = g.ecef2ned(conv(e), conv(o))
    want = fr.T @ np.array(d)
    c = dict(origin=o, point=e)
    if len(ned) != 3 or not math.dist(ned, want) <= tol(d):
        R.bad('ecef2ned' + case, f'{e} from {o}: {list(map(float, ned))}, expected {want.tolist()}', **c)
    if not abs(math.hypot(*ned) - math.hypot(*d)) <= 1e-9 * math.hypot(*d) + 1e-9:
        R.bad('ecef2ned is not rigid' + case, f'{e} from {o}: length {math.hypot(*ned)}, was {math.hypot(*d)}', **c)
    back = g.ned2ecef(conv(list(ned)), conv(o))
    if len(back) != 3 or not math.dist(back, e) <= 1e-8 + 1e-9 * math.hypot(*d) + 4e-15 * math.hypot(*e):
        R.bad('ned2ecef of ecef2ned' + case, f'{e} from {o} comes back as {list(map(float, back))}', **c)
    # the same numbers read as a local vector
    out = g.ned2ecef(conv(d), conv(o))
    want = fr @ np.array(d) + np.array(o)
    if len(out) != 3 or not math.dist(out, want) <= tol(d):
        R.bad('ned2ecef' + case, f'local {d} at {o}: {list(map(float, out))}, expected {want.tolist()}', **c)
    r, az, el = g.ecef2pae(conv(e), conv(o))
    R.transitions += 1
    v = vector(r, az, el)
    if not math.dist(v, ned) <= 1e-9 + 1e-12 * math.hypot(*d):
        R.bad('ecef2pae' + case, f'{e} from {o}: range {r}, azimuth {az}, elevation {el} is {v}, not {list(map(float, ned))}', **c)


def lits(u, R):
    """The neighbourhood of every number in the source as a distance, as an
    azimuth or elevation, and as the place of the origin."""
    _, i, parts, tier = u
    ds = [x for x in around(LITS) if 0 < x < 1e9]
    ang = [x for x in degrees_around() if abs(x) <= 180]
    places = [(45.3, -121.8, 300.0), (-33.7, 180.0, 0.0), (1e-9, 0.0, 1e4), (89.9999, 77.0, -500.0)]
    for lat, lon, alt in places:
        o, fr = wgs(lat, lon, alt), frame(math.radians(lat), math.radians(lon))
        for x in ds[i::parts]:
            for d in DIRS27:
                check(o, fr, tuple(x * y for y in d), R)
                check(o, fr, tuple(fr @ np.array([x * y for y in d])), R)
                check(o, fr, tuple(fr @ np.array([x * d[0], 300.0 * d[1], -2.0 * d[2]])), R)
        for a in ang[i::parts]:
            for b in (0.0, 30.0, -89.0, 60.5):
                for r in (1.0, 25000.0):
                    check(o, fr, tuple(fr @ np.array(vector(r, a, b))), R)
                    check(o, fr, tuple(fr @ np.array(vector(r, b, a))), R)
    few = [x for x in degrees_around((.999, 1.001)) if abs(x) <= 180][::3]
    o, fr = wgs(*places[0]), frame(math.radians(45.3), math.radians(-121.8))
    for a in few[i::parts]:
        for b in few:
            if abs(b) <= 90:
                check(o, fr, tuple(fr @ np.array(vector(25000.0, a, b))), R)
                # an origin and a direction from it
                q, gr = wgs(b, -121.8, 0.0), frame(math.radians(b), math.radians(-121.8))
                check(q, gr, tuple(gr @ np.array(vector(900.0, a, 10.0))), R)
            q, gr = wgs(45.3, b, 0.0), frame(math.radians(45.3), math.radians(b))
            check(q, gr, tuple(gr @ np.array(vector(7e5, a, -20.0))), R)
            if abs(b) <= 90:
                q, gr = wgs(b, a, 0.0), frame(math.radians(b), math.radians(a))
                check(q, gr, (300.0, -20.0, 4000.0), R)
    for x in ang[i::parts]:
        for lat, lon in ((x, 12.5), (x, -100.0), (45.3, x), (-60.0, x)):
            if abs(lat) <= 89.9999:
                o, fr = wgs(lat, lon, 250.0), frame(math.radians(lat), math.radians(lon))
                for d in DIRS27:
                    check(o, fr, tuple(1234.5 * y for y in d), R)
    for alt in [x for x in around(LITS) if -1e5 < x < 1e8][i::parts]:
        o, fr = wgs(-45.3, 100.0, alt), frame(math.radians(-45.3), math.radians(100.0))
        for d in DIRS27:
            check(o, fr, tuple(1234.5 * y for y in d), R)
    R.sample(dict(origin=(lat, lon, alt)))


def special(u, R):
    """Directions at every distance from each axis, of the Earth and of the
    local frame, and origins at every distance from the poles, the equator,
    the axes and the date line."""
    _, i, parts, tier = u
    steps = (2,) if tier == 'quick' else (1, 3, 7)
    off = [0.0] + [s * j * 10.0 ** -k for k in range(1, 13) for j in steps for s in (1, -1)]
    for lat, lon, alt in ((45.3, -121.8, 300.0), (-33.7, 180.0, 0.0)):
        o, fr = wgs(lat, lon, alt), frame(math.radians(lat), math.radians(lon))
        for a in off[i::parts]:
            for b in off:
                for s in (1, -1):
                    for d in ((s, a, b), (a, s, b), (a, b, s)):
                        for size in (90.0, 1e6):
                            v = tuple(size * x for x in d)
                            check(o, fr, v, R)
                            check(o, fr, tuple(fr @ np.array(v)), R)
    lo = decades((0, 90, -90, 180, -180), -180, 180, steps) + [20.5]
    for lat in ([x for x in decades((0, 90, -90), -90, 90, steps) if abs(x) <= 89.9999] + [33.25])[i::parts]:
        for lon in lo:
            o, fr = wgs(lat, lon, 20.0), frame(math.radians(lat), math.radians(lon))
            for d in ((310.0, -20.0, 4000.0), (-5e5, 0.0, 7e5)):
                check(o, fr, d, R)
    R.sample(dict(origin=(lat, lon), displacement=d))


def joint(u, R):
    """Origins, local vectors and directions near numbers that one function
    compares with, in several coordinates at a time."""
    _, i, parts, tier = u
    cap = 40000 if tier == 'quick' else 1000000
    far = (-1e8, 1e8)
    lat = None
    for lat, lon, alt in itertools.islice(guards.joint_points('RangeCoordinates.py', 'ddm', cap, (DEG, TURN, UP), [(45.3, -121.9, 250.5)]), i, None, parts):
        if abs(lat) <= 89.9999:
            fr = frame(math.radians(lat), math.radians(lon))
            check(wgs(lat, lon, alt), fr, tuple(fr @ np.array((310.0, -20.0, 4000.0))), R)
    places = [(o, wgs(*o), frame(math.radians(o[0]), math.radians(o[1]))) for o in ((45.3, -121.9, 250.5), (-33.7, 179.5, 0.0))]
    for d in itertools.islice(guards.joint_points('RangeCoordinates.py', 'mmm', cap, (far,) * 3, [(310.0, -20.0, 4000.0)]), i, None, parts):
        for _, o, fr in places:
            check(o, fr, d, R)
            check(o, fr, tuple(fr @ np.array(d)), R)
    for r, az, el in itertools.islice(guards.joint_points('RangeCoordinates.py', 'mdd', cap, ((0, 1e8), TURN, DEG), [(25000.0, 33.0, 12.0)]), i, None, parts):
        for _, o, fr in places:
            check(o, fr, tuple(fr @ np.array(vector(r, az, el))), R)
    R.sample(dict(origin=lat))


def vector(r, az, el):
    az, el = math.radians(az), math.radians(el)
    return (r * math.cos(el) * math.cos(az), r * math.cos(el) * math.sin(az), -r * math.sin(el))


def run_grid(u, R):
    la, lo, al, sz = grid(u[2])
    lat = la[u[1]]
    for lon in lo:
        for alt in al:
            o = wgs(lat, lon, alt)
            fr = frame(math.radians(lat), math.radians(lon))
            if abs(lat) == 90:
                # the meridian of the rounded origin is what counts there
                fr = frame(math.radians(lat), math.atan2(o[1], o[0]))
            ds = DIRS if alt == al[0] else DIRS27
            for s in sz:
                for d in ds:
                    check(o, fr, tuple(s * x for x in d), R)
    R.sample(dict(origin=(lat, lon, alt)))


def axis(u, R):
    """Origins on the Earth's axis: any north will do, but down must be right
    and the motion rigid and the same for all points."""
    for z in (B, -B, 7e6, -7e6, B + 1e-3, 6.3e6, -6.4e6, 3.6e7):
        o = (0.0, 0.0, z)
        cols = [np.array(g.ecef2ned(tuple(a + b for a, b in zip(o, e)), o)) for e in
                ((1e6, 0.0, 0.0), (0.0, 1e6, 0.0), (0.0, 0.0, 1e6))]
        fr = np.array(cols) / 1e6        # rows are Earth axes seen locally
        R.transitions += 3
        if not (np.abs(fr @ fr.T - np.eye(3)).max() < 1e-8 and np.linalg.det(fr) > 0
                and abs(fr[2][2] + math.copysign(1, z)) < 1e-8):
            R.bad('axis frame', f'at {o} the local axes are {fr.tolist()}')
            continue
        for s in (1e-3, 100.0, 1e6):
            for d in DIRS:
                check(o, fr, tuple(s * x for x in d), R, case=' on the axis')
    R.sample(dict(origin=o))


def pairs(u, R):
    n = 0
    for lat in (-90.0, -60.0, -0.5, 0.0, 33.3, 89.9999):
        for lon in (-180.0, -90.0, -1.0, 0.0, 77.7, 90.0, 135.0, 179.9, 180.0, 12.0):
            o = wgs(lat, lon, 50.0)
            for s in (1.0, 1e6):
                pts = [tuple(a + s * b for a, b in zip(o, d)) for d in DIRS27]
                loc = [g.ecef2ned(p, o) for p in pts]
                R.transitions += len(pts)
                for (p, a), (q, b) in itertools.combinations(list(zip(pts, loc)), 2):
                    R.evaluations += 1
                    R.nstates += 1
                    if not abs(math.dist(p, q) - math.dist(a, b)) <= 1e-8 + 1e-9 * s:
                        R.bad('distance between points', f'{p} and {q} are {math.dist(p, q)} apart, locally {math.dist(a, b)}')
    R.sample(dict(origin=(lat, lon)))


def pae(u, R):
    vals = (-1e6, -3.0, -1e-3, 0.0, 1e-3, 4.0, 1e6)
    for v in itertools.product(vals, repeat=3):
        for conv in (list, tuple, np.array):
            R.evaluations += 1
            R.transitions += 2
            if any(v):
                R.nstates += 1
            r, az, el = g.ned2pae(conv(v))
            w = vector(r, az, el)
            if not (math.dist(w, v) <= 1e-9 * math.hypot(*v) and -90 <= el <= 90 and -180 <= az <= 360):
                R.bad('ned2pae', f'{v}: range {r}, azimuth {az}, elevation {el} is {w}')
            if not abs(r - math.hypot(*v)) <= 1e-12 * math.hypot(*v):
                R.bad('ned2pae range', f'{v}: {r}')
            if abs(euclideanDistance(conv(v)) - math.hypot(*v)) > 1e-12 * math.hypot(*v) or \
                    abs(euclideanDistance(conv(v), conv((1.0, 2.0, -3.0))) - math.dist(v, (1, 2, -3))) > 1e-9 * (1 + math.hypot(*v)):
                R.bad('euclideanDistance', f'{v}: {euclideanDistance(conv(v))}')
    R.sample(dict(vector=v))


def forms(u, R):
    for lat, lon in ((45.0, 12.0), (-30.0, -100.0), (0.0, 180.0)):
        o = wgs(lat, lon, 100.0)
        fr = frame(math.radians(lat), math.radians(lon))
        for conv in (list, tuple, np.array):
            for d in DIRS27:
                check(o, fr, tuple(1000.0 * x for x in d), R, conv, ' with ' + conv.__name__)
    # whole coordinates on either side, fractional ones on the other
    conv = dict(INTS, **{'float tuple': lambda v: tuple(map(float, v)), 'float array': lambda v: np.array(v, dtype=float)})
    ints = [p for p in whole('quick') if p[0] and p[1]][::40]
    locs = [(0, 0, 0), (1, 0, 0), (3, -4, 12), (-2000, 1, 77), (100000, -20000, 3000)]
    for p in ints:
        for o in (p, tuple(c + 0.625 for c in p)):
            la, lo, al = solve(*o)
            fr = frame(math.radians(la), math.radians(lo))
            for n in locs:
                e = tuple(a + b for a, b in zip(p, n))
                for (kn, kc), (on, oc) in itertools.product(conv.items(), repeat=2):
                    if not all(tuple(map(float, f(x))) == tuple(map(float, x)) for f, x in ((kc, e), (kc, n), (oc, o))):
                        continue
                    R.evaluations += 1
                    R.nstates += 1
                    R.transitions += 4
                    d = tuple(a - b for a, b in zip(e, o))
                    want = fr.T @ np.array(d)
                    got = g.ecef2ned(kc(e), oc(o))
                    if not math.dist(got, want) <= 1e-6 + tol(d):
                        R.bad(f'ecef2ned from {kn} and {on}', f'{e} from {o}: {list(map(float, got))}, expected {want.tolist()}')
                    pae = vector(*g.ecef2pae(kc(e), oc(o)))
                    if not math.dist(pae, want) <= 1e-6 + tol(d):
                        R.bad(f'ecef2pae from {kn} and {on}', f'{e} from {o}: {pae}, expected {want.tolist()}')
                    want = fr @ np.array(n) + np.array(o)
                    got = g.ned2ecef(kc(n), oc(o))
                    if not math.dist(got, want) <= 1e-6 + tol(n):
                        R.bad(f'ned2ecef from {kn} and {on}', f'local {n} at {o}: {list(map(float, got))}, expected {want.tolist()}')
                    if abs(euclideanDistance(kc(e), oc(o)) - math.dist(e, o)) > 1e-6:
                        R.bad(f'euclideanDistance from {kn} and {on}', f'{e} to {o}: {euclideanDistance(kc(e), oc(o))}')
    for v in locs:
        for kn, kc in conv.items():
            w = vector(*g.ned2pae(kc(v)))
            R.transitions += 1
            if not math.dist(w, v) <= 1e-9 * (1 + math.hypot(*v)):
                R.bad(f'ned2pae from {kn}', f'{v} gives {w}')
    R.sample(dict(unit='forms'))
