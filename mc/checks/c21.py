"""C21 attitude conversion preserves the orientation."""
import math
from mc.checks.c20 import g, wgs, A, B, LITS, decades, degrees_around, DEG, TURN, UP
from mc.spec import *
from mc import geohist, guards
import numpy as np

LEVEL = 'exploration'
RULE = 'a case is one position and attitude converted and converted back; cases are distinct by their inputs, all are non-trivial'
BOUNDS = {'quick': 'full product of 13 latitudes (both poles and their neighbours, equator), 9 longitudes (axes, date line), 2 altitudes and 11 headings x 11 pitches x 7 rolls (vertical attitudes and neighbours, half turns), both directions; Earth-centred Euler angles from the same product at 15 positions including points on the axis; the rotation helpers; the neighbourhood (1, +-0.1%, x0.5, x2, x10, both signs, as metres, degrees and radians) of every number in the source in each coordinate; every history of up to three calls over the whole GPS interface ending in a conversion of this property (2-5 argument values per method), with argument objects kept and changed in place between calls (list, array) or fresh, results overwritten by the caller; numbers one function of the source compares with, in several coordinates at a time; any two of the five angles at 2 times every power of ten down to 1e-12 from poles, axes, straight up and down, level and upside down',
          'thorough': '25 latitudes x 15 longitudes x 3 altitudes x 19 headings x 19 pitches x 11 rolls'}
ASSUMPTIONS = ['attitudes are compared as rotation matrices to 1e-8']
H = math.pi / 2
LAT = [0.0, 90.0, -90.0, 45.3, -33.7, 89.9999, -89.9999, 1e-7, 60.0, -75.5, 90 - 1e-9, -1e-3, 12.34,
       30.0, -30.0, 80.0, -80.0, 5.0, -5.0, 66.5, -66.5, 89.0, -89.0, 37.0, -52.0]
LON = [0.0, 180.0, -180.0, 90.0, -90.0, 12.5, -121.8, 179.9999, -1e-7, 45.0, -45.0, 135.0, -135.0, 100.0, -60.0]
ALT = [0.0, 12345.6, -400.0]
YAW = [0.0, 0.7, H, -H, math.pi, 3.0, -2.2, 5.0, 1e-7, -math.pi, 1.5, 2.0, -0.3, -1.0, 2 * math.pi, 4.0, -3.0, 0.01, 1.2]
PITCH = [0.0, H, -H, 0.3, -0.9, H - 1e-7, -H + 1e-7, 1.5, -1.57, 1e-8, 1.0, H - 1e-4, -H + 1e-4, 0.7, -0.2, 1.2, -1.3,
         0.01, -0.01]
ROLL = [0.0, 0.4, H, -H, math.pi, -2.5, 1e-7, 3.0, -math.pi, -0.1, 2.0]


def rx(a):
    c, s = math.cos(a), math.sin(a)
    return np.array([[1, 0, 0], [0, c, -s], [0, s, c]])


def ry(a):
    c, s = math.cos(a), math.sin(a)
    return np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]])


def rz(a):
    c, s = math.cos(a), math.sin(a)
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])


def turns(y, p, r):
    return rz(y) @ ry(p) @ rx(r)


def frame(lat, lon):
    """Columns: north, east, down at a geodetic position (radians)."""
    return rz(lon) @ ry(-lat - H)


def grid(tier):
    if tier == 'quick':
        return LAT[:13], LON[:9], ALT[:2], YAW[:11], PITCH[:11], ROLL[:7]
    return LAT, LON, ALT, YAW, PITCH, ROLL


def tasks(tier):
    la, lo = grid(tier)[:2]
    return geohist.tasks(tier) + [('geo', i, tier) for i in range(len(la))] + [('euler', i, tier) for i in range(15)] + [('helpers',)] + \
        [(k, i, 8, tier) for k in ('lits', 'joint', 'special') for i in range(8)]


def run(u, R):
    if u[0] == 'history':
        return geohist.run(u, R, 'C21')
    if u[0] == 'geo':
        la, lo, al, ys, ps, rs = grid(u[2])
        T = [((y, p, r), turns(y, p, r)) for y in ys for p in ps for r in rs]
        lat = la[u[1]]
        for lon in lo:
            fr = frame(math.radians(lat), math.radians(lon))
            for alt in al:
                pos = wgs(lat, lon, alt)
                for (y, p, r), M in T:
                    geo(lat, lon, alt, y, p, r, fr @ M, pos, R)
        R.sample(dict(lat=lat, lon=lon, heading=y, pitch=p, roll=r))
    elif u[0] == 'euler':
        ps = [(A, 0.0, 0.0), (0.0, A, 0.0), (-A, 0.0, 0.0), (0.0, 0.0, B), (0.0, 0.0, -B), (0.0, 0.0, 7e6), (1e-9, 0.0, B)]
        ps += [wgs(*x) for x in ((45, 12, 0), (-33, -121, 1000), (89.9999, 180, 5), (-89.99, -90, 0), (1e-6, 179.9999, 0),
                                 (60, -180, 1e5), (-5, 90, -100), (36.6, -121.9, 0))]
        pos = tuple(map(float, ps[u[1]]))
        _, _, _, ys, ths, phs = grid(u[2])
        for y in ys:
            for t in ths + [2.0, -2.5]:
                for f in phs:
                    euler(pos, y, t, f, R)
        R.sample(dict(position=pos, psi=y, theta=t, phi=f))
    elif u[0] == 'lits':
        lits(u, R)
    elif u[0] == 'joint':
        joint(u, R)
    elif u[0] == 'special':
        special(u, R)
    else:
        helpers(R)


def lits(u, R):
    """The neighbourhood of every number in the source, for each angle and
    coordinate, and for pairs of the three attitude angles."""
    _, i, parts, tier = u
    an = [a for a in sorted(set(around(LITS)) | {math.radians(x) for x in around(LITS)}) if abs(a) <= 100]
    al = [x for x in around(LITS) if -1e5 < x < 1e8]
    few = [a for a in sorted(set(around(LITS, (.999, 1.001))) | {math.radians(x) for x in around(LITS, (.999, 1.001))})
           if abs(a) <= 7][::3 if tier == 'quick' else 1]
    cases = []
    for base in ((45.3, -121.8, 300.0, 0.7, 0.3, -2.5), (-33.7, 12.5, 0.0, 0.0, 0.0, 0.0), (89.9999, 180.0, 0.0, -2.2, -0.9, 0.4)):
        for k in (3, 4, 5):
            cases += [base[:k] + (a,) + base[k + 1:] for a in an]
        cases += [(x,) + base[1:] for x in degrees_around() if -90 <= x <= 90]
        cases += [base[:1] + (x,) + base[2:] for x in degrees_around() if -180 <= x <= 180]
        cases += [base[:2] + (x,) + base[3:] for x in al]
        for j, k in ((3, 4), (3, 5), (4, 5)):
            cases += [tuple(x if n == j else y if n == k else b for n, b in enumerate(base)) for x in few for y in few]
    flat = [x for x in degrees_around((.999, 1.001)) if abs(x) <= 180][::4 if tier == 'quick' else 1]
    for b in ((0.7, 0.3, -2.5), (0.0, 0.0, 0.0)):
        for x in flat:
            cases += [(x, y, 300.0) + b for y in flat if abs(x) <= 90]
            for n in range(3):
                for a in few[::2]:
                    t = b[:n] + (a,) + b[n + 1:]
                    cases.append((45.3, x, 300.0) + t)
                    if abs(x) <= 90:
                        cases.append((x, -121.8, 0.0) + t)
    for lat, lon, alt, y, p, r in cases[i::parts]:
        geo(lat, lon, alt, y, p, r, frame(math.radians(lat), math.radians(lon)) @ turns(y, p, r), wgs(lat, lon, alt), R)
        if lat in (45.3, -33.7):
            euler(wgs(lat, lon, alt), y, p, r, R)
    R.sample(dict(lat=lat, lon=lon, heading=y, pitch=p, roll=r))


def special(u, R):
    """Any two of the five angles at every distance from the places where
    formulas change: the poles, the equator, the axes, straight up and down,
    level, upside down, due north, east, south and west."""
    _, i, parts, tier = u
    steps = (2,) if tier == 'quick' else (1, 3)
    ang = decades((0, H, -H, math.pi, -math.pi), -4, 4, steps)
    dom = [[x for x in decades((0, 90, -90), -90, 90, steps) if not 90 - 1e-4 < abs(x) < 90],
           decades((0, 90, -90, 180, -180), -180, 180, steps), ang, ang, ang]
    for base in ((45.3, -121.8, 0.7, 0.3, -2.5), (-33.7, 12.5, 0.0, 0.0, 0.0))[:1 if tier == 'quick' else 2]:
        for j, k in itertools.combinations(range(5), 2):
            for a in dom[j][i::parts]:
                for b in dom[k]:
                    c = list(base)
                    c[j], c[k] = a, b
                    lat, lon, y, p, r = c
                    geo(lat, lon, 300.0, y, p, r, frame(math.radians(lat), math.radians(lon)) @ turns(y, p, r), wgs(lat, lon, 300.0), R)
                    if j > 1:
                        euler(wgs(lat, lon, 300.0), y, p, r, R)
    R.sample(dict(case=c))


def joint(u, R):
    """Positions and attitudes near numbers that one function compares with,
    in several coordinates at a time."""
    _, i, parts, tier = u
    an = (-7, 7)
    case = None
    for case in itertools.islice(guards.joint_points('RangeCoordinates.py', 'ddmrrr', 30000 if tier == 'quick' else 500000, (DEG, TURN, UP, an, an, an),
            [(45.3, -121.8, 300.0, 0.7, 0.3, -2.5), (-33.7, 12.5, 0.0, -2.2, -0.9, 0.4)]), i, None, parts):
        lat, lon, alt, y, p, r = case
        if 90 - 1e-4 < abs(lat) < 90:
            continue
        geo(lat, lon, alt, y, p, r, frame(math.radians(lat), math.radians(lon)) @ turns(y, p, r), wgs(lat, lon, alt), R)
        if abs(lat) < 89:
            euler(wgs(lat, lon, alt), y, p, r, R)
    R.sample(dict(case=case))


def geo(lat, lon, alt, y, p, r, want, pos, R, raw=None):
    R.evaluations += 1
    R.nstates += 1
    R.transitions += 2
    case = dict(lat=lat, lon=lon, alt=alt, heading=y, pitch=p, roll=r)
    X, Y, Z, psi, th, ph = g.llarpy2ecef(*raw or (math.radians(lat), math.radians(lon), alt, r, p, y))
    if not math.dist((X, Y, Z), pos) <= 1e-4:
        R.bad('llarpy2ecef position', f'{case}: {(X, Y, Z)}, expected {pos}', **case)
    got = turns(psi, th, ph)
    if not np.abs(got - want).max() <= 1e-8:
        return R.bad('llarpy2ecef attitude', f'{case}: Euler angles {(psi, th, ph)} turn the axes to\n{got}, expected\n{want}',
                     **case)
    la, lo, al, r2, p2, y2 = g.ecef2llarpy(X, Y, Z, psi, th, ph)
    back(la, lo, al, r2, p2, y2, want, pos, R, case)


def back(la, lo, al, r, p, y, want, pos, R, case):
    w = wgs(math.degrees(la), math.degrees(lo), al)
    if not math.dist(w, pos) <= 2e-3:
        R.bad('ecef2llarpy position', f'{case}: {(la, lo, al)} is {math.dist(w, pos):.3g} m away', **case)
    got = frame(la, lo) @ turns(y, p, r)
    if not np.abs(got - want).max() <= 1e-8:
        R.bad('ecef2llarpy attitude', f'{case}: heading {y}, pitch {p}, roll {r} turn the axes to\n{got}, expected\n{want}',
              **case)


def euler(pos, psi, th, ph, R):
    R.evaluations += 1
    R.nstates += 1
    R.transitions += 2
    case = dict(position=pos, psi=psi, theta=th, phi=ph)
    want = turns(psi, th, ph)
    la, lo, al, r, p, y = g.ecef2llarpy(*pos, psi, th, ph)
    back(la, lo, al, r, p, y, want, pos, R, case)
    X, Y, Z, a, b, c = g.llarpy2ecef(la, lo, al, r, p, y)
    if not math.dist((X, Y, Z), pos) <= 2e-3 or not np.abs(turns(a, b, c) - want).max() <= 1e-8:
        R.bad('Euler angles there and back', f'{case} comes back as {(X, Y, Z)}, {(a, b, c)}', **case)


def helpers(R):
    axes = [np.array(v, dtype=float) / math.sqrt(sum(x * x for x in v))
            for v in itertools.product((-1, 0, 1, 2), repeat=3) if any(v)]
    for n in axes:
        for a in YAW + PITCH + ROLL:
            R.evaluations += 1
            R.nstates += 1
            R.transitions += 1
            M = np.asarray(g.rotate_3x3(a, n))
            # turning about n: carry n to the z axis, turn, carry it back
            lo, la = math.atan2(n[1], n[0]), math.atan2(math.hypot(n[0], n[1]), n[2])
            C = rz(lo) @ ry(la)
            W = C @ rz(a) @ C.T
            if not np.abs(M - W).max() <= 1e-12:
                R.bad('rotate_3x3', f'rotate_3x3({a}, {n}) = {M.tolist()}, expected {W.tolist()}')
    # whole numbers as arguments
    from mc.checks.c20 import whole
    for p in whole('quick')[::9]:
        for e in ((0, 0, 0), (1, 0, -2), (0, 1, 3), (-3, -1, 0)):
            euler(p, *e, R)
    for la, lo, al, r, p, y in itertools.product((0, 1, -1), (0, 3, -2), (0, 5000), (0, 1, -3), (0, -1), (0, 2, 4)):
        geo(math.degrees(la), math.degrees(lo), al, y, p, r, frame(la, lo) @ turns(y, p, r),
            wgs(math.degrees(la), math.degrees(lo), al), R, raw=(la, lo, al, r, p, y))
    for lat in LAT:
        for lon in LON:
            R.evaluations += 1
            R.nstates += 1
            R.transitions += 1
            M = np.asarray(g.ecefvec2nedvec(math.radians(lat), math.radians(lon)))
            if not np.abs(M - frame(math.radians(lat), math.radians(lon)).T).max() <= 1e-12:
                R.bad('ecefvec2nedvec', f'axes at {(lat, lon)}: {M.tolist()}')
    R.sample(dict(unit='helpers'))
