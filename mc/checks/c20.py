"""C20 geodetic and Earth-centred coordinates are inverse."""
import math, signal
from mc.spec import *
from mc import geohist, guards
from opendis.RangeCoordinates import GPS, deg2rad, rad2deg

LEVEL = 'exploration'
RULE = 'a case is one point converted in one direction and back; cases are distinct by their coordinates, all are non-trivial'
BOUNDS = {'quick': 'full product of 401 latitudes (every half degree, the poles, the equator and their neighbours down to one unit in the last place), 161 longitudes (every 3 degrees, the axes, the date line and their neighbours) and 17 altitudes from -10 km to beyond geostationary orbit, both directions; Earth-centred points: full product of 117 signed magnitudes from 1e-12 m to 3e8 m along the axis and 59 away from it in 8 directions, and points around the caustic of the ellipsoid; Earth-centred grids with list, tuple and array arguments; the lla2gcc origin form; the neighbourhood (1, +-0.1%, x0.5, x2, x10, both signs, as metres, degrees and radians) of every number in the source in each coordinate; every history of up to three calls over the whole GPS interface ending in a conversion of this property (2-5 argument values per method), with argument objects kept and changed in place between calls (list, array) or fresh, results overwritten by the caller; numbers one function of the source compares with, in several coordinates at a time; both angles at 1 and 3 times every power of ten down to 1e-12 degrees from the poles, the equator, the axes and the date line, and Earth-centred coordinates likewise',
          'thorough': 'every eighth of a degree of latitude, every half degree of longitude, 50 altitudes; 4 times as many Earth-centred magnitudes'}
ASSUMPTIONS = ['within 100 km of the centre of the Earth, where the singular curve of the ellipsoid (evolute) lies, only termination, an answer and its range are claimed']
A, B = 6378137.0, 6356752.3142
F = (A - B) / A
E2 = F * (2 - F)
g = GPS()


def near(x):
    return [x, math.nextafter(x, math.inf), math.nextafter(x, -math.inf), x + 1e-12, x - 1e-12,
            x + 1e-9, x - 1e-9, x + 1e-6, x - 1e-6, x + 1e-3, x - 1e-3]


def lats(tier):
    n = 2 if tier == 'quick' else 8
    s = {k / n for k in range(-90 * n, 90 * n + 1)}
    for c in (90.0, -90.0, 0.0, 45.0, -45.0):
        s |= set(near(c))
    s |= {-0.0}
    return sorted(x for x in s if -90 <= x <= 90)


def lons(tier):
    s = {k / 2 for k in range(-360, 361, 6 if tier == 'quick' else 1)}
    for c in (180.0, -180.0, 0.0, 90.0, -90.0):
        s |= set(near(c))
    return sorted(x for x in s if -180 <= x <= 180)


ALTS = [0.0, -10000.0, -430.5, -1e-3, 1e-6, 1.0, 100.25, 8848.86, 12000.0, 1e5, 4e5, 2e6, 2.02e7, 3.5786e7,
        1e8, 3.844e8, -100000.0]
MORE = ALTS + [10.0 ** k for k in range(-9, 9)] + [-10.0 ** k for k in range(-9, 6)]


def wgs(lat, lon, alt):
    """The WGS-84 point (independent form, by the parametric latitude)."""
    ph, la = math.radians(lat), math.radians(lon)
    be = math.atan2(B * math.sin(ph), A * math.cos(ph))
    p = A * math.cos(be) + alt * math.cos(ph)
    return p * math.cos(la), p * math.sin(la), B * math.sin(be) + alt * math.sin(ph)


def solve(x, y, z):
    """Geodetic position of a point away from the centre (independent form)."""
    p = math.hypot(x, y)
    ph = math.atan2(z, p * (1 - E2))
    for _ in range(60):
        be = math.atan2(B * math.sin(ph), A * math.cos(ph))
        ph = math.atan2(z + E2 / (1 - E2) * B * math.sin(be) ** 3, p - E2 * A * math.cos(be) ** 3)
    be = math.atan2(B * math.sin(ph), A * math.cos(ph))
    al = (p - A * math.cos(be)) * math.cos(ph) + (z - B * math.sin(be)) * math.sin(ph)
    return math.degrees(ph), math.degrees(math.atan2(y, x)), al


def whole(tier):
    """Earth-centred points with whole coordinates."""
    m = [0, 1, -1, 1000000, -2500000, 4500001, -6378137, 6356752, 7000000, -42164000]
    return [p for p in itertools.product(m, repeat=3) if math.hypot(*p) > 6e6]


INTS = {'int tuple': tuple, 'int list': list, 'int array': lambda v: __import__('numpy').array(v, dtype='int64'),
        'int32 array': lambda v: __import__('numpy').array(v, dtype='int32'), 'float32 array': lambda v: __import__('numpy').array(v, dtype='float32'),
        'read-only array': lambda v: (lambda r: (r.setflags(write=False), r)[1])(__import__('numpy').array(v, dtype=float)),
        'mixed': lambda v: (v[0], float(v[1]), v[2])}


def tasks(tier):
    n = 8 if tier == 'quick' else 40
    return geohist.tasks(tier) + [('special', i, n, tier) for i in range(n)] + ([('lla', i, n, tier) for i in range(n)] + [('ecef', i, n, tier) for i in range(n)] + [('forms', tier)]
                                 + [('lits', k, i, 4, tier) for k in ('lat', 'lon', 'alt', 'ecef') for i in range(4)]
                                 + [('joint', i, 8, tier) for i in range(8)])


def run(u, R):
    if u[0] == 'history':
        return geohist.run(u, R, 'C20')
    if u[0] == 'lla':
        lo, al = lons(u[3]), ALTS if u[3] == 'quick' else MORE
        for lat in lats(u[3])[u[1]::u[2]]:
            for lon in lo:
                for alt in al:
                    geodetic(lat, lon, alt, R)
        R.sample(dict(lat=lat, lon=lon, alt=alt))
    elif u[0] == 'ecef':
        ecef_points(u, R)
    elif u[0] == 'lits':
        lits(*u[1:], R)
    elif u[0] == 'joint':
        joint(*u[1:], R)
    elif u[0] == 'special':
        special(*u[1:], R)
    else:
        forms(R)


def geodetic(lat, lon, alt, R, conv=tuple):
    R.evaluations += 1
    R.nstates += 1
    R.transitions += 2
    e = g.lla2ecef(conv((lat, lon, alt)))
    w = wgs(lat, lon, alt)
    d = math.dist(e, w)
    size = A + abs(alt)
    if not d <= 1e-4 + 4e-15 * size:
        R.bad('lla2ecef ' + region(lat, lon), f'lla2ecef({lat!r}, {lon!r}, {alt!r}) = {tuple(e)}, {d:.3g} m from the '
              'WGS-84 point', lat=lat, lon=lon, alt=alt)
    la, lo, al = g.ecef2lla(conv(e))
    back = wgs(la, lo, al)
    d2 = math.dist(back, w)
    if not (-90 <= la <= 90 and -180 <= lo <= 180):
        R.bad('ecef2lla range', f'{(lat, lon, alt)} comes back as {(la, lo, al)}', lat=lat, lon=lon, alt=alt)
    if not (abs(la - lat) * 111320 <= 2e-3 * (1 + max(alt, 0) / A) and abs(al - alt) <= 1e-3 and d2 <= 1e-3 * (1 + abs(alt) / A)):
        R.bad('round trip ' + region(lat, lon), f'{(lat, lon, alt)} comes back as {(la, lo, al)}, {d2:.3g} m away',
              lat=lat, lon=lon, alt=alt)
    dl = abs(lo - lon) % 360
    dl = min(dl, 360 - dl)
    if not dl * 111320 * math.cos(math.radians(lat)) <= 1e-3 and abs(lat) < 90:
        R.bad('longitude ' + region(lat, lon), f'{(lat, lon, alt)} comes back with longitude {lo}', lat=lat, lon=lon, alt=alt)


def decades(centres, lo, hi, steps=(1, 3), first=1, last=12):
    """Numbers at every power of ten away from each centre, on both sides."""
    s = {float(c) for c in centres}
    for c in centres:
        for k in range(first, last + 1):
            s |= {c + t * j * 10.0 ** -k for t in (1, -1) for j in steps}
    return sorted(x for x in s if lo <= x <= hi)


def special(i, parts, tier, R):
    """Both angles at every distance from a pole, the equator, an axis or the
    date line, there and back, and as Earth-centred points."""
    steps = (1, 3) if tier == 'quick' else (1, 2, 3, 5, 8)
    lo = decades((0, 90, -90, 180, -180), -180, 180, steps) + [20.5, -133.25]
    for lat in (decades((0, 90, -90, 45), -90, 90, steps) + [30.25, -61.5])[i::parts]:
        for lon in lo:
            for alt in (0.0, 12345.5):
                geodetic(lat, lon, alt, R)
    # the same for Earth-centred coordinates themselves
    small = [0.0] + [s * j * 10.0 ** k for k in range(-9, 6) for j in steps for s in (1, -1)]
    for r in [6.4e6, 4.2e7][:1 if tier == 'quick' else 2]:
        for a in small[i::parts]:
            for b in small:
                for p in ((r, a, b), (-r, a, b), (a, r, b), (a, -r, b), (a, b, r), (a, b, -r)):
                    point(*p, R)
    R.sample(dict(lat=lat, lon=lon, alt=alt, near=p))


LITS = file_literals('RangeCoordinates.py')


def degrees_around(ms=(1, 1 - 1e-3, 1 + 1e-3, .5, 2, 10)):
    """The numbers in the source taken as degrees and as radians."""
    a = around(LITS, ms)
    return sorted(set(a) | {math.degrees(x) for x in a})


def lits(kind, i, parts, tier, R):
    """The neighbourhood of every number in the source, for each coordinate."""
    la = [x for x in degrees_around() if -90 <= x <= 90]
    lo = [x for x in degrees_around() if -180 <= x <= 180]
    al = [x for x in around(LITS) if -1e5 < x < 1e9]
    LA, LO, AL = (0.0, 45.3, -33.7, 89.5, -72.0, 1e-3), (0.0, 90.0, -121.9, 179.5, -5.25), (0.0, 250.5, -300.0, 4e5)
    if kind == 'lat':
        c = itertools.product(la, LO, AL)
    elif kind == 'lon':
        c = itertools.product(LA, lo, AL)
    elif kind == 'alt':
        c = itertools.product(LA, LO, al)
    else:
        m = around(LITS, (.999, 1.001, 2) if tier == 'quick' else (.5, .999, 1, 1.001, 2, 10)) + [0.0, 1e-3, 7e6, -7e6]
        for p, z in itertools.islice(itertools.product([x for x in m if x >= 0], m), i, None, parts):
            if math.hypot(p, z) > 1e9:
                continue
            point(p * .6, -p * .8, z, R)
            point(-p, 0.0, z, R)
        return
    few = [x for x in degrees_around((.999, 1.001)) if -180 <= x <= 180]
    if kind == 'lat':
        c = itertools.chain(c, itertools.product([x for x in few if abs(x) <= 90], few, (0.0, 2e3)))
    elif kind == 'alt':
        far = [x for x in around(LITS, (.999, 1.001)) if -1e5 < x < 1e9]
        c = itertools.chain(c, itertools.product([x for x in few if abs(x) <= 90], (-121.9, 0.0, 179.5), far),
                            itertools.product((45.3, -1e-3), few, far))
    for lat, lon, alt in itertools.islice(c, i, None, parts):
        geodetic(lat, lon, alt, R)
    R.sample(dict(lat=lat, lon=lon, alt=alt))


DEG, TURN, UP = (-90, 90), (-180, 180), (-1e5, 1e9)


def joint(i, parts, tier, R):
    """Points near numbers that one function compares with, in several
    coordinates at a time."""
    cap = 60000 if tier == 'quick' else 2000000
    lat = lon = alt = x = y = z = None
    for lat, lon, alt in itertools.islice(guards.joint_points('RangeCoordinates.py', 'ddm', cap, (DEG, TURN, UP), [(45.3, -121.9, 250.5), (-33.7, 5.25, 0.0)]),
                                          i, None, parts):
        geodetic(lat, lon, alt, R)
    far = (-6e8, 6e8)
    for x, y, z in itertools.islice(guards.joint_points('RangeCoordinates.py', 'mmm', cap, (far,) * 3, [(-2.7e6, -4.3e6, 3.8e6), (1e6, 2e6, -6e6)]),
                                    i, None, parts):
        point(x, y, z, R)
    R.sample(dict(lat=lat, lon=lon, alt=alt, x=x, y=y, z=z))


def region(lat, lon):
    if abs(lat) > 89.999:
        return 'near a pole'
    if abs(lat) < 1e-3:
        return 'near the equator'
    if abs(abs(lon) - 180) < 1e-3:
        return 'near the date line'
    return 'elsewhere'


def magnitudes(tier):
    fine = [1, 3] if tier == 'quick' else [1, 1.5, 2, 2.5, 3, 4, 5, 6, 7, 8, 9]
    m = [0.0] + [s * k * 10.0 ** e for e in range(-12, 9) for k in fine for s in (1, -1)]
    m += [s * v for v in (A, B, A + 1e4, B - 1e4, 21000.0, 30000.0, 42000.0, 43500.0, 60000.0, 85000.0, 6.4e6, 6.3e6,
                          4.2e7, 4e8, A / 2, B / 2) for s in (1, -1)]
    return m


class Slow(Exception):
    pass


def ecef_points(u, R):
    ms = magnitudes(u[3])
    k = 0
    # the caustic of the ellipsoid, where the iteration is slowest
    n = 9 if u[3] == 'quick' else 181
    for j in range(u[1], n, u[2]):
        a = j * math.pi / 2 / (n - 1)
        p, z = A * E2 * math.cos(a) ** 3, -B * E2 / (1 - E2) * math.sin(a) ** 3
        for dp in (-1.0, -1e-3, 0.0, 1e-3, 1.0):
            for dz in (-1.0, -1e-3, 0.0, 1e-4, 1.0):
                point(p + dp, 0.0, z + dz, R)
    for p in ms:
        if p < 0:
            continue
        for z in ms:
            k += 1
            if k % u[2] != u[1]:
                continue
            for x, y in ((p, 0.0), (0.0, p), (-p, 0.0), (0.0, -p), (p * .6, p * .8), (-p * .6, p * .8),
                         (-p * .8, -p * .6), (p * .8, -p * .6)) if p else ((0.0, 0.0),):
                point(x, y, z, R)
    R.sample(dict(x=x, y=y, z=z))


def point(x, y, z, R):
    R.evaluations += 1
    R.nstates += 1
    R.transitions += 1
    if x == y == z == 0:
        try:
            r = g.ecef2lla((x, y, z))
        except Exception:
            return
        R.bad('centre of the Earth', f'the centre of the Earth converts to {r}')
        return
    try:
        la, lo, al = g.ecef2lla((x, y, z))
    except Exception as e:
        R.bad('ecef2lla refuses a point', f'ecef2lla({x!r}, {y!r}, {z!r}) raises {type(e).__name__}: {e}', x=x, y=y, z=z)
        return
    if not (-90 <= la <= 90 and -180 <= lo <= 180 and math.isfinite(al)):
        R.bad('ecef2lla range', f'ecef2lla({x!r}, {y!r}, {z!r}) = {(la, lo, al)}', x=x, y=y, z=z)
    if not p_far(x, y, z):
        return
    w = wgs(la, lo, al)
    d = math.dist(w, (x, y, z))
    if not d <= 1e-3 * (1 + math.hypot(x, y, z) / 1e7):
        R.bad('ecef2lla point', f'ecef2lla({x!r}, {y!r}, {z!r}) = {(la, lo, al)}, which is {d:.3g} m away', x=x, y=y, z=z)
    R.transitions += 1
    d = math.dist(g.lla2ecef((la, lo, al)), (x, y, z))
    if not d <= 1e-3 * (1 + math.hypot(x, y, z) / 1e7):
        R.bad('ecef round trip', f'{(x, y, z)} comes back {d:.3g} m away', x=x, y=y, z=z)
    if z and (la > 0) != (z > 0):
        R.bad('hemisphere', f'{(x, y, z)} is given latitude {la}')


def p_far(x, y, z):
    return math.hypot(x, y, z) > 1e5


def forms(R):
    import numpy as np
    for lat in range(-90, 91, 15):
        for lon in range(-180, 181, 30):
            for alt in (0, 250, -20, 12345):
                for conv in (list, tuple, np.array):
                    geodetic(lat, lon, alt, R, conv)
                    geodetic(float(lat), float(lon), float(alt), R, conv)
                for o in ('', '0 0 0', '-121.7895 36.80040 0.0', '180 -89.5 10'):
                    w = wgs(lat, lon, alt)
                    c = [float(t) for t in o.split()]
                    if c:
                        v = wgs(c[1], c[0], c[2])
                        w = tuple(a - b for a, b in zip(w, v))
                    R.evaluations += 1
                    R.transitions += 1
                    q = g.lla2gcc((lat, lon, alt), o) if o else g.lla2gcc((lat, lon, alt))
                    if not math.dist(q, w) <= 1e-5:
                        R.bad('lla2gcc', f'lla2gcc{(lat, lon, alt)} from {o!r} is {q}, expected {w}')
    for p in whole('quick'):
        for n, conv in INTS.items():
            R.evaluations += 1
            R.nstates += 1
            R.transitions += 2
            got = g.ecef2lla(conv(p))
            d = math.dist(wgs(*got), p)
            if not d <= 1e-3 * (1 + math.hypot(*p) / 1e7):
                R.bad('ecef2lla from ' + n, f'ecef2lla{p} = {got}, {d:.3g} m away')
            if not math.dist(got, solve(*p)) <= 1e-3 and math.hypot(p[0], p[1]) > 1:
                R.bad('ecef2lla from ' + n, f'ecef2lla{p} = {got}, expected {solve(*p)}')
    for d in [x / 8 for x in range(-2880, 2881)]:
        R.evaluations += 1
        R.transitions += 2
        if abs(deg2rad(d) - math.radians(d)) > 1e-14 or abs(rad2deg(math.radians(d)) - d) > 1e-12:
            R.bad('degrees', f'deg2rad({d}) = {deg2rad(d)}, rad2deg = {rad2deg(math.radians(d))}')
    w = g.wgs84
    if abs(w.a - A) > 1e-9 or abs(w.b - B) > 1e-4 or abs(w.f - 1 / 298.257223563) > 5e-11 or abs(w.e**2 - 6.69437999014e-3) > 1e-10:
        R.bad('WGS-84 constants', f'a={w.a} b={w.b} f={w.f} e={w.e}')
    R.sample(dict(unit='forms'))
