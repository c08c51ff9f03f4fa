"""C23 UTM projection is correct in every zone."""
import math
from mc.spec import *
from mc import geohist, guards
from mc.checks.c20 import g, wgs, A, F, LITS, degrees_around, TURN, UP
import numpy as np

LEVEL = 'exploration'
RULE = 'a case is one geodetic point projected; cases are distinct by their coordinates, all are non-trivial'
BOUNDS = {'quick': 'full product of every whole degree of latitude from 80S to 84N and every band boundary with neighbours at every power of ten from 1e-9 to 0.1 degrees, and every half degree of longitude, every zone and exception boundary with the same neighbours and the date line; altitudes and argument kinds over a coarser grid; projection from Earth-centred points over 21 x 73 x 5 points; the neighbourhood (1, +-0.1%, x0.5, x2, x10, both signs, as metres, degrees and radians) of every number in the source in each coordinate; every history of up to three calls over the whole GPS interface ending in a conversion of this property (2-5 argument values per method), with argument objects kept and changed in place between calls (list, array) or fresh, results overwritten by the caller; numbers one function of the source compares with, in several coordinates at a time',
          'thorough': 'every quarter degree of latitude and every tenth of a degree of longitude'}
ASSUMPTIONS = ['easting and northing are compared to 3 mm (the series in use is cut at the sixth order), the scale factor to 1e-7',
               'points closer than 1e-9 degrees to a zone boundary other than the boundary itself are not claimed']
BANDS = 'CDEFGHJKLMNPQRSTUVWX'
n = F / (2 - F)
AA = A / (1 + n) * (1 + n**2 / 4 + n**4 / 64 + n**6 / 256)
AL = [n/2 - 2/3*n**2 + 5/16*n**3 + 41/180*n**4 - 127/288*n**5 + 7891/37800*n**6,
      13/48*n**2 - 3/5*n**3 + 557/1440*n**4 + 281/630*n**5 - 1983433/1935360*n**6,
      61/240*n**3 - 103/140*n**4 + 15061/26880*n**5 + 167603/181440*n**6,
      49561/161280*n**4 - 179/168*n**5 + 6601661/7257600*n**6,
      34729/80640*n**5 - 3418889/1995840*n**6, 212378941/319334400*n**6]
E = math.sqrt(F * (2 - F))


def krueger(lat, dlon):
    """(easting, northing, scale) of the transverse Mercator projection."""
    ph, la = math.radians(lat), math.radians(dlon)
    t = math.sinh(math.atanh(math.sin(ph)) - E * math.atanh(E * math.sin(ph)))
    xi, eta = math.atan2(t, math.cos(la)), math.atanh(math.sin(la) / math.sqrt(1 + t * t))
    x, y, p, q = eta, xi, 1.0, 0.0
    for j, a in enumerate(AL, 1):
        x += a * math.cos(2*j*xi) * math.sinh(2*j*eta)
        y += a * math.sin(2*j*xi) * math.cosh(2*j*eta)
        p += 2*j*a * math.cos(2*j*xi) * math.cosh(2*j*eta)
        q += 2*j*a * math.sin(2*j*xi) * math.sinh(2*j*eta)
    k = 0.9996 * AA / A * math.sqrt((1 + ((1-n)/(1+n) * math.tan(ph))**2) * (p*p + q*q) / (t*t + math.cos(la)**2))
    return 500000 + 0.9996 * AA * x, 0.9996 * AA * y, k


def zone(lat, lon):
    if lon == 180:
        lon = -180
    if 56 <= lat < 64 and 3 <= lon < 12:
        return 32
    if lat >= 72 and 0 <= lon < 42:
        return 31 if lon < 9 else 33 if lon < 21 else 35 if lon < 33 else 37
    for z in range(60, 0, -1):
        if lon >= 6 * z - 186:
            return z


def band(lat):
    i = 0
    while i < 19 and lat >= -72 + 8 * i:
        i += 1
    return BANDS[i]


EPS = (1e-9,) + tuple(10.0 ** -k for k in range(8, 1, -1)) + (.1,)


def lats(tier):
    k = 1 if tier == 'quick' else 4
    s = {x / k for x in range(-80 * k, 84 * k + 1)}
    for b in list(range(-80, 81, 8)) + [84]:
        s |= {b + d for e in EPS for d in (e, -e)}
    return sorted(x for x in s if -80 <= x <= 84)


def lons(tier):
    k = 2 if tier == 'quick' else 10
    s = {x / k for x in range(-180 * k, 180 * k + 1)}
    for b in list(range(-180, 181, 6)) + [3, 9, 21, 33]:
        s |= {b + d for e in EPS for d in (e, -e)}
    return sorted(x for x in s if -180 <= x <= 180)


BOUNDARIES_LAT = list(range(-80, 85, 8)) + [84]
BOUNDARIES_LON = list(range(-180, 181, 6)) + [3, 9, 21, 33]


def tasks(tier):
    m = 16 if tier == 'quick' else 64
    return geohist.tasks(tier) + [('grid', i, m, tier) for i in range(m)] + [('forms',), ('ecef',), ('letters', tier)] + \
        [(k, i, 8, tier) for k in ('lits', 'joint') for i in range(8)]


def point(lat, lon, alt, got, R, note='', off=0.0):
    R.evaluations += 1
    R.nstates += 1
    R.transitions += 1
    utm, info = got
    z = zone(lat, lon)
    lo = lon - 360 if lon == 180 else lon
    e, nn, k = krueger(lat, lo - (6 * z - 183))
    case = dict(lat=lat, lon=lon, alt=alt)
    if info[0] != f'{z}{band(lat)}':
        return R.bad('zone' + note, f'{(lat, lon)}: zone {info[0]}, expected {z}{band(lat)}', **case)
    if not math.hypot(utm[0] - e, utm[1] - nn) <= 3e-3 + off:
        R.bad('coordinates' + note, f'{(lat, lon)} zone {info[0]}: {utm[:2]}, expected {(e, nn)}', **case)
    if not abs(info[1] - k) <= 1e-7:
        R.bad('scale' + note, f'{(lat, lon)} zone {info[0]}: scale {info[1]}, expected {k}', **case)
    if not abs(utm[2] - alt) <= off or len(utm) != 3:
        R.bad('altitude' + note, f'{(lat, lon, alt)}: {utm[2]}', **case)


def run(u, R):
    if u[0] == 'history':
        return geohist.run(u, R, 'C23')
    if u[0] == 'grid':
        lo = lons(u[3])
        for lat in lats(u[3])[u[1]::u[2]]:
            for lon in lo:
                point(lat, lon, 12.5, g.lla2utm((lat, lon, 12.5)), R)
        R.sample(dict(lat=lat, lon=lon))
    elif u[0] == 'lits':
        la = [x for x in degrees_around() if -80 <= x <= 84 and min(abs(x - b) for b in BOUNDARIES_LAT) > 2e-9]
        lo = [x for x in degrees_around() if -180 <= x <= 180 and min(abs(x - b) for b in BOUNDARIES_LON) > 2e-9]
        # distances from the central meridian of a zone
        lo += [c + x for c in (-177.0, 3.0, 15.0, 177.0) for x in degrees_around() if 2e-9 < abs(x) <= 3 - 2e-9]
        al = [x for x in around(LITS) if -1e5 < x < 1e9]
        c = itertools.chain(itertools.product(la, (-179.5, -64.25, 0.5, 5.9, 20.0, 117.5), (12.5,)),
                            itertools.product((-79.0, -33.3, -1e-3, 0.5, 45.25, 60.0, 75.5, 83.5), lo, (12.5,)),
                            itertools.product((-33.3, 75.5), (0.5, 117.5), al),
                            itertools.product(la[::3], lo[::5], (12.5,)))
        for lat, lon, alt in itertools.islice(c, u[1], None, u[2]):
            point(lat, lon, alt, g.lla2utm((lat, lon, alt)), R)
        R.sample(dict(lat=lat, lon=lon, alt=alt))
    elif u[0] == 'joint':
        lat = lon = alt = None
        for lat, lon, alt in itertools.islice(guards.joint_points('RangeCoordinates.py', 'ddm', 200000 if u[3] == 'quick' else 2000000, ((-80, 84), TURN, UP), [(45.3, -121.9, 250.5), (-33.7, 5.25, 0.0)]),
                u[1], None, u[2]):
            if min(abs(lat - b) or 1 for b in BOUNDARIES_LAT) > 2e-9 and min(abs(lon - b) or 1 for b in BOUNDARIES_LON) > 2e-9:
                point(lat, lon, alt, g.lla2utm((lat, lon, alt)), R)
        R.sample(dict(lat=lat, lon=lon, alt=alt))
    elif u[0] == 'forms':
        for lat in range(-80, 85, 4):
            for lon in range(-180, 181, 15):
                for alt in (0, -430.25, 1e7):
                    for conv in (tuple, list, np.array):
                        point(lat, lon, alt, g.lla2utm(conv((lat, lon, alt))), R)
        R.sample(dict(unit='forms'))
    elif u[0] == 'ecef':
        for lat in list(range(-80, 85, 8)) + [-79.5, 0.1, 83.9]:
            for lon in range(-180, 181, 5):
                for alt in (0.0, 100.0, -50.0, 10000.0, 4e5):
                    # stay clear of boundaries by more than the rounding
                    la, lo = lat + 0.01 if lat < 83 else lat - 0.01, lon + 0.01 if lon < 180 else 179.99
                    point(la, lo, alt, g.ecef2utm(wgs(la, lo, alt)), R, ' from Earth-centred', 1e-3)
        from mc.checks.c20 import whole, solve, INTS
        for p in whole('quick'):
            la, lo, al = solve(*p)
            if not -80 < la < 84 or math.hypot(p[0], p[1]) < 2 or min(abs(lo - b) for b in
                    list(range(-180, 181, 6)) + [3, 9, 21, 33]) < 1e-6 or min(abs(la - b) for b in range(-80, 85, 8)) < 1e-6:
                continue
            for n, conv in INTS.items():
                point(la, lo, al, g.ecef2utm(conv(p)), R, ' from Earth-centred ' + n, 1e-2)
        R.sample(dict(unit='ecef'))
    else:
        k = 1000 if u[1] == 'quick' else 100000
        for i in range(-80 * k, 84 * k + 1):
            R.evaluations += 1
            R.nstates += 1
            R.transitions += 1
            if g.utmLetterDesignator(i / k) != band(i / k):
                R.bad('band letter', f'latitude {i / k}: {g.utmLetterDesignator(i / k)}, expected {band(i / k)}')
