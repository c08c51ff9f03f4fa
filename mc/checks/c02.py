"""C02 decode -> encode reproduces the octets of every well-formed message."""
import glob
from mc.cases import *

LEVEL = 'model_checking'
BOUNDS = {'quick': 'messages of the reference encoder as in C01; every octet position of 3 baseline messages per type replaced by each of 6 patterns (kept when the reference decoder accepts the result as canonical); reserved bits set in every position; the captures of tests/; fields and list lengths that conditions of the source look at, assigned jointly; lists whose elements are equal but for one value',
          'thorough': 'as C01 thorough; every octet position replaced by all 256 values on several shapes'}
ASSUMPTIONS = ['signalling NaN patterns of 32-bit floats may be quieted by the host (struct semantics)',
               'reserved bits and padding may be normalised to zero']


def tasks(tier):
    out = units(DISPATCHED, tier)
    for n in DISPATCHED:
        for mode in ('zero', 'dist', 'max'):
            for i in range(len(main_shapes(n)) if tier == 'thorough' else 1):
                out.append((n, 'octets', mode, i, tier))
        out.append((n, 'ualists', tier)) if n == 'UaPdu' else None
    return out + [('captures', 'captures')]


def same(got, octets, pads):
    """Equal except that reserved bits may have been set to zero."""
    return len(got) == len(octets) and all(
        x == y or (x ^ y) & ~pads.get(i, 0) == 0 and x & ~y == 0
        for i, (x, y) in enumerate(zip(got, octets)))


def check(name, octets, pads, R, key, **kw):
    R.state(octets)
    R.transitions += 2
    R.traces += 1
    try:
        p = PduFactory.createPdu(octets)
        got = None if p is None else ser(p)
    except Exception as e:
        R.bad(key + ' raises', f'{type(e).__name__}: {e}', octets=octets, **kw)
        return
    if got != octets and (got is None or not same(got, octets, pads)):
        R.bad(key, 're-encoding differs: ' + (bdiff(got, octets) if got is not None else 'None'),
              octets=octets, **kw)


def canonical(name, octets):
    """The reserved bits of the message, or None if it is not well-formed."""
    try:
        v, n = decode(name, octets)
    except (Bad, struct.error):
        return None
    if n != len(octets):
        return None
    ls = Leaves()
    b = encode(v, ls)
    if len(b) != len(octets):
        return None
    for i, (x, y) in enumerate(zip(b, octets)):
        if x != y and (x ^ y) & ~ls.pads.get(i, 0):
            return None
    return ls.pads


def run(u, R):
    name = u[0]
    if u[1] == 'captures':
        return captures(R)
    if u[1] == 'octets':
        return octets_unit(u, R)
    if u[1] == 'ualists':
        return ualists(R)
    octets = b''
    for v, b, devs in cases(u):
        _, octets = expected(v, b, devs)
        check(name, octets, {}, R, where(name, v, devs, u), deviations=devs)
    R.sample(dict(unit=u, last_octets=octets[:120]))


def octets_unit(u, R):
    name, _, mode, i, tier = u
    v = gen(name, mode, main_shapes(name)[i])
    ls = Leaves()
    b = encode(v, ls)
    pats = range(256) if tier == 'thorough' else (0, 1, 0x55, 0x7f, 0x80, 0xff)
    for pos in range(len(b)):
        if pos == 2:
            continue
        for x in pats:
            m = b[:pos] + bytes([x]) + b[pos + 1:]
            pads = canonical(name, m)
            if pads is None:
                R.add('not_well_formed')
                continue
            check(name, m, pads, R, f'{name} octet {pos}' if pos < 12 else f'{name} octets',
                  position=pos)
    # reserved bits set, all at once and one octet at a time
    full = bytearray(b)
    for pos, m in ls.pads.items():
        full[pos] |= m
        one = bytearray(b)
        one[pos] |= m
        check(name, bytes(one), ls.pads, R, f'{name} reserved octet {pos}', position=pos)
    check(name, bytes(full), ls.pads, R, f'{name} reserved octets')
    R.sample(dict(unit=u, octets=b[:100]))


def ualists(R):
    """Underwater acoustic messages with records: one of each list.

    Layout of DIS 7 for emitter systems, shafts and APA: shafts are three
    16-bit fields, APA parameters two."""
    v = gen('UaPdu', 'dist')
    b = encode(v)
    for what, counts, tail in (('shaft', (1, 0, 0), bytes([0, 1, 0, 2, 0, 3])),
                               ('APA', (0, 1, 0), bytes([0, 1, 0, 2])),
                               ('emitter system', (0, 0, 1), bytes([5, 0, 0, 0, 0, 1, 2, 3] + [0] * 12))):
        m = b[:-3] + bytes(counts) + tail
        check('UaPdu', m, {}, R, f'UaPdu non-empty {what} list')


def captures(R):
    n = 0
    for f in sorted(glob.glob(os.path.join(REPO, 'tests', '*.raw'))):
        m = open(f, 'rb').read()
        name = next((s.name for s in SPECS.values() if s.pdu == m[2] and s.name in DISPATCHED), None)
        if name is None:
            continue
        v, used = decode(name, m)
        R.traces += 1
        if read(PduFactory.createPdu(m)) != v:
            R.bad(f'capture {os.path.basename(f)} model', 'library and reference decoder disagree')
        check(name, m[:used], canonical(name, m[:used]), R, f'capture {os.path.basename(f)}')
        n += 1
        R.sample(dict(capture=os.path.basename(f), cls=name, octets=len(m), used=used))
    R.add('captures', n)
