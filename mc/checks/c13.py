"""C13 transmitter sections are delimited by their length fields."""
from mc.cases import *

LEVEL = 'model_checking'
BOUNDS = {'quick': 'radio system 0..10 and limits x major modulation 0..6 and limits x modulation length 0..40 and limits x 3 pattern sections x 3 variable record lists; pattern type 0..4 and limits x pattern length 0..64 and limits x 4 modulation sections x 3 lists; all octet values in every octet of the known sections; the contents of C01 for the transmitter message; decoded, checked against the reference decoder and re-encoded; fields and list lengths that conditions of the source look at, assigned jointly, also with nine kinds of sections behind them',
          'thorough': 'all 256 modulation lengths, pattern lengths 0..512, all radio systems 0..64, all pairs of section lengths 0..48'}
ASSUMPTIONS = ['a recognised record type whose length field is not its length is kept as an unrecognised block']
VTPS = [[], [{'#': USVR, 'recordType': 70000, 'data': b'\x01\x02\x03\x04\x05\x06\x07\x08\x09\x0a'}],
        None]


def tasks(tier):
    t = tier == 'thorough'
    out = []
    systems = list(range(65 if t else 11)) + [255, 256, 258, 65535]
    for rs in systems:
        out.append(('mod', rs, tier))
    for pt in list(range(5)) + [255, 256, 257, 65535]:
        out.append(('pat', pt, tier))
    out.append(('both', 0, tier))
    out += [('octets', o, tier) for o in range(len(OPTS))]
    out += [('build', o, tier) for o in range(len(OPTS))]
    out += [('ctx', (mode, i), tier) for mode in ('zero', 'dist', 'max') for i in range(8)]
    return [('msg', u, tier) for u in units(['TransmitterPdu'], tier)] + out


def vtps():
    out = [list(VTPS[0]), list(VTPS[1])]
    out.append([gen('HighFidelityHAVEQUICKRadio', 'dist'), VTPS[1][0], gen('HighFidelityHAVEQUICKRadio', 'max')])
    return out


_CACHE = {}


SYSTEMS = [(0, 5, 5), (1, 0, 0), (1, 2, 8), (2, 1, 16), (3, 1, 16), (4, 2, 16), (6, 0, 16), (2, 1, 15), (7, 3, 24)]
PATTERNS = [(0, 0), (1, 40), (2, 9)]


def contexts(mode, part, cap):
    """The fields in front of the sections, jointly as the conditions of the
    source look at them, with sections of each kind behind them."""
    message(0, 0, b'', 0, b'', [], mode)
    _, omm, ors, opt = _CACHE[mode]
    for k, (v, b, devs) in enumerate(guards.cases('TransmitterPdu', mode, Shape(dflt=0, opt=0), cap)):
        if k % 8 != part or len(b) != len(_CACHE[mode][0]):
            continue
        for leaf, y in devs:
            b = patch(b, leaf, y)
        mine = {l.path[-1] for l, _ in devs}
        for i, (rs, mm, n) in enumerate(SYSTEMS):
            pt, m = PATTERNS[(k + i) % 3]
            c = bytearray(b)
            if 'radioSystem' not in mine:
                c[ors:ors + 2] = rs.to_bytes(2, 'big')
            if 'majorModulation' not in mine:
                c[omm:omm + 2] = mm.to_bytes(2, 'big')
            if 'antennaPatternType' not in mine:
                c[opt:opt + 2] = pt.to_bytes(2, 'big')
            yield message(rs, mm, pattern(n), pt, pattern(m, 3), VTPS[1] if i % 2 else [], c)


def message(rs, mm, mod, pt, pat, vt, mode='dist'):
    """A transmitter message with the given discriminators and section octets;
    mode may also be the octets of the fixed part with its discriminators."""
    if isinstance(mode, bytearray):
        b, (_, omm, ors, opt) = mode, _CACHE['zero' if 'zero' in _CACHE else next(iter(_CACHE))]
        b[opt + 2:opt + 4] = len(pat).to_bytes(2, 'big')
        b[ors + 6] = len(mod)
        b[30:32] = len(vt).to_bytes(2, 'big')
        return bytes(b) + mod + pat + b''.join(encode(x) for x in vt)
    if mode not in _CACHE:
        v = gen('TransmitterPdu', mode, Shape(dflt=0))
        ls = Leaves()
        b = encode(v, ls)
        off = {l.path: l.off for l in ls}
        _CACHE[mode] = (b, off[('modulationType', 'majorModulation')], off[('modulationType', 'radioSystem')],
                        off[('antennaPatternType',)])
    b, omm, ors, opt = _CACHE[mode]
    b = bytearray(b)
    b[omm:omm + 2] = mm.to_bytes(2, 'big')
    b[ors:ors + 2] = rs.to_bytes(2, 'big')
    b[opt:opt + 2] = pt.to_bytes(2, 'big')
    b[opt + 2:opt + 4] = len(pat).to_bytes(2, 'big')
    b[ors + 6] = len(mod)
    ovt = 12 + 8 + 8 + 2
    b[ovt:ovt + 2] = len(vt).to_bytes(2, 'big')
    return bytes(b) + mod + pat + b''.join(encode(x) for x in vt)


def pattern(n, seed=1):
    return bytes((i * 37 + seed) & 0x7f or 1 for i in range(n))


def verify(data, R, key, canon=True, **kw):
    R.state(data)
    R.traces += 1
    R.transitions += 2
    want, n = decode('TransmitterPdu', data)
    st = io.BytesIO(data + b'\x99\x88\x77')
    p = PduFactory.getPdu(DataInputStream(st))
    got = read(p)
    if got != want:
        R.bad(key, 'decoded sections differ: ' + str(diff(got, want)), octets=data, **kw)
        return
    if st.tell() != n:
        R.bad(key + ' consumed', f'consumed {st.tell()} of {n} octets', octets=data, **kw)
    b = ser(p)
    ls = Leaves()
    clean = encode(want, ls)
    # (a signalling NaN of a 32-bit float may come back quiet, as in the model)
    if b != data and (len(b) != len(data) or any(
            x != z and (x ^ y) & ~ls.pads.get(i, 0) for i, (x, y, z) in enumerate(zip(b, data, clean)))):
        R.bad(key + ' re-encode', 're-encoding differs: ' + bdiff(b, data), octets=data, **kw)
    if (p.modulationParametersLength, p.antennaPatternLength, p.variableTransmitterParameterCount) != (
            0 if want['modulationParameters'] is None else len(encode(want['modulationParameters'])),
            0 if want['antennaPattern'] is None else len(encode(want['antennaPattern'])),
            len(want['variableTransmitterParameters'])):
        R.bad(key + ' lengths', 'reported lengths are not those of the sections', octets=data, **kw)


def run(u, R):
    kind, x, tier = u
    t = tier == 'thorough'
    if kind == 'msg':
        for v, b, devs in cases(x):
            for leaf, y in devs:
                b = patch(b, leaf, y)
            verify(b, R, where('TransmitterPdu', v, devs, x))
        R.sample(dict(unit=x))
        return
    if kind == 'ctx':
        for b in contexts(*x, 4000 if t else 300):
            verify(b, R, 'fields before the sections')
        R.sample(dict(unit=u))
        return
    vs = vtps()
    if kind == 'mod':
        for mm in [0, 1, 2, 3, 4, 5, 6, 255, 256, 65535]:
            for n in (range(256) if t else list(range(41)) + [63, 64, 127, 128, 254, 255]):
                for pt, pn in ((0, 0), (1, 40), (2, 9)):
                    for vt in vs:
                        verify(message(x, mm, pattern(n), pt, pattern(pn, 3), vt), R,
                               f'radio system {x}', major=mm, length=n, pattern=(pt, pn))
    elif kind == 'pat':
        for n in (range(513) if t else list(range(65)) + [127, 128, 255, 256, 257, 300, 1000]):
            for rs, mm, mn in ((0, 0, 0), (2, 1, 16), (6, 0, 16), (9, 3, 5)):
                for vt in vs:
                    verify(message(rs, mm, pattern(mn), x, pattern(n, 3), vt), R,
                           f'pattern type {x}', length=n, modulation=(rs, mm, mn))
    elif kind == 'both':
        top = 49 if t else 25
        for m in range(top):
            for n in range(top):
                for rs, pt in ((2, 1), (7, 3), (1, 1)):
                    verify(message(rs, 1, pattern(m), pt, pattern(n, 5), vs[2 if t else 1]), R,
                           'section lengths', lengths=(m, n), systems=(rs, pt))
    elif kind == 'octets':
        v = gen('TransmitterPdu', 'dist', Shape(dflt=1, c=0, opt=x))
        ls = Leaves()
        b = encode(v, ls)
        start = len(encode(gen('TransmitterPdu', 'dist', Shape(dflt=0))))
        vals = range(256) if t or len(b) < start + 90 else (0, 1, 127, 128, 255)
        end = start + sum(len(encode(v[a])) for a in ('modulationParameters', 'antennaPattern') if v[a])
        for pos in range(start, min(end, start + 120)):
            for o in vals:
                verify(b[:pos] + bytes([o]) + b[pos + 1:], R, f'section octets of variant {x}', position=pos)
    else:
        for n in range(4):
            for mode in ('zero', 'dist', 'max'):
                v = gen('TransmitterPdu', mode, Shape(dflt=n, c=0, opt=x))
                want = encode(v)
                R.state(want)
                R.traces += 1
                R.transitions += 1
                b = ser(build(v))
                if b != want:
                    R.bad(f'variant {x} encode', 'encoding differs: ' + bdiff(b, want), expected=want)
                verify(want, R, f'variant {x} decode')
    R.sample(dict(unit=u, opts=OPTS[x] if kind in ('octets', 'build') else None))
