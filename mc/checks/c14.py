"""C14 variable datums of any length stay aligned and intact."""
from mc.cases import *

LEVEL = 'model_checking'
CARRIERS = [s.name for s in SPECS.values() if any(f.kind == 'list' and f.typ == 'VariableDatum' for f in s.fields)]
HAS_FIXED = {n: any(f.typ == 'FixedDatum' for f in SPECS[n].fields if f.kind == 'list') for n in CARRIERS}
BOUNDS = {'quick': 'each of the datum carriers: one datum of every bit length 0..600 and around powers of two up to 65536 between two others; all sequences of up to 3 datums over 10 lengths x 0..2 fixed datums; 255 to 65 537 fixed and variable datums; every octet value in every position of a 9-octet datum; all counts 0..17 x 0..17 of fixed and variable datums; some 300 identifiers and values x 5 lengths; the contents of C01 for the carriers and the datum records; non-zero padding on the wire; the datum record alone over 0..2100 bits; fields and list lengths that conditions of the source look at, assigned jointly; datums that are equal but for one octet',
          'thorough': 'every bit length 0..5000; all sequences of up to 4 datums over 14 lengths x 0..3 fixed datums; up to a million datums'}
ASSUMPTIONS = ['variableDatumLength is set by the caller to the length of the data; the data has one element per (started) octet']
LENS = [0, 8, 64, 1, 7, 9, 63, 65, 72, 128]
LENS2 = LENS + [120, 127, 129, 512]


def tasks(tier):
    t = tier == 'thorough'
    out = []
    top = 5000 if t else 600
    for c in CARRIERS:
        for a in range(0, top + 1, 1000 if t else 601):
            out.append((c, 'lens', a, min(top + 1, a + (1000 if t else 601))))
        for first in range(len(LENS2 if t else LENS)):
            out.append((c, 'seq', first, tier))
        out.append((c, 'octets'))
        out.append((c, 'many', 'variable', tier))
        if HAS_FIXED[c]:
            out.append((c, 'many', 'fixed', tier))
        out.append((c, 'matrix', tier))
        out.append((c, 'ids', tier))
    out = [(n, 'msg', u) for n in CARRIERS + ['VariableDatum', 'FixedDatum'] for u in units([n], tier)] + out
    return out + [('VariableDatum', 'alone', 0, 20000 if t else 2100)]


def datum(i, bits, seed=0):
    return {'#': 'VariableDatum', 'variableDatumID': 1000 + i, 'variableDatumLength': bits,
            'variableData': [(seed + 17 * j + i) % 255 + 1 for j in range((bits + 7) // 8)]}


def fixed(i):
    return {'#': 'FixedDatum', 'fixedDatumID': 7 + i, 'fixedDatumValue': 0xA0B0C0D0 + i}


_BASE = {}


def carrier(c, fx, vs):
    if c not in _BASE:
        _BASE[c] = gen(c, 'dist', Shape(dflt=0))
    v = dict(_BASE[c], variableDatumRecords=vs)
    if HAS_FIXED[c]:
        v['fixedDatumRecords'] = fx
    return v


def verify(c, v, R, key, wire=True, **kw):
    want = encode(v)
    R.state(want)
    R.traces += 1
    R.transitions += 3
    b = ser(build(v))
    if b != want:
        R.bad(f'{c} {key} encode', 'encoding differs: ' + bdiff(b, want), got=b, expected=want, **kw)
    st = io.BytesIO(want + b'\xcc' * 11)
    if c in DISPATCHED:
        p = PduFactory.getPdu(DataInputStream(st))
        n = st.tell()
    else:
        p = new(c)
        p.parse(DataInputStream(st))
        n = st.tell()
    got = read(p)
    if got != v:
        R.bad(f'{c} {key} decode', 'decoded datums differ: ' + str(diff(got, v)), octets=want, **kw)
    elif n != len(want):
        R.bad(f'{c} {key} consumed', f'{n} of {len(want)} octets', octets=want, **kw)
    else:
        again = ser(p)
        if again != want:
            R.bad(f'{c} {key} re-encode', bdiff(again, want), octets=want, **kw)


def run(u, R):
    c, kind = u[:2]
    if kind == 'lens':
        ls = list(range(u[2], u[3]))
        if u[2] == 0:
            for k in range(10, 17):
                ls += [(1 << k) + d for d in (-65, -64, -63, -9, -8, -7, -1, 0, 1, 7, 8, 9, 56, 63, 64, 65)]
        for n in ls:
            verify(c, carrier(c, [fixed(1)], [datum(1, 8), datum(2, n), datum(3, 24)]), R, 'length', bits=n)
        R.sample(dict(carrier=c, bits=[u[2], u[3] - 1]))
    elif kind == 'seq':
        t = u[3] == 'thorough'
        ls = LENS2 if t else LENS
        for nf in range(4 if t else 3):
            fx = [fixed(i) for i in range(nf)]
            if nf and not HAS_FIXED[c]:
                break
            if u[2] == 0:
                verify(c, carrier(c, fx, []), R, 'no datums', fixed=nf)
            for d in range(4 if t and nf < 2 else 3):
                for rest in itertools.product(ls, repeat=d):
                    verify(c, carrier(c, fx, [datum(i, n) for i, n in enumerate((ls[u[2]],) + rest)]), R,
                           'sequence', bits=(ls[u[2]],) + rest, fixed=nf)
        R.sample(dict(carrier=c, first=ls[u[2]]))
    elif kind == 'msg':
        return through(u[2], R)
    elif kind == 'matrix':
        n = 40 if u[2] == 'thorough' else 18
        for i in range(n) if HAS_FIXED[c] else (0,):
            for j in range(n):
                verify(c, carrier(c, [fixed(k) for k in range(i)], [datum(k, (17, 64, 8, 72)[k % 4]) for k in range(j)]),
                       R, 'counts', fixed=i, datums=j)
        R.sample(dict(carrier=c, counts=n))
    elif kind == 'ids':
        few = FEW['u32'] + [17000, 31000, 50000]
        for x in ALPHA['u32']:
            for n in (0, 8, 64, 65, 100):
                d = dict(datum(1, n), variableDatumID=x)
                verify(c, carrier(c, [dict(fixed(1), fixedDatumID=x)], [d, datum(2, 24)]), R, 'identifier', id=x, bits=n)
            verify(c, carrier(c, [dict(fixed(1), fixedDatumValue=x), fixed(2)], [datum(1, 8), dict(datum(2, 30), variableDatumID=x)]),
                   R, 'value', value=x)
        for x in few:
            for y in few:
                for n in (0, 8, 33):
                    verify(c, carrier(c, [dict(fixed(1), fixedDatumID=x, fixedDatumValue=y)] * 2,
                                      [dict(datum(1, n), variableDatumID=x), dict(datum(2, n), variableDatumID=y)]), R,
                           'identifiers', ids=(x, y), bits=n)
        R.sample(dict(carrier=c, identifiers=len(ALPHA['u32'])))
    elif kind == 'many':
        for n in (255, 256, 257, 1000, 32768, 65535, 65536, 65537) + ((131072, 1000000) if u[3] == 'thorough' else ()):
            if u[2] == 'fixed':
                verify(c, carrier(c, [fixed(i % 9) for i in range(n)], [datum(1, 8)]), R, 'many fixed', fixed=n)
            else:
                verify(c, carrier(c, [fixed(1)] * 2, [datum(i % 9, 8 * (i % 3)) for i in range(n)]), R, 'many', datums=n)
        R.sample(dict(carrier=c, many=n))
    elif kind == 'octets':
        for pos in range(9):
            for x in range(256):
                d = datum(1, 72)
                d['variableData'][pos] = x
                verify(c, carrier(c, [], [d, datum(2, 16)]), R, 'octet', position=pos, octet=x)
        # what stands in the padding is skipped
        for n in list(range(0, 130)):
            v = carrier(c, [fixed(0)], [datum(0, n), datum(1, 40)])
            ls = Leaves()
            m = bytearray(encode(v, ls))
            for i, k in ls.pads.items():
                m[i] |= k
            R.state(bytes(m))
            R.traces += 1
            R.transitions += 1
            p = PduFactory.createPdu(bytes(m)) if c in DISPATCHED else parse_new(c, bytes(m))[0]
            if read(p) != v:
                R.bad(f'{c} padding', f'{n} bits: padding octets leak: ' + str(diff(read(p), v)), octets=bytes(m))
        R.sample(dict(carrier=c, octets='9 x 256'))
    else:
        for n in range(u[2], u[3]):
            verify(c, datum(3, n, n), R, 'alone', bits=n)
            ln = len(ser(build(datum(3, n, n))))
            if ln % 8:
                R.bad('VariableDatum alignment', f'{n} bits take {ln} octets')
