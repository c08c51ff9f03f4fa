"""C11 standard variable records keep type, length and payload."""
from mc.cases import *
from mc.checks import c07

LEVEL = 'model_checking'
BOUNDS = {'quick': 'all sequences of up to 3 records over 10 letters (known types in two states, unknown types of several numbers and payload sizes) in each of the four carriers, encoded, decoded and re-encoded; every record length 0..400 for every known and several unknown types; foreign families; type-number boundaries; every octet value of every payload position of an unknown record; the contents of C01 for the carriers; fields and list lengths that conditions of the source look at, assigned jointly',
          'thorough': 'sequences of up to 5 records over 7 letters and 4 over 10; lengths 0..4096'}
ASSUMPTIONS = ['octets after the type and length of an unknown record are its payload']
CARRIERS = {'DirectedEnergyFirePdu': 'dERecords', 'EntityDamageStatusPdu': 'damageDescriptions',
            'TransmitterPdu': 'variableTransmitterParameters',
            'StandardVariableSpecification': 'standardVariables'}
FAMILY = {c: next(f.typ for f in SPECS[c].fields if f.kind == 'svr') for c in CARRIERS}
TYPES = {s.svr: s.name for s in SPECS.values() if s.svr is not None}


def tasks(tier):
    out = []
    for c in CARRIERS:
        for first in range(len(letters(c))):
            out.append((c, 'seq', 3 if tier == 'quick' else 4, first))
            if tier == 'thorough' and first < 7:
                out.append((c, 'deep', 5, first))
        out += [(c, 'msg', x) for x in units([c], tier, pairs=False)]
        out.append((c, 'types'))
        out.append((c, 'lengths', 400 if tier == 'quick' else 4096))
        out.append((c, 'payload'))
        out.append((c, 'foreign'))
        out.append((c, 'morph'))
    return out


def unknown(t, data):
    return {'#': USVR, 'recordType': t, 'data': data}


def letters(c):
    fam = FAMILY[c]
    out = []
    for n in FAMILY_KNOWN[fam]:
        out.append(gen(n, 'dist', Shape(dflt=1), Ctr(7), 0))
    out.append(unknown(70000, bytes(range(1, 3))))
    out.append(unknown(70001, bytes(range(10, 20))))
    out.append(unknown(5, b'\0\0'))
    out.append(unknown(0xffffffff, bytes(range(100, 142))))
    if 'DirectedEnergyAreaAimpoint' in FAMILY_KNOWN[fam]:
        out.append(gen('DirectedEnergyAreaAimpoint', 'max', Shape({'beamAntennaPatterns': 2,
                       'directedEnergyTargetEnergyDepositions': 1}), Ctr(3), 0))
        out.append(gen('DirectedEnergyAreaAimpoint', 'zero', Shape(dflt=0), Ctr(3), 0))
    for n in FAMILY_KNOWN[fam][:1]:
        out.append(gen(n, 'max', Shape(dflt=0), Ctr(9), 0))
    out.append(unknown(0, bytes(250)))
    # a payload that looks like another record
    out.append(unknown(3001, encode(gen('DirectedEnergyDamage', 'dist'))[:26 + 8]))
    return out


_BASE = {}


def carrier(c, recs):
    if c not in _BASE:
        _BASE[c] = gen(c, 'dist', Shape(dflt=0))
    return dict(_BASE[c], **{CARRIERS[c]: recs})


def parse(c, data):
    return PduFactory.createPdu(data) if c in DISPATCHED else parse_new(c, data)[0]


def verify(c, recs, R, key, **kw):
    v = carrier(c, recs)
    want = encode(v)
    R.state(want)
    R.traces += 1
    R.transitions += 4
    o = build(v)
    b = ser(o)
    if b != want:
        R.bad(f'{c} {key} encode', 'encoding differs: ' + bdiff(b, want), got=b, expected=want, **kw)
    p = parse(c, want)
    got = read(p)
    if got != v:
        R.bad(f'{c} {key} decode', 'decoded records differ: ' + str(diff(got, v)), octets=want, **kw)
        return
    lst = getattr(p, CARRIERS[c])
    for x, r in zip(lst, recs):
        t = r['recordType'] if r['#'] == USVR else SPECS[r['#']].svr
        n = len(encode(r))
        if (x.recordType, x.recordLength, x.marshalledSize()) != (t, n, n):
            R.bad(f'{c} {key} header', f'type/length/size {x.recordType}/{x.recordLength}/{x.marshalledSize()}, not {t}/{n}', **kw)
        one = ser(x)
        if one != encode(r):
            R.bad(f'{c} {key} record', 'a decoded record encodes differently: ' + bdiff(one, encode(r)), **kw)
    again = ser(p)
    if again != want:
        R.bad(f'{c} {key} re-encode', 're-encoding differs: ' + bdiff(again, want), octets=want, **kw)


def headers(key, o, v, b, R):
    for x, r in zip(getattr(o, CARRIERS[v['#']], []), v.get(CARRIERS[v['#']], [])):
        t = r['recordType'] if r['#'] == USVR else SPECS[r['#']].svr
        n = len(encode(r))
        if (x.recordType, x.recordLength, x.marshalledSize()) != (t, n, n):
            R.bad(f'{key} header', f'type/length/size {x.recordType}/{x.recordLength}/{x.marshalledSize()}, not {t}/{n}', octets=b)


def run(u, R):
    c, kind = u[:2]
    if kind == 'msg':
        return through(u[2], R, extra=headers)
    if kind == 'morph':
        return c07.morph(c, R)
    if kind in ('seq', 'deep'):
        ls = letters(c)
        if kind == 'deep':
            ls = ls[:7]
        for d in range(u[2] if kind == 'seq' else 5):
            if kind == 'deep' and d < 4:
                continue
            for rest in itertools.product(range(len(ls)), repeat=d):
                verify(c, [ls[u[3]]] + [ls[i] for i in rest], R, 'sequence', letters=(u[3],) + rest)
        if u[3] == 0:
            verify(c, [], R, 'empty')
        R.sample(dict(unit=u, alphabet=[l['#'] for l in ls]))
    elif kind == 'types':
        ts = {0, 1, 2, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 2, 2**32 - 1}
        for t in list(TYPES) + [1 << k for k in range(32)]:
            ts |= {t - 1, t + 1, t}
        ts |= {x for x in ALPHA['u32']}
        ts = [t for t in sorted(ts) if t not in TYPES and t < 2**32]
        for t in ts:
            verify(c, [unknown(t, b'\x01\x02'), unknown(t ^ 1 if t ^ 1 not in TYPES else 77, bytes(10)),
                       unknown(t, bytes(range(18)))], R, f'type number', number=t)
        for t in (-1, -3000, 2**32, 1.5, '3000', None):
            R.traces += 1
            R.transitions += 1
            try:
                k = record.getStandardVariableClass(t, klass(FAMILY[c]))()
                k.data = b'\1\2'
                b = ser(k)
            except Exception:
                continue
            R.bad(f'{c} invalid type number', f'type number {t!r} is accepted and written', octets=b)
        R.sample(dict(carrier=c, type_numbers=len(ts)))
    elif kind == 'lengths':
        lengths(c, u[2], R)
    elif kind == 'payload':
        base = bytearray(range(60, 70))
        for pos in range(10):
            for x in range(256):
                d = bytearray(base)
                d[pos] = x
                verify(c, [unknown(70000, bytes(d)), unknown(70001, b'\0\1')], R, 'payload', position=pos, octet=x)
        for n in range(2, 2000, 8):
            verify(c, [unknown(70000, bytes((i * 13 + n) & 255 for i in range(n))), letters(c)[0]], R,
                   'payload size', size=n)
    else:
        fam = FAMILY[c]
        for t, n in TYPES.items():
            rec = gen(n, 'dist', Shape(dflt=1))
            ok = n in FAMILY_KNOWN[fam]
            for pre in ([], [unknown(70000, b'\1\2')]):
                data = encode(carrier(c, pre + [rec]))
                R.state(data)
                R.traces += 1
                R.transitions += 1
                try:
                    p = parse(c, data)
                except Exception:
                    if ok:
                        R.bad(f'{c} family {n}', 'a record of the family is rejected', octets=data)
                    continue
                if not ok:
                    R.bad(f'{c} foreign {n}', f'a {n} record is accepted in {c}', octets=data)
            R.traces += 1
            try:
                k = record.getStandardVariableClass(t, klass(fam))
            except Exception:
                k = None
            if (k is None) == ok or ok and k.__name__ != n:
                R.bad(f'{c} class of {t}', f'getStandardVariableClass gives {k}')
        R.sample(dict(carrier=c, family=fam, known=FAMILY_KNOWN[fam]))


def lengths(c, top, R):
    """Records whose length field says something else than their contents."""
    fam = FAMILY[c]
    recs = [gen(n, 'dist', Shape(dflt=2), Ctr(3)) for n in FAMILY_KNOWN[fam]]
    recs += [unknown(70000, bytes(range(1, 19)))]
    for rec in recs:
        body = encode(rec)
        for ln in list(range(top + 1)) + [65528, 65529, 65535]:
            data = encode(carrier(c, []))
            # one record, then plenty of octets for any length to be satisfied
            one = body[:4] + ln.to_bytes(2, 'big') + body[6:]
            v0 = carrier(c, [rec])
            whole = encode(v0)
            at = whole.index(body)
            data = whole[:at] + one + whole[at + len(body):] + bytes(ln)
            R.state((rec['#'], ln))
            R.traces += 1
            R.transitions += 1
            try:
                want, _ = decode(c, data)
            except (Bad, struct.error):
                want = None
            try:
                p = parse(c, data)
                got = read(p)
            except Exception:
                got = None
            if got != want:
                R.bad(f'{c} {rec["#"]} length', f'length {ln}: ' + (
                    'accepted though it does not fit the type' if want is None else
                    'rejected' if got is None else str(diff(got, want))), octets=data[:300], length=ln)
