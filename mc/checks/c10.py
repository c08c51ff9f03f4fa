"""C10 bit fields keep every bit in its declared place."""
from mc.spec import *
from opendis.record import bitfield as bf

LEVEL = 'model_checking'
BOUNDS = {'quick': 'all 128 width sequences totalling 8 bits with all 256 patterns; all 32768 totalling 16 bits, those of 24 and 32 bits with at most 4 and 3 fields (and uniform ones), each with every single-field extreme and two mixed patterns; all illegal totals up to 40 bits in one, two or three fields; all 65536 patterns of those of 16 bits with two fields and some 300 boundary patterns of those of 16, 24 and 32 bits with two or three; pairs of types that share class name, field names or widths used in turn; all 65536 patterns of the net id, spread spectrum and directed-energy flag records',
          'thorough': '24 and 32 bits with at most 6 and 5 fields'}
ASSUMPTIONS = ['reserved bits of a record may be kept or read as zero']


def compositions(n, k=None):
    if n == 0:
        yield ()
        return
    if k == 0:
        return
    for a in range(1, n + 1):
        for r in compositions(n - a, None if k is None else k - 1):
            yield (a,) + r


def tasks(tier):
    out = [('comp', 8, 8, p, 4) for p in range(4)]
    out += [('comp', 16, 16, p, 32) for p in range(32)]
    t = tier == 'thorough'
    out += [('comp', 24, 6 if t else 4, p, 8) for p in range(8)]
    out += [('comp', 32, 5 if t else 3, p, 8) for p in range(8)]
    out += [('uniform', 0), ('illegal', 0)]
    out += [('names', p, 8) for p in range(8)] + [('full', 16, 3 if t else 2, p, 8) for p in range(8)]
    out += [('wide', n, 3, p, 8) for n in (16, 24, 32) for p in range(8)]
    out += [('record', n, p) for n in ('NetId', 'SpreadSpectrum', 'DEFireFlags') for p in range(4)]
    return out


def make(widths):
    return bf.bitfield('T', [(f'f{i}', 'INTEGER', w) for i, w in enumerate(widths)])


def ref(widths, vals):
    acc = 0
    for w, v in zip(widths, vals):
        acc = acc << w | v
    return acc.to_bytes(sum(widths) // 8, 'big')


def patterns(widths):
    n = sum(widths)
    if n == 8:
        for x in range(256):
            yield split(widths, x)
        return
    full = [(1 << w) - 1 for w in widths]
    zero = [0] * len(widths)
    yield zero
    yield full
    for i in range(len(widths)):
        yield zero[:i] + [full[i]] + zero[i + 1:]
        if widths[i] > 1:
            yield zero[:i] + [1] + zero[i + 1:]
            yield full[:i] + [full[i] >> 1] + full[i + 1:]
    x = int.from_bytes(bytes([0x9c, 0x35, 0xe2, 0x6b][:n // 8]), 'big')
    yield split(widths, x)


def split(widths, x):
    out = []
    for w in reversed(widths):
        out.append(x & ((1 << w) - 1))
        x >>= w
    return out[::-1]


def check(widths, R, more=None):
    T = make(widths)
    held = None
    R.transitions += 1
    n = sum(widths) // 8
    names = [f'f{i}' for i in range(len(widths))]
    for vals in more or patterns(widths):
        R.nstates += 1
        R.traces += 1
        R.transitions += 2
        o = T()
        for k, x in zip(names, vals):
            setattr(o, k, x)
        b = ser(o)
        want = ref(widths, vals)
        if b != want:
            R.bad(f'{sum(widths)} bits encode', f'widths {widths} values {vals} encode to {b.hex()}, not {want.hex()}')
        if o.marshalledSize() != n:
            R.bad(f'{sum(widths)} bits size', f'widths {widths}: size {o.marshalledSize()}')
        st = io.BytesIO(want + b'\xff\xee\xdd\xcc')
        p = T.parse(DataInputStream(st))
        got = [getattr(p, k) for k in names]
        if got != list(vals) or st.tell() != n:
            R.bad(f'{sum(widths)} bits decode', f'widths {widths}: {want.hex()} decodes to {got} ({st.tell()} octets), not {vals}')
        if ser(p) != want:
            R.bad(f'{sum(widths)} bits again', f'widths {widths}: {want.hex()} re-encodes to {ser(p).hex()}')
        if held and ([getattr(held[0], k) for k in names] != held[1] or ser(held[0]) != held[2]):
            R.bad(f'{sum(widths)} bits shared', f'widths {widths}: a record decoded earlier as {held[1]} reads '
                  f'{[getattr(held[0], k) for k in names]} after {want.hex()} is decoded')
        held = (p, list(vals), want)
    # declared by keyword, overwritten in reverse order
    o = T(**dict(zip(names, vals)))
    for k, x in reversed(list(zip(names, vals))):
        setattr(o, k, 0)
        setattr(o, k, x)
    R.traces += 1
    if ser(o) != want:
        R.bad(f'{sum(widths)} bits keywords', f'widths {widths} values {vals} encode to {ser(o).hex()}')


def several(part, parts, R):
    """Two types that have something in common (class name, field names, widths)
    created one after the other and used in turn."""
    ws = list(compositions(8, 3)) + [(16,), (1, 15), (15, 1), (8, 8), (4, 4, 8), (5, 11), (3, 5, 8), (24,), (8, 16), (16, 8), (32,),
                                     (1, 31), (31, 1), (16, 16), (10, 22), (8, 8, 16)]
    for i, (a, b) in enumerate(itertools.product(ws, repeat=2)):
        if i % parts != part:
            continue
        for cls, other in (('T', 'T'), ('T', 'U')):
            for na, nb in (('abc', 'abc'), ('abc', 'cab'), ('abc', 'xyz')):
                S = bf.bitfield(cls, [(na[j], 'INTEGER', w) for j, w in enumerate(a)])
                o = S()
                U = bf.bitfield(other, [(nb[j], 'INTEGER', w) for j, w in enumerate(b)])
                p = U()
                va, vb = [(1 << w) - 1 - (j & 1) for j, w in enumerate(a)], [1] * len(b)
                for k, x in zip(na, va):
                    setattr(o, k, x)
                for k, x in zip(nb, vb):
                    setattr(p, k, x)
                R.nstates += 1
                R.traces += 1
                R.transitions += 6
                o2, p2 = S.parse(instream(ref(a, va))), U.parse(instream(ref(b, vb)))
                for q, w, n, v in ((o, a, na, va), (p, b, nb, vb), (o2, a, na, va), (p2, b, nb, vb)):
                    got = [getattr(q, k) for k in n[:len(w)]]
                    if got != v or ser(q) != ref(w, v) or q.marshalledSize() != sum(w) // 8:
                        R.bad('two types', f'{cls}{a} named {na} and {other}{b} named {nb}: {v} reads {got}, '
                              f'encodes to {ser(q).hex()}')
                for q, w, n in ((o, a, na), (p, b, nb)):
                    for k, x in zip(n, w):
                        try:
                            setattr(q, k, 1 << x)
                        except Exception:
                            continue
                        if ser(q) == ref(w, [getattr(q, y) for y in n[:len(w)]]) and getattr(q, k) != 1 << x:
                            R.bad('two types range', f'{1 << x} in a field of {x} bits is accepted as {getattr(q, k)}')
                R.transitions += 2
                if type(o).__name__ != cls or type(p).__name__ != other:
                    R.bad('two types names', f'classes are called {type(o).__name__} and {type(p).__name__}')
    R.sample(dict(types=len(ws) ** 2, last=(a, b)))


def refuse(fields, R, what):
    R.nstates += 1
    R.traces += 1
    R.transitions += 1
    try:
        bf.bitfield('X', fields)
    except Exception:
        return
    R.bad(f'illegal {what}', f'a bit field type with {fields} is created')


def run(u, R):
    if u[0] == 'comp':
        _, n, k, p, parts = u
        for i, w in enumerate(compositions(n, k)):
            if i % parts == p:
                check(w, R)
        R.sample(dict(bits=n, last=w, count=i + 1))
    elif u[0] == 'names':
        several(u[1], u[2], R)
    elif u[0] in ('full', 'wide'):
        kind, n, k, p, parts = u
        ws = [w for w in compositions(n, k) if len(w) > 1]
        for w in ws[p::parts] if kind == 'wide' else ws:
            r = (range(p, 65536, parts) if kind == 'full' else
                 [x for x in ALPHA['u16' if n == 16 else 'u32'] if x < 1 << n])
            check(w, R, [split(w, x) for x in r])
        R.sample(dict(bits=n, last=w))
    elif u[0] == 'uniform':
        for n in (8, 16, 24, 32):
            for w in range(1, n + 1):
                if n % w == 0:
                    check((w,) * (n // w), R)
                check((w,) + (1,) * (n - w), R)
                check((1,) * (n - w) + (w,), R)
        R.sample(dict(uniform='1 x n, n x 1 and equal widths'))
    elif u[0] == 'illegal':
        I = 'INTEGER'
        for a in range(1, 41):
            if a % 8 or a > 32:
                refuse([('a', I, a)], R, 'total')
            for b in range(1, 41):
                if (a + b) % 8 or a + b > 32:
                    refuse([('a', I, a), ('b', I, b)], R, 'total')
                for c in (1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32):
                    if (a + b + c) % 8 or a + b + c > 32:
                        refuse([('a', I, a), ('b', I, b), ('c', I, c)], R, 'total')
        refuse([], R, 'total')
        for w in (0, -1, -8, 33, 40, 64):
            refuse([('a', I, w)], R, 'width')
            refuse([('a', I, w), ('b', I, 8)], R, 'width')
            refuse([('a', I, 8), ('b', I, w)], R, 'width')
            refuse([('a', I, 16 - w), ('b', I, w)], R, 'width')
            refuse([('a', I, 8 - w), ('b', I, w), ('c', I, 8)], R, 'width')
        for w in (8.0, '8', None):
            refuse([('a', I, w)], R, 'width type')
        for t in ('CHAR', 'integer', '', None, 0):
            refuse([('a', t, 8)], R, 'field type')
        R.sample(dict(illegal='totals, widths, width types, field types'))
    else:
        name, p = u[1:]
        s = SPECS[name]
        bits = s.fields[0].extra
        for x in range(p, 65536, 4):
            R.nstates += 1
            R.traces += 1
            R.transitions += 3
            raw = x.to_bytes(2, 'big')
            v, _ = decode(name, raw)
            o, n = parse_new(name, raw + b'\x5a')
            if read(o) != v or n != 2:
                R.bad(f'{name} decode', f'{raw.hex()} decodes to {read(o)} ({n} octets), not {v}')
            clean, full = encode(v), raw
            b = ser(o)
            if b not in (clean, full):
                R.bad(f'{name} re-encode', f'{raw.hex()} re-encodes to {b.hex()}')
            if clean == raw:
                q = build(v)
                if ser(q) != raw:
                    R.bad(f'{name} encode', f'{v} encodes to {ser(q).hex()}, not {raw.hex()}')
                if q.marshalledSize() != 2:
                    R.bad(f'{name} size', f'{q.marshalledSize()}')
        R.sample(dict(record=name, last=v))
