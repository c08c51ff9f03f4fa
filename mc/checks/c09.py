"""C09 stream primitives are exact inverses in network order."""
from mc.spec import *
from mc.spec import _ints

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every primitive over all values of 8- and 16-bit types and boundary, single-bit and neighbour patterns of 32/64-bit types; all sequences of 3 primitives over 2 values each; streams of 70 000 octets at nine alignments, two in turn; byte strings of length 0..300 and at the limits; every truncation; out-of-range values; every failing read and write followed by any primitive on the same stream',
          'thorough': 'as quick, all sequences of 4 primitives, 32-bit types over all 65536 upper and lower halves'}
ASSUMPTIONS = ['signalling NaN of 32-bit floats is excluded']


def wf(n, signed=False):
    return lambda x: x.to_bytes(n, 'big', signed=signed)


def i_vals(n, signed):
    if n == 8:
        return list(range(-128, 128)) if signed else list(range(256))
    if n == 16:
        return list(range(-32768, 32768)) if signed else list(range(65536))
    return _ints(n, signed)


PRIMS = {}
for _names, _n, _s in ((('byte', 'int8'), 8, True), (('unsigned_byte', 'uint8'), 8, False),
                       (('short', 'int16'), 16, True), (('unsigned_short', 'uint16'), 16, False),
                       (('int', 'int32'), 32, True), (('unsigned_int', 'uint32'), 32, False),
                       (('long', 'int64'), 64, True), (('uint64',), 64, False)):
    for _x in _names:
        PRIMS[_x] = (wf(_n // 8, _s), i_vals(_n, _s), _n // 8, 'int')
for _x in ('float', 'float32'):
    PRIMS[_x] = (lambda v: struct.pack('>f', v), [unfl(b) for b in ALPHA['f32']], 4, 'float')
for _x in ('double', 'float64'):
    PRIMS[_x] = (lambda v: struct.pack('>d', v), [unfl(b) for b in ALPHA['f64']], 8, 'float')
PRIMS['boolean'] = (lambda v: bytes([1 if v else 0]), [False, True], 1, 'bool')
PRIMS['char'] = (lambda v: ord(v).to_bytes(2, 'big'), [chr(i) for i in range(65536)], 2, 'str')
PRIMS['char8'] = (lambda v: bytes([ord(v)]), [chr(i) for i in range(256)], 1, 'str')
PRIMS['utf'] = (lambda v: len(v).to_bytes(2, 'big') + v,
                [bytes(range(256))[:n] for n in range(257)] + [b'\xff' * 65535, b'\0' * 300], None, 'bytes')


def tasks(tier):
    out = [('values', p) for p in PRIMS] + [('bytes', 'bytes')]
    depth = 3 if tier == 'quick' else 4
    out += [('long', p) for p in list(PRIMS) + ['bytes']]
    out += [('retry', p) for p in list(PRIMS) + ['bytes']]
    out += [('seq', p, depth) for p in PRIMS] + [('seq', 'bytes', depth)]
    if tier == 'thorough':
        out += [('halves', p, i) for p in ('int', 'unsigned_int', 'float', 'long', 'uint64', 'double')
                for i in range(4)]
    return out


def rep(v):
    return struct.pack('>d', v) if isinstance(v, float) else v


def write(p, v):
    b = io.BytesIO()
    getattr(DataOutputStream(b), 'write_' + p)(v)
    return b.getvalue()


def one(p, v, R, trunc=True):
    enc, _, width, _ = PRIMS[p]
    want = enc(v)
    R.transitions += 2
    R.traces += 1
    got = write(p, v)
    if got != want:
        R.bad(f'write_{p}', f'write_{p}({v!r}) emits {got[:20].hex()}, not {want[:20].hex()}', value=repr(v)[:99])
    for pre in (b'', b'\x80\x01\xff'):
        st = io.BytesIO(pre + want + b'\xa7\x13')
        st.seek(len(pre))
        x = getattr(DataInputStream(st), 'read_' + p)()
        if rep(x) != rep(v) or type(x) is not type(v):
            R.bad(f'read_{p}', f'read_{p} of {want[:20].hex()} gives {x!r:.80}, not {v!r:.80}')
        if st.tell() != len(pre) + len(want):
            R.bad(f'read_{p} width', f'consumed {st.tell() - len(pre)} of {len(want)} octets')


def short(p, want, R):
    for n in range(min(len(want), 12)):
        R.traces += 1
        R.transitions += 1
        try:
            x = getattr(DataInputStream(io.BytesIO(want[:n])), 'read_' + p)()
        except Exception:
            continue
        R.bad(f'read_{p} short', f'{n} of {len(want)} octets give {x!r:.80}')


LIMITS = {'byte': (-129, 128), 'int8': (-129, 128), 'unsigned_byte': (-1, 256), 'uint8': (-1, 256),
          'short': (-32769, 32768), 'int16': (-32769, 32768), 'unsigned_short': (-1, 65536),
          'uint16': (-1, 65536), 'int': (-2**31 - 1, 2**31), 'int32': (-2**31 - 1, 2**31),
          'unsigned_int': (-1, 2**32), 'uint32': (-1, 2**32), 'long': (-2**63 - 1, 2**63),
          'int64': (-2**63 - 1, 2**63), 'uint64': (-1, 2**64), 'char': ('\U00010000', '\U0010ffff'),
          'char8': ('\u0100', '\uffff'), 'utf': (b'x' * 65536, b'y' * 65537)}


def run(u, R):
    kind, p = u[:2]
    if kind == 'values':
        for v in PRIMS[p][1]:
            R.state((p, rep(v)))
            one(p, v, R)
        for v in PRIMS[p][1][:3] + PRIMS[p][1][-3:]:
            short(p, PRIMS[p][0](v), R)
        for v in LIMITS.get(p, ()):
            R.traces += 1
            try:
                b = write(p, v)
            except Exception:
                continue
            R.bad(f'write_{p} range', f'write_{p}({v!r:.60}) emits {b[:12].hex()}')
        R.sample(dict(primitive=p, values=len(PRIMS[p][1]), last=repr(PRIMS[p][1][-1])[:60]))
    elif kind == 'bytes':
        data = bytes(i * 7 & 255 for i in range(70000))
        for n in list(range(301)) + [4095, 4096, 65535, 65536, 70000]:
            R.state(n)
            R.traces += 1
            R.transitions += 2
            if write('bytes', data[:n]) != data[:n]:
                R.bad('write_bytes', f'{n} octets are not written verbatim')
            st = io.BytesIO(data)
            st.seek(3)
            if n <= len(data) - 3:
                if DataInputStream(st).read_bytes(n) != data[3:3 + n] or st.tell() != 3 + n:
                    R.bad('read_bytes', f'{n} octets are not read verbatim')
            for k in {0, n - 1, n // 2}:
                if 0 <= k < n:
                    try:
                        x = DataInputStream(io.BytesIO(data[:k])).read_bytes(n)
                    except Exception:
                        continue
                    R.bad('read_bytes short', f'{k} of {n} octets give {len(x)} octets')
        R.sample(dict(lengths='0..300, 4095, 4096, 65535, 65536, 70000'))
    elif kind == 'long':
        lengthy(p, R)
    elif kind == 'retry':
        retry(p, R)
    elif kind == 'halves':
        enc, _, w, k = PRIMS[p]
        fmt = {'int': '>i', 'unsigned_int': '>I', 'float': '>f', 'long': '>q', 'uint64': '>Q', 'double': '>d'}[p]
        for x in range(u[2], 65536, 4):
            for s in (0, 8 * w - 16):
                b = (x << s).to_bytes(w, 'big')
                v = struct.unpack(fmt, b)[0]
                if v != v:
                    continue
                R.state((s, x))
                one(p, v, R)
    else:
        sequences(p, u[2], R)


def retry(p, R):
    """A read that fails for want of octets, or a write of what does not fit,
    and then any other primitive, on the same stream."""
    ls = letters()
    get = lambda s, q, v: s.read_bytes(len(v)) if q == 'bytes' else getattr(s, 'read_' + q)()
    for q, v, e in [l for l in ls if l[0] == p]:
        for n in range(len(e)):
            for x in ls:
                for y in (None, ls[0], ls[5]):
                    R.state((v, n, x[:2], y and y[:2]))
                    R.traces += 1
                    R.transitions += 3
                    st = io.BytesIO(e[:n])
                    i = DataInputStream(st)
                    try:
                        get(i, q, v)
                    except Exception:
                        pass
                    st.seek(0)
                    st.write(x[2] + (y[2] if y else b''))
                    st.truncate()
                    st.seek(0)
                    for r in (x, y) if y else (x,):
                        got = get(i, r[0], r[1])
                        if rep(got) != rep(r[1]):
                            R.bad(f'read after a failed read_{p}', f'read_{q} with {n} of {len(e)} octets, then read_{r[0]} of {r[2].hex()} gives {got!r}')
                    if st.read(1):
                        R.bad(f'read after a failed read_{p}', f'read_{q} with {n} of {len(e)} octets, then read_{x[0]} leaves octets unread')
    for bad in LIMITS.get(p, ()):
        for x in ls:
            R.state((str(bad)[:40], x[:2]))
            R.traces += 1
            R.transitions += 2
            st = io.BytesIO()
            o = DataOutputStream(st)
            try:
                getattr(o, 'write_' + p)(bad)
            except Exception:
                pass
            n = st.tell()
            getattr(o, 'write_' + x[0])(x[1])
            if st.getvalue()[n:] != x[2]:
                R.bad(f'write after a failed write_{p}', f'write_{x[0]}({x[1]!r}) emits {st.getvalue()[n:].hex()}')
    R.sample(dict(primitive=p, letters=len(ls)))


def lengthy(p, R):
    """One stream of more than 70000 octets made of a primitive and each of the
    others in turn, after prefixes that shift it; two streams in turn."""
    ls = letters()
    mine = [l for l in ls if l[0] == p]
    for shift in range(9):
        seq, n, i = [], 0, 0
        while n < 70000 + shift:
            if i % 3 == 2 or n < shift:
                seq.append(('bytes', b'\x5c', b'\x5c') if n < shift else ls[i % len(ls)])
            else:
                seq.append(mine[i % len(mine)])
            n += max(1, len(seq[-1][2]))
            i += 1
        bufs = io.BytesIO(), io.BytesIO()
        outs = [DataOutputStream(b) for b in bufs]
        for q, v, e in seq:
            for o in outs:
                getattr(o, 'write_' + q)(v)
        want = b''.join(e for _, _, e in seq)
        R.nstates += 1
        R.traces += 1
        R.transitions += 4 * len(seq)
        for b in bufs:
            if b.getvalue() != want:
                k = next((k for k, (x, y) in enumerate(zip(b.getvalue(), want)) if x != y), min(len(want), len(b.getvalue())))
                R.bad(f'long {p} write', f'a stream of {len(want)} octets is wrong from octet {k}')
        ins = [DataInputStream(io.BytesIO(want)) for _ in '12']
        for k, (q, v, e) in enumerate(seq):
            for s in ins:
                x = s.read_bytes(len(v)) if q == 'bytes' else getattr(s, 'read_' + q)()
                if rep(x) != rep(v):
                    R.bad(f'long {p} read', f'read_{q} number {k} gives {x!r}, not {v!r}')
            if R.viol:
                return
    R.sample(dict(primitive=p, octets=len(want)))


def letters():
    out = []
    for p, (enc, vals, w, k) in PRIMS.items():
        a = {'int': [vals[-1], vals[len(vals) // 3]], 'float': [-1.5, 3.0], 'bool': [True, False],
             'str': [chr(0xe9), chr(0x80)], 'bytes': [b'', b'\x01\x02\xff']}[k]
        for v in a:
            out.append((p, v, enc(v)))
    out += [('bytes', b'\x00', b'\x00'), ('bytes', b'\xfe\xdc\xba', b'\xfe\xdc\xba')]
    return out


def sequences(first, depth, R):
    ls = letters()
    if depth == 4:
        ls = ls[::2]
    for a in [l for l in ls if l[0] == first]:
        for rest in itertools.product(ls, repeat=depth - 1):
            seq = (a,) + rest
            buf = io.BytesIO()
            o = DataOutputStream(buf)
            for p, v, e in seq:
                getattr(o, 'write_' + p)(v)
            data = buf.getvalue()
            R.nstates += 1
            R.traces += 1
            R.transitions += 2 * depth
            want = b''.join(e for _, _, e in seq)
            if data != want:
                R.bad('sequence write', f'{[(p, v) for p, v, _ in seq]!r} emits {data.hex()}, not {want.hex()}')
            st = io.BytesIO(want)
            i = DataInputStream(st)
            for p, v, e in seq:
                x = i.read_bytes(len(v)) if p == 'bytes' else getattr(i, 'read_' + p)()
                if rep(x) != rep(v):
                    R.bad('sequence read', f'{[(p, v) for p, v, _ in seq]!r}: read_{p} gives {x!r}')
            if st.read(1):
                R.bad('sequence end', f'{[(p, v) for p, v, _ in seq]!r} leaves octets unread')
    R.sample(dict(first=first, depth=depth, alphabet=len(ls)))
