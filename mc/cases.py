"""Enumeration of messages shared by the codec checks.

A work unit is (class name, kind, ...); cases(unit) yields
    (base value, base octets, deviations)
where deviations is a tuple of (leaf, value) to apply to the base value.
kinds:
  shapes  every list shape of a baseline, no deviation
  leaf    every value of every leaf's alphabet, one leaf at a time
  pairs   every pair of leaves, each over two or more values
  lits    every pair of leaves over the numbers in the methods of the class
  guards  every joint assignment of the fields and list lengths that the
          conditions of one function or class look at (mc/guards.py)
  lens    one list through many lengths
  sweep   all leaves at once through their whole 16-bit range (thorough)
"""
import functools
from mc.spec import *
from mc import guards

BIGLENS = [18, 19, 20, 31, 32, 33, 63, 64, 65, 100, 126, 127, 128, 129, 200, 253, 254, 255]
LONGLENS = [256, 257, 300, 511, 512, 1000]


def main_shape(name):
    s = SPECS[name]
    n = 2
    for f in s.fields:
        if f.kind == 'svr':
            n = len(FAMILY_KNOWN[f.typ]) + 1
    return n


def main_shapes(name):
    n = main_shape(name)
    if name == 'TransmitterPdu':
        return [Shape(dflt=n, c=0, opt=o) for o in range(len(OPTS))]
    return [Shape(dflt=n, c=1 if n == 2 else 0)]


def listfields(name):
    return [f for f in SPECS[name].lists()]


def capacity(name, f):
    """Most elements the count field of a list can express."""
    for c in SPECS[name].fields:
        if c.attr == f.attr and c.kind == 'count':
            return INT[c.typ][2]
        if c.attr == f.attr and c.kind == 'bitlen':
            return INT[c.typ][2] // 8
        if c.attr == f.attr and c.kind == 'ifflen':
            return INT[c.typ][2] - 6
        if c.attr == f.attr and c.kind == 'octlen':
            return INT[c.typ][2] // 8
    return None


def lengths(name, f, tier):
    cap = capacity(name, f)
    small = f.typ in SCALAR or f.kind == 'bytes' or f.kind == 'list' and len(
        encode(gen(f.typ, 'zero', Shape(dflt=1), depth=1))) <= 16
    ls = list(range(256)) if small or tier == 'thorough' else list(range(0, 18)) + BIGLENS
    if f.kind == 'svr' and tier == 'quick':
        ls = list(range(0, 18)) + [63, 64, 127, 128, 255]
    ls += LONGLENS if small or tier == 'thorough' else [256, 257]
    if small:
        ls += [cap - 1, cap] if tier == 'thorough' or f.typ in SCALAR or f.kind == 'bytes' else []
    if tier == 'thorough' and small:
        ls += [2000, 4096, 8191, 8192, 32767, 32768, 65535]
    ls += [int(x) + d for x in METHOD_LITERALS.get(name, ()) if 0 < x <= 1100 and x == int(x) for d in (-1, 0, 1)]
    return sorted({n for n in ls if n <= min(cap, 65535)})


def units(names, tier, pairs=True, lens=True):
    out = []
    for name in names:
        for mode in ('zero', 'dist', 'max'):
            out.append((name, 'shapes', mode, tier))
            for i, sh in enumerate(main_shapes(name)):
                full = mode == 'dist' or tier == 'thorough'
                n = len(leaves_of(gen(name, mode, sh))[1])
                parts = max(1, n // (40 if full else 200))
                for p in range(parts):
                    out.append((name, 'leaf', mode, i, p, parts, tier))
        if pairs:
            for i, sh in enumerate(main_shapes(name)):
                if tier == 'quick' and i > 4:
                    break
                n = len(leaves_of(gen(name, 'dist', sh))[1])
                parts = max(1, n * n // (6000 if tier == 'quick' else 2000))
                for p in range(parts):
                    out.append((name, 'pairs', 'dist', i, p, parts, tier))
        if tier == 'thorough' or payloads(gen(name, 'dist', payload_shapes(name)[0])):
            for p in range(4):
                out.append((name, 'fill', p, 4, tier))
        for i in range(min(2, len(main_shapes(name)))):
            if any(own_literals(c) for _, c in nodes(gen(name, 'dist', main_shapes(name)[i]))):
                for p in range(4):
                    out.append((name, 'lits', 'dist', i, p, 4, tier))
        for mode in ('zero', 'dist', 'max'):
            out.append((name, 'guards', mode, tier))
        if lens:
            for f in listfields(name):
                out.append((name, 'lens', f.attr, tier))
            for i in range(len(guards.innerlists(gen(name, 'dist', inner_shape(name))))):
                out.append((name, 'inner', i, tier))
        n = len(twin_leaves(name, True)[2])
        parts = n // 100 + 1
        for p in range(parts if n else 0):
            out.append((name, 'twins', p, parts, tier))
        if tier == 'thorough':
            for p in range(16):
                out.append((name, 'sweep', p, 16))
    big = {'DirectedEnergyFirePdu', 'TransmitterPdu', 'AggregateStatePdu', 'EntityDamageStatusPdu',
           'StandardVariableSpecification', 'EntityStatePdu', 'DirectedEnergyAreaAimpoint'}
    out.sort(key=lambda u: (u[1] not in ('lens', 'sweep'), u[0] not in big))
    return out


def cases(u):
    name, kind = u[:2]
    if kind == 'shapes':
        limit = 120 if u[3] == 'quick' else 4000
        for sh in shapes(name, 3 if u[3] == 'quick' else 5, limit):
            v = gen(name, u[2], sh)
            yield v, encode(v), ()
    elif kind == 'leaf':
        mode, i, p, parts, tier = u[2:]
        v = gen(name, mode, main_shapes(name)[i])
        b, ls = leaves_of(v)
        few = tier == 'quick' and (mode != 'dist' or i > 0)
        for leaf in ls[p::parts]:
            for x in alphabet(leaf, few):
                yield v, b, ((leaf, x),)
    elif kind == 'pairs':
        mode, i, p, parts, tier = u[2:]
        v = gen(name, mode, main_shapes(name)[i])
        b, ls = leaves_of(v)
        vals = []
        for leaf in ls:
            a = list(alphabet(leaf, True))
            vals.append([a[0], a[-1]] if tier == 'quick' else a)
        for j in range(p, len(ls), parts):
            for k in range(j + 1, len(ls)):
                for x in vals[j]:
                    for y in vals[k]:
                        yield v, b, ((ls[j], x), (ls[k], y))
    elif kind == 'lits':
        mode, i, p, parts, tier = u[2:]
        v = gen(name, mode, main_shapes(name)[i])
        b, ls = leaves_of(v)
        yield v, b, ()
        for at, cls in nodes(v):
            mine = [leaf for leaf in ls if leaf.path[:len(at)] == at]
            vals = [literal_values(own_literals(cls), leaf) for leaf in mine]
            for j in range(p, len(mine), parts):
                for k in range(j + 1, len(mine)):
                    for x in vals[j]:
                        for y in vals[k]:
                            yield v, b, ((mine[j], x), (mine[k], y))
    elif kind == 'guards':
        for sh in main_shapes(name)[:4 if u[3] == 'quick' else None]:
            yield from guards.cases(name, u[2], sh, 1000 if u[3] == 'quick' else 10000)
    elif kind == 'lens':
        f = next(f for f in listfields(name) if f.attr == u[2])
        for n in lengths(name, f, u[3]):
            top = {g.attr: 1 for g in listfields(name)}
            top[f.attr] = n
            v = gen(name, 'dist', Shape(top, c=1, inner=1 if n > 40 else None))
            try:
                b = encode(v)
            except struct.error:
                if SPECS[name].svr is None:
                    raise
                continue            # more than the record's own length can say
            yield v, b, ()
    elif kind == 'inner':
        yield from inner(name, *u[2:])
    elif kind == 'fill':
        yield from fills(name, *u[2:])
    elif kind == 'twins':
        yield from twins(name, *u[2:])
    elif kind == 'sweep':
        p, parts = u[2:]
        v = gen(name, 'dist', main_shapes(name)[0])
        b, ls = leaves_of(v)
        if not ls:
            return
        for k in range(p, 65536, parts):
            yield v, b, tuple((leaf, sweepval(leaf, k, i)) for i, leaf in enumerate(ls))


def inner_shape(name):
    n = main_shape(name)
    return Shape(dflt=n, c=0, inner=1)


def inner(name, i, tier):
    """One list inside a record of the message through many lengths."""
    v = gen(name, 'dist', inner_shape(name))
    at, f = guards.innerlists(v)[i]
    r = get(v, at)
    cap = min(capacity(r['#'], f) or 70000, 70000)
    lens = set(range(0, 41 if tier == 'quick' else 256)) | {63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257}
    for c in {name, r['#']}:
        lens |= {int(x) + d for x in own_literals(c) if 0 < x <= 1100 and x == int(x) for d in (-1, 0, 1)}
    for n in sorted(lens):
        if n > cap:
            break
        w = guards.relist(v, at, f, n)
        try:
            b = encode(w)
        except struct.error:        # more than a length around it can say
            continue
        yield w, b, ()


def payload_shapes(name):
    if name == 'TransmitterPdu':
        return [Shape(dflt=2, c=0, opt=3), Shape(dflt=1, c=1, opt=1)]
    return main_shapes(name)


def fills(name, p, parts, tier):
    """Every payload of a message through lengths and patterns of octets."""
    full = tier == 'thorough'
    k = 0
    for sh in payload_shapes(name):
        v = gen(name, 'dist', sh)
        for site in payloads(v):
            cls = get(v, site[0])['#']
            own = sorted({int(x) for x in (own_literals(cls) if cls != USVR else METHOD_LITERALS.get(USVR, ()))
                          if 0 <= x < 2000 and x == int(x)})[:40]
            ends = sorted({0, 1, 0x20, 0x7f, 0x80, 0xff} | {x for x in own if x < 256} if full or len(own) < 12 else {0, 1, 0x20, 0x7f, 0x80, 0xff})
            bits = site[2] == 'vdata'
            lens = set(range(0, 34)) | {64, 100} | set(own) | {x + 1 for x in own}
            if bits:
                lens = {8 * n for n in lens if n < 101} | set(own)
            for n in sorted(lens) if site[2] != 'arr' else [None]:
                pats = [lambda i, m, c=c: c for c in (range(256) if full or n in (None, 3, 8, 10, 24, 64) else (0, 255))]
                for s in (1, -1, 16):
                    for first in ((0, 1, 65, 128, 240) if not full else range(0, 256, 5)):
                        pats.append(lambda i, m, s=s, first=first: first + s * i)
                for a in ends:
                    for z in ends:
                        pats.append(lambda i, m, a=a, z=z: a if i == 0 else z if i == m - 1 else 0)
                        pats.append(lambda i, m, a=a, z=z: a if i < 2 else z if i > m - 3 else 3 * i)
                k += 1
                if k % parts != p:
                    continue
                done = set()
                for f in pats:
                    w = refill(v, site, n, f)
                    if w is None:
                        continue
                    try:
                        b = encode(w)
                    except struct.error:
                        continue
                    if b not in done:
                        done.add(b)
                        yield w, b, ()


@functools.lru_cache(None)
def own_literals(name):
    """Numbers in the methods of the library class and of those it extends."""
    return sorted({x for c in klass(name).__mro__ for x in METHOD_LITERALS.get(c.__name__, ())})


def nodes(v, at=()):
    """(path, class) of the value and the records inside it; of the elements of
    a list only the first and the last."""
    out = [(at, v['#'])] if v['#'] in SPECS else []
    for a, x in v.items():
        if isinstance(x, dict):
            out += nodes(x, at + (a,))
        elif isinstance(x, list) and x and isinstance(x[0], dict):
            for i in sorted({0, len(x) - 1}):
                out += nodes(x[i], at + (a, i))
    return out


def literal_values(numbers, leaf):
    out = []
    for x in sorted({x + d for x in numbers for d in ((0, 1) if len(numbers) < 9 else (0,))})[-24:]:
        if leaf.typ == 'bit':
            ok = x == int(x) and 0 <= x < 1 << leaf.bits[2]
        elif leaf.typ in INT:
            ok = x == int(x) and INT[leaf.typ][1] <= x <= INT[leaf.typ][2]
        elif leaf.typ == 'f32':
            out.append(fl(struct.unpack('>f', struct.pack('>f', x))[0]))
            continue
        elif leaf.typ == 'f64':
            out.append(fl(float(x)))
            continue
        else:
            ok = False
        if ok:
            out.append(int(x))
    return out


def sweepval(leaf, k, i):
    t = leaf.typ
    x = (k + 257 * i) & 0xffff
    if t == 'bit':
        return x & ((1 << leaf.bits[2]) - 1)
    if t in ('u8', 'b1'):
        return x & INT[t][2]
    if t == 'u16':
        return x
    if t == 'u32':
        return x << 16 | (x * 40503 + i & 0xffff)
    if t == 'i32':
        return (x << 16 | (x * 40503 + i & 0xffff)) - 2**31
    if t == 'u64':
        return x << 48 | x * 0x9E3779B97F & 0xffffffffffff
    if t == 'i64':
        return (x << 48 | x * 0x9E3779B97F & 0xffffffffffff) - 2**63
    if t == 'f32':
        w = x << 16 | (x * 40503 & 0xffff)
        f = struct.unpack('>f', w.to_bytes(4, 'big'))[0]
        return fl(f) if f == f else fl(0.0)
    w = x << 48 | x * 0x9E3779B97F & 0xffffffffffff
    return w.to_bytes(8, 'big')


def expected(v, b, devs):
    for leaf, x in devs:
        v = put(v, leaf.path, x)
        b = patch(b, leaf, x)
    return v, b


class Base:
    """Keeps one real object per base value and applies deviations in place."""

    def __init__(self):
        self.v = None

    def octets(self, v, devs):
        if self.v is not v:
            self.v, self.o = v, build(v)
        try:
            for leaf, x in devs:
                setleaf(self.o, leaf, x)
            return ser(self.o)
        finally:
            for leaf, x in devs:
                setleaf(self.o, leaf, get(v, leaf.path))


def equal(v):
    """The value with all elements of each list of records equal to the first."""
    if isinstance(v, dict):
        return {k: equal(x) for k, x in v.items()}
    if isinstance(v, list) and v and isinstance(v[0], dict):
        return [equal(v[0])] * len(v)
    return v


def twin_leaves(name, long=False):
    v = gen(name, 'dist', Shape(dflt=3, c=2))
    for site in payloads(v) if long else ():
        w = refill(v, site, 192 if site[2] == 'vdata' else 24 - 6 * (site[2] == 'svr'), lambda i, m: 5 * i + 3)
        v = v if w is None else w
    v = equal(v)
    b, ls = leaves_of(v, True)

    def inside(p):
        return any(isinstance(k, int) and isinstance(get(v, p[:i + 1]), dict) for i, k in enumerate(p))
    return v, b, [l for l in ls if inside(l.path)]


def twins(name, p, parts, tier):
    """Lists whose elements are equal but for one value of one of them."""
    for long in (False, True):
        v, b, ls = twin_leaves(name, long)
        yield v, b, ()
        yield from one_off(v, b, ls[p::parts], tier)


def one_off(v, b, ls, tier):
    for leaf in ls:
        old = get(v, leaf.path)
        vals = set(alphabet(leaf, True)) if tier == 'thorough' else set(list(alphabet(leaf, True))[-1:])
        if isinstance(old, int):
            vals.add(old ^ 1)
        elif isinstance(old, float):
            vals |= {old * 2, -old}
        for x in vals - {old}:
            yield v, b, ((leaf, x),)


def related(p, q):
    n = min(len(p), len(q))
    return p[:n] == q[:n]


def aliased(name, tier):
    """(value, [(place, place of the record or list also put there)]): one record
    or list object in two places of a message, in all of one class, and in those
    of the first and last element of a list of three."""
    for sh in [Shape(dflt=3, c=1, opt=o) for o in (range(len(OPTS)) if name == 'TransmitterPdu' else (0,))]:
        v = gen(name, 'dist', sh)
        by = {}

        def walk(x, at):
            if isinstance(x, dict):
                if at:
                    by.setdefault(x['#'] if x['#'] != USVR else (USVR, x['recordType']), []).append(at)
                for f in SPECS[x['#']].fields if x['#'] in SPECS else ():
                    y = x.get(f.attr)
                    if isinstance(y, (dict, list)) and f.kind not in ('arr', 'bytes', 'vdata'):
                        walk(y, at + (f.attr,))
                    elif f.kind in ('arr', 'bytes', 'vdata') and at and y:
                        by.setdefault((x['#'], f.attr, len(y)), []).append(at + (f.attr,))
            elif isinstance(x, list) and x and isinstance(x[0], dict):
                for i, y in enumerate(x):
                    walk(y, at + (i,))
        walk(v, ())
        for places in by.values():
            ps = [(q, p) for i, p in enumerate(places) for q in places[i + 1:] if not related(p, q)]
            for q, p in ps[:400 if tier == 'quick' else None]:
                yield v, [(q, p)]
            if len(places) > 2:
                yield v, [(q, places[0]) for q in places[1:] if not related(q, places[0])]
                yield v, [(q, places[-1]) for q in places[:-1] if not related(q, places[-1])]


def alias(v, same):
    """(value, object) of a message with one object in several places."""
    o = build(v)
    for q, p in same:
        x = o
        for k in p:
            x = x[k] if isinstance(k, int) else getattr(x, k)
        c, k, isl = parent(o, q)
        if isl:
            c[k] = x
        else:
            setlist(c, k, x)
        v = put(v, q, get(v, p))
    return v, o


def morphs(name, tier):
    """(value, object, what was done): payloads of a message changed in place
    again and again, with everything it reports asked for and encoded before."""
    lens = (0, 1, 2, 8, 10, 16, 18, 24, 40) if tier == 'quick' else range(42)
    for sh in payload_shapes(name) + [Shape(dflt=3, c=1, inner=1)]:
        v = gen(name, 'dist', sh)
        sites = payloads(v)
        for site in sites:
            if site[2] == 'arr':
                continue
            for how in ('assigned', 'in place'):
                w, o = v, build(v)
                r = o
                for k in site[0]:
                    r = r[k] if isinstance(k, int) else getattr(r, k)
                done = ()
                for a, b in itertools.product(lens, repeat=2):
                    for n in (a, b):
                        n = 8 * n if site[2] == 'vdata' else n
                        x = refill(w, site, n, lambda i, m: 7 * i + n + 1)
                        if x is None:
                            continue
                        reports(o, w)
                        w = x
                        y = get(w, site[0])[site[1]]
                        if how == 'assigned' or isinstance(y, bytes):
                            setlist(r, site[1], y if isinstance(y, bytes) else list(y))
                        else:
                            getattr(r, site[1])[:] = y
                        if site[2] == 'vdata':
                            r.variableDatumLength = n
                        done = done[-3:] + (n,)
                        try:
                            encode(w)
                        except struct.error:    # more than a length around it can say
                            continue
                        yield w, o, (site, how, done)


def reports(o, v):
    """Asks for everything the object reports about its size, and encodes it."""
    def walk(x, ro):
        if isinstance(x, list):
            for i, y in enumerate(x):
                walk(y, ro[i])
        elif isinstance(x, dict):
            if callable(getattr(ro, 'marshalledSize', None)):
                ro.marshalledSize()
            for f in SPECS[x['#']].fields if x['#'] in SPECS else ():
                if f.prop:
                    getattr(ro, f.prop, None)
                if isinstance(x.get(f.attr), (dict, list)):
                    walk(x[f.attr], getattr(ro, f.attr))
    walk(v, o)
    ser(o)


TAIL = b'\xd3\x07\x01\xff\x00\x80\x01'


def through(u, R, at=0, extra=None):
    """Each message of a unit encoded, decoded out of a stream that stands
    elsewhere and goes on behind it, and encoded again."""
    base = Base()
    name = u[0]
    svr = SPECS[name].svr is not None
    for v0, b0, devs in cases(u):
        v, b = expected(v0, b0, devs)
        R.state(b)
        R.traces += 1
        R.transitions += 3
        key = where(name, v, devs, u)
        got = base.octets(v0, devs)
        if got != b:
            R.bad(key + ' encode', 'encoding differs: ' + bdiff(got, b), octets=b)
            continue
        st = io.BytesIO(b + TAIL)
        if name in DISPATCHED:
            st.seek(at)
            o = PduFactory.getPdu(DataInputStream(st))
        elif svr:
            o = dis7.parseStandardVariableRecord(DataInputStream(st), klass('StandardVariableRecord'))
        else:
            o = new(name)
            o.parse(*[DataInputStream(st)] + [len(b)] * (name in LENGTH_ARG))
        if type(o).__name__ != name:
            R.bad(key + ' class', f'decodes to {type(o).__name__}', octets=b)
            continue
        r = read(o)
        if r != v:
            R.bad(key + ' decode', 'decoded values differ: ' + str(diff(r, v)), octets=b)
        elif st.tell() != len(b):
            R.bad(key + ' consumed', f'{st.tell()} of {len(b)} octets consumed', octets=b)
        else:
            again = ser(o)
            if again != b:
                R.bad(key + ' re-encode', 're-encoding differs: ' + bdiff(again, b), octets=b)
            if extra:
                extra(key, o, v, b, R)


def where(name, v, devs, u):
    """Stable name of the place a case is about."""
    if devs:
        return name + ''.join('.' + '.'.join('[]' if isinstance(p, int) else p for p in l.path)
                              for l, _ in devs[:1])
    return f'{name} {u[1]}'
