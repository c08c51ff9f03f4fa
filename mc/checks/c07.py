"""C07 objects are isolated and coding has no memory."""
from mc.cases import *
from mc.checks import c05

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every PDU and record class: all sequences of up to 3 operations {construct, mutate everything in place, encode twice, decode one of four messages, decode one of them into the object, failed decode into} over two objects, up to renaming of the objects; all ordered pairs of classes (decode, failed decode, failed encode, mutate of the one before the other); every leaf over its alphabet and the literal pairs of C01 decoded into two objects one of which is changed; every cut of a failed parse followed by a full one; the stream failing at each read and each write, and used again when it works or has all the octets; 600 to 6000 objects decoded and kept in an order no shift maps to itself; every object encoded, given a value of another size in place and encoded again; fields and list lengths that conditions of the source look at, assigned jointly',
          'thorough': 'sequences up to 4; all ordered pairs with four messages each'}
ASSUMPTIONS = ['lists passed as constructor arguments are owned by the new object (not claimed)']


def tasks(tier):
    out = []
    for n in SPECS:
        out.append((n, 'seq', 3 + (tier == 'thorough')))
        out.append((n, 'reparse', tier))
        out.append((n, 'faults', tier))
        out.append((n, 'morph', tier))
        out.append((n, 'kept', tier))
    out += [(u[0], 'values', u) for u in units(list(SPECS), tier, pairs=False)
            if u[1] == 'lits' and (u[0] not in TWICE or tier == 'thorough') or u[1] == 'guards' and (u[2] == 'dist' or tier == 'thorough') or u[1] == 'leaf' and (u[2] == 'dist' and u[3] == 0 or tier == 'thorough')]
    out.append(('all', 'kept', tier))
    names = list(SPECS)
    for i in range(0, len(names), 6):
        out.append(('cross', i, i + 6, tier))
    big = {'DirectedEnergyFirePdu', 'TransmitterPdu', 'AggregateStatePdu', 'EntityDamageStatusPdu'}
    out.sort(key=lambda u: (u[1] != 'seq', u[0] not in big, u[0] not in PDUS))
    return out


# their records are those of the directed energy fire message
TWICE = ('EntityDamageStatusPdu', 'StandardVariableSpecification')


def fresh(name):
    o = new(name)
    if name == 'EnvironmentGeneral':
        o.geometry = 0
    return o


def into(name, o, data):
    if SPECS[name].svr is not None:
        st = io.BytesIO(data[6:])
        o.parse(DataInputStream(st), len(data))
        return st.tell() + 6
    return parse_into(o, data)


def decode_new(name, data):
    if name in DISPATCHED:
        return PduFactory.createPdu(data)
    return parse_new(name, data)[0]


def other(typ, x):
    a = FEW[typ]
    return a[(a.index(x) + 1) % len(a)] if x in a else a[-1]


def mutate(v, o):
    """Change every leaf and every list of the object in place; the new value."""
    if v['#'] == USVR:
        o.data = bytes(len(v['data']))[:-1] + b'\x09'
        return dict(v, data=o.data)
    v = dict(v)
    frozen = v['#'] == 'TransmitterPdu' and (v['modulationParameters'] or v['antennaPattern'])
    for f in SPECS[v['#']].fields:
        k, a = f.kind, f.attr
        if k == 'sc' and not (frozen and a == 'antennaPatternType'):
            v[a] = other(f.typ, v[a])
            setattr(o, a, tofield(f.typ, v[a]))
        elif k == 'rec':
            if frozen and a == 'modulationType':
                x = dict(v[a], detail=other('u16', v[a]['detail']))
                o.modulationType.detail = x['detail']
                v[a] = x
            else:
                v[a] = mutate(v[a], getattr(o, a))
        elif k == 'arr':
            lst = getattr(o, a)
            v[a] = [other(f.typ, x) for x in v[a]]
            for i, x in enumerate(v[a]):
                lst[i] = tofield(f.typ, x)
        elif k in ('bytes', 'list', 'svr'):
            lst = getattr(o, a)
            if k == 'bytes' or f.typ in SCALAR:
                v[a] = [other(f.typ or 'u8', x) for x in v[a]]
                for i, x in enumerate(v[a]):
                    lst[i] = x
            else:
                v[a] = [mutate(x, y) for x, y in zip(v[a], lst)]
            e = c05.element(f, len(v[a]))
            v[a] = v[a] + [e]
            lst.append(c05.real(f, e))
        elif k == 'raw':
            v[a] = b'\x09' + v[a][1:] if v[a] else b''
            setattr(o, a, v[a])
        elif k == 'opt':
            if v[a] is not None:
                v[a] = mutate(v[a], getattr(o, a))
        elif k == 'bits':
            for b, n in f.extra:
                if b is not None:
                    v[b] = (v[b] + 1) % (1 << n)
                    setattr(o, b, v[b])
        elif k == 'vdata':
            lst = getattr(o, a)
            if v[a]:
                v[a] = [v[a][0] ^ 0x55] + v[a][1:]
                lst[0] = v[a][0]
    return v


def messages(name):
    """Four values of the class, as different in shape as possible."""
    out = [gen(name, 'dist', Shape(dflt=2, c=1, opt=3)), gen(name, 'max', Shape(dflt=1, c=2, inner=1, opt=1)),
           gen(name, 'zero', Shape(dflt=0)), gen(name, 'zero', Shape(dflt=2, inner=1, opt=2))]
    if name in LENGTH_ARG or name in ('UnknownRadio', 'UnknownAntennaPattern'):
        out = [gen(name, m, Shape(dflt=d)) for m, d in (('dist', 8), ('max', 8), ('zero', 16), ('zero', 8))]
    if SPECS[name].svr is not None:
        out[2] = gen(name, 'zero', Shape(dflt=1))
    return out


SLOT_OPS = ['mut', 'enc', 'into0', 'into1', 'into2', 'into3', 'dec0', 'dec1', 'dec2', 'dec3', 'new', 'fail']


def run_seq(name, seq, D, msgs, R):
    """Execute a sequence; None, or (step, message) of the first disagreement
    after the last step."""
    objs = [fresh(name), fresh(name)]
    vals = [D, D]
    for s, op in seq:
        R.transitions += 1
        if op == 'mut':
            if vals[s] is None:
                return None
            vals[s] = mutate(vals[s], objs[s])
        elif op == 'enc':
            if vals[s] is None:
                return None
            want = encode(vals[s])
            a, b = ser(objs[s]), ser(objs[s])
            if a != want or b != want:
                return 'encoding: ' + (bdiff(a, want) or 'second time ' + bdiff(b, want))
        elif op[:-1] == 'into':
            v, b = msgs[int(op[-1])]
            n = into(name, objs[s], b)
            if n != len(b):
                return f'decoding into an object consumed {n} of {len(b)} octets'
            vals[s] = v
        elif op[:-1] == 'dec':
            v, b = msgs[int(op[-1])]
            objs[s] = decode_new(name, b)
            vals[s] = v
        elif op == 'new':
            objs[s], vals[s] = fresh(name), D
        elif op == 'fail':
            b = msgs[0][1]
            if len(b) < 8 or name in LENGTH_ARG:
                return None
            try:
                into(name, objs[s], b[:len(b) - 1])
            except Exception:
                pass
            vals[s] = None
    for s in (0, 1):
        if vals[s] is not None:
            got = read(objs[s])
            if got != vals[s]:
                return f'object {s}: ' + str(diff(got, vals[s]))
    return None


def run(u, R):
    name = u[0]
    if name == 'cross':
        return cross(u, R)
    if u[1] == 'values':
        return values(u[2], R)
    if u[1] == 'kept':
        return kept(u, R)
    if u[1] == 'morph':
        return morph(name, R)
    D = read(fresh(name))
    msgs = [(v, encode(v)) for v in messages(name)]
    if u[1] == 'faults':
        return faults(name, D, msgs, R)
    if u[1] == 'reparse':
        return reparse(name, D, msgs, u[2], R)
    depth = u[2]
    ops = [(s, op) for s in (0, 1) for op in SLOT_OPS]
    for d in range(1, depth + 1):
        for seq in itertools.product(ops, repeat=d):
            if seq[0][0] != 0:        # the two objects are interchangeable
                break
            R.traces += 1
            R.state(seq)
            e = run_seq(name, seq, D, msgs, R)
            if e:
                R.bad(f'{name} sequence', f'after {seq}: {e}', sequence=seq)
    if read(fresh(name)) != D:
        R.bad(f'{name} default', 'a new object is not as the first one was: '
              + str(diff(read(fresh(name)), D)))
    R.sample(dict(unit=u, last=seq))


def kept(u, R):
    """Many objects decoded and kept: each still reads and encodes as it did
    when it was new, and so does what was made before them."""
    name, _, tier = u
    names = PDUS + RECORDS if name == 'all' else [name]
    msgs = []
    for n in names:
        ms = messages(n)
        if name == 'all':
            ms = ms[:1]
        else:
            ms = [ms[0], ms[2]]
        msgs += [(n, v, encode(v)) for v in ms]
    n = (6000 if name == 'all' else 1100 if len(msgs[0][2]) < 300 else 600) * (10 if tier == 'thorough' else 1)
    made = [(build(v), v, b) for _, v, b in msgs]
    objs = []
    # an order that no shift maps to itself
    order = [(i.bit_count() + i * i // 5 * (len(msgs) > 2)) % len(msgs) for i in range(n)]
    for i in range(n):
        c, v, b = msgs[order[i]]
        o = decode_new(c, b)
        R.transitions += 1
        if i % 3 == 0 and ser(o) != b:
            R.bad(f'{name} kept', f'message {i} encodes differently right after it has been decoded')
        objs.append(o)
    R.nstates += n
    for i, o in enumerate(objs):
        c, v, b = msgs[order[i]]
        R.traces += 1
        R.transitions += 1
        got = read(o)
        if got != v:
            R.bad(f'{c} kept', f'object {i} of {n} kept has changed: ' + str(diff(got, v)))
            break
        if (i < 300 or i > n - 300) and ser(o) != b:
            R.bad(f'{c} kept encode', f'object {i} of {n} kept encodes differently')
            break
    for o, v, b in made:
        R.transitions += 1
        if read(o) != v or ser(o) != b:
            R.bad(f"{v['#']} made", 'an object made before has changed: ' + str(diff(read(o), v)))
    # one object encoded again and again, and decoded into again and again
    for c, v, b in msgs:
        o = build(v)
        for i in range(2 if name == 'all' else n // 4):
            R.transitions += 1
            if ser(o) != b:
                R.bad(f'{c} repeated', f'encoding {i} of the same object differs')
                break
        if read(o) != v:
            R.bad(f'{c} repeated', 'many encodings have changed the object: ' + str(diff(read(o), v)))
    R.sample(dict(unit=u, objects=n))


def sizes(name):
    """Values of the class that differ in the size of one part: one list or
    one payload at a time, and every list together."""
    base = gen(name, 'dist', payload_shapes(name)[0])
    out = [base]
    for f in listfields(name):
        for n in (0, 1, 2, 3, 9):
            top = {g.attr: payload_shapes(name)[0].dflt for g in listfields(name)}
            top[f.attr] = n
            out.append(gen(name, 'dist', Shape(top, c=payload_shapes(name)[0].c, opt=payload_shapes(name)[0].opt)))
    for site in payloads(base):
        for n in (0, 1, 8, 10, 18, 26, 65, 130) if site[2] != 'arr' else ():
            w = refill(base, site, n, lambda i, k: 29 * i + 5)
            if w is not None:
                out.append(w)
    return out + messages(name)


def remake(o, v, family=None):
    """Give an existing object the value v, keeping the objects inside it where
    they are of the right class."""
    if v['#'] == USVR:
        o.data = v['data']
        return
    for f in SPECS[v['#']].fields:
        k, a = f.kind, f.attr
        if k == 'rec':
            remake(getattr(o, a), v[a])
        elif k == 'arr':
            getattr(o, a)[:] = list(v[a])
        elif k in ('list', 'svr') and f.typ not in SCALAR:
            lst = getattr(o, a)
            for i, x in enumerate(v[a]):
                if i >= len(lst):
                    lst.append(build(x, f.typ) if k == 'svr' else build(x))
                elif type(lst[i]).__name__ == x['#'] and (x['#'] != USVR or lst[i].recordType == x['recordType']):
                    remake(lst[i], x)
                else:
                    lst[i] = build(x, f.typ) if k == 'svr' else build(x)
            del lst[len(v[a]):]
        elif k in ('list', 'bytes', 'vdata'):
            getattr(o, a)[:] = list(v[a])
        elif k == 'sc':
            setattr(o, a, tofield(f.typ, v[a]))
        elif k in ('raw', 'vlen'):
            setattr(o, a, v[a])
        elif k == 'opt':
            old = getattr(o, a)
            if old is not None and v[a] is not None and type(old).__name__ == v[a]['#']:
                remake(old, v[a])
            else:
                setattr(o, a, None if v[a] is None else build(v[a]))
        elif k == 'bits':
            for b, n in f.extra:
                if b is not None:
                    setattr(o, b, v[b])


def morph(name, R):
    """An object that has been encoded, decoded or measured is given another
    value in place: it encodes as a new object with that value."""
    vs = sizes(name)
    data = [encode(v) for v in vs]
    cap = 60
    pairs = [(0, j) for j in range(len(vs))] + [(j, 0) for j in range(len(vs))] + [(j, j + 1) for j in range(len(vs) - 1)]
    pairs += [p for p in itertools.permutations(range(min(len(vs), cap // 4)), 2)]
    for i, j in dict.fromkeys(pairs):
        for made in (0, 1):
            R.state((i, j, made))
            R.traces += 1
            R.transitions += 4
            if made:
                if name == 'EnvironmentGeneral':
                    continue
                o = decode_new(name, data[i])
            else:
                o = build(vs[i])
            ser(o)
            measure(o)
            remake(o, vs[j])
            b, c = ser(o), ser(o)
            if b != data[j] or c != data[j]:
                R.bad(f'{name} changed in place', 'an object encoded before and changed then encodes as '
                      + (bdiff(b, data[j]) or 'second time ' + bdiff(c, data[j])), before=data[i], expected=data[j])
            elif read(o) != vs[j]:
                R.bad(f'{name} changed in place value', str(diff(read(o), vs[j])))
            n = measure(o)
            if n is not None and n != len(b):
                R.bad(f'{name} changed in place size', f'marshalledSize() is {n} of an object changed in place that has {len(b)} octets')
    R.sample(dict(cls=name, values=len(vs)))


def measure(o):
    f = getattr(o, 'marshalledSize', None)
    return f() if f else None


class Broken(io.BytesIO):
    """A stream whose k-th read or write fails (a write after taking part of
    the octets)."""

    def __init__(self, k, data=b''):
        super().__init__(data)
        self.k = k

    def tick(self):
        self.k -= 1
        if self.k < 0:
            raise OSError('injected')

    def mend(self, data=b''):
        self.k = 1 << 60
        self.seek(0)
        self.truncate()
        super().write(data)
        self.seek(0)

    def write(self, b):
        if self.k == 0:
            super().write(b[:len(b) // 2])
        self.tick()
        return super().write(b)

    def read(self, *a):
        self.tick()
        return super().read(*a)


def faults(name, D, msgs, R):
    """A stream that fails at each of its reads and writes in turn."""
    for i, (v, b) in enumerate(msgs):
        o = build(v)
        for k in itertools.count():
            R.state((i, k))
            R.traces += 1
            R.transitions += 3
            st = Broken(k)
            out = DataOutputStream(st)
            try:
                o.serialize(out)
            except OSError:
                pass
            else:
                break
            st.mend()
            o.serialize(out)
            if st.getvalue() != b:
                R.bad(f'{name} encode on a mended stream', f'write {k} failed, then on the same stream: ' + bdiff(st.getvalue(), b))
            if read(o) != v:
                R.bad(f'{name} failed encode', f'changed by an encoding that fails at write {k}: ' + str(diff(read(o), v)))
                o = build(v)
            a, c = ser(o), ser(build(v))
            if a != b or c != b:
                R.bad(f'{name} after a failed encode', f'write {k} failed, then: ' + (bdiff(a, b) or 'another object ' + bdiff(c, b)))
        if name in LENGTH_ARG or SPECS[name].svr is not None:
            continue
        o = build(msgs[i - 1][0])
        for k in itertools.count():
            R.state((i, k, 'read'))
            R.traces += 1
            R.transitions += 3
            ok = True
            for q in (o, fresh(name)):
                st = Broken(k, b)
                ins = DataInputStream(st)
                try:
                    q.parse(ins)
                except OSError:
                    ok = False
                    st.mend(b)
                    q = fresh(name)
                    q.parse(ins)
                    if read(q) != v or st.tell() != len(b):
                        R.bad(f'{name} decode from a mended stream', f'read {k} failed, then from the same stream: ' + str(diff(read(q), v)))
            if ok:
                break
            got = read(decode_new(name, b))
            if got != v:
                R.bad(f'{name} after a failed decode', f'read {k} failed, then: ' + str(diff(got, v)))
            if parse_into(o, b) != len(b) or read(o) != v:
                R.bad(f'{name} into after a failed decode', f'read {k} failed, then: ' + str(diff(read(o), v)))
        if read(fresh(name)) != D:
            R.bad(f'{name} default after failures', str(diff(read(fresh(name)), D)))
    R.sample(dict(cls=name, reads=k))


def values(u, R):
    """The same octets decoded into two objects: changing one leaves the other,
    and what a third decoding gives, as they are."""
    name = u[0]
    base = Base()
    for v0, b0, devs in cases(u):
        v, b = expected(v0, b0, devs)
        key = where(name, v, devs, u) + ' '
        R.state(b)
        R.traces += 1
        R.transitions += 6
        x, y = decode_new(name, b), decode_new(name, b)
        w = mutate(v, x)
        got = read(y)
        if got != v:
            R.bad(key + 'shared', 'changed through another object: ' + str(diff(got, v)), octets=b)
            continue
        one, two = ser(y), ser(y)
        if one != b or two != b:
            R.bad(key + 'encode', 'encoding: ' + (bdiff(one, b) or 'second time ' + bdiff(two, b)), octets=b)
        got = read(x)
        if got != w:
            R.bad(key + 'kept', 'not as it was changed: ' + str(diff(got, w)), octets=b)
        got = read(decode_new(name, b))
        if got != v:
            R.bad(key + 'again', 'decoded again: ' + str(diff(got, v)), octets=b)
        if base.octets(v0, devs) != b:
            R.bad(key + 'later encode', 'encoding: ' + bdiff(base.octets(v0, devs), b), octets=b)
    R.sample(dict(unit=u))


def into_stream(o, ins):
    o.parse(ins)
    return o


def reparse(name, D, msgs, tier, R):
    """A parse that fails part-way, then a full one into the same object."""
    if name in LENGTH_ARG:
        return
    for i, (v, b) in enumerate(msgs):
        for j, (w, _) in enumerate(msgs):
            if i == j and tier == 'quick':
                continue
            o = build(w)
            for cut in range(0, len(b)):
                R.state((i, j, cut))
                R.traces += 1
                R.transitions += 2
                try:
                    into(name, o, b[:cut])
                except Exception:
                    pass
                if SPECS[name].svr is None and (tier == 'thorough' or j == (i + 1) % len(msgs)):
                    st = io.BytesIO(b[:cut])
                    ins = DataInputStream(st)
                    for get in ((lambda: PduFactory.getPdu(ins)) if name in DISPATCHED else None, lambda: into_stream(fresh(name), ins)):
                        if get is None:
                            continue
                        st.seek(0)
                        st.truncate(cut)
                        try:
                            get()
                        except Exception:
                            pass
                        st.seek(0)
                        st.write(b)
                        st.seek(0)
                        R.transitions += 2
                        got = get()
                        if read(got) != v or st.tell() != len(b):
                            R.bad(f'{name} stream after a cut', f'a stream that ended at octet {cut} and then goes on: ' + str(diff(read(got), v)), cut=cut, octets=b)
                if into(name, o, b) != len(b) or read(o) != v:
                    R.bad(f'{name} reparse', f'after a parse cut at octet {cut}: '
                          + str(diff(read(o), v)), cut=cut, octets=b)
                    o = build(w)
                elif cut % 8 == 7:
                    o = build(w)


def cross(u, R):
    names = list(SPECS)
    quick = u[3] == 'quick'
    data = {}
    for n in names:
        ms = messages(n)
        data[n] = (read(fresh(n)), [(v, encode(v)) for v in ms])
    for x in names[u[1]:u[2]]:
        D, ms = data[x]
        for y in names:
            E, ns = data[y]
            for i, (v, b) in enumerate(ms if not quick else ms[:2]):
                R.transitions += 4
                o = decode_new(x, b)
                mutate(v, o)
                ser(o)
                if x not in LENGTH_ARG:
                    try:
                        decode_new(x, b[:-2])
                    except Exception:
                        pass
                leaf = next((l for l in leaves_of(v)[1] if l.typ in INT and l.typ != 'b1'), None)
                if leaf:
                    try:
                        q = build(v)
                        setleaf(q, leaf, 2**70)
                        ser(q)
                    except Exception:
                        pass
                w, c = ns[(i + 1) % len(ns)]
                R.state((x, y, i))
                R.traces += 1
                got = read(decode_new(y, c))
                if got != w:
                    R.bad(f'{x} then {y}', f'decoding {y} after coding {x}: ' + str(diff(got, w)),
                          first=b, second=c)
                if ser(build(w)) != c:
                    R.bad(f'{x} then {y} encode', f'encoding {y} after coding {x} differs')
                if read(fresh(y)) != E:
                    R.bad(f'{x} then new {y}', f'a new {y} after coding {x}: '
                          + str(diff(read(fresh(y)), E)))
    R.sample(dict(unit=u, last=(x, y)))
