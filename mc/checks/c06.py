"""C06 every proper prefix of an encoding is refused."""
import tempfile
from mc.cases import *

LEVEL = 'fault_enumeration'
RULE = ('every proper prefix, octet by octet, of every enumerated message or record; '
        'non-trivial: a distinct prefix that still contains the type octet of a message '
        '(or is not empty, for records)')
BOUNDS = {'quick': 'every PDU and record class x 3 baselines x list shapes (0..3 per list, at most 60) and longer lists, cut at every octet; one baseline with each leaf in turn at its least and greatest value and at the numbers in the methods of the class, cut at every octet; the contents of C01 (leaf alphabets, literal pairs, list lengths, inner list lengths, payload patterns) cut at the last octet and at one of the eight before, long ones also around powers of two; cut files; fields and list lengths that conditions of the source look at, assigned jointly',
          'thorough': 'list shapes 0..4 per list (at most 300), each leaf at five values, cut at every octet; cut files'}


def tasks(tier):
    out = []
    for name in list(SPECS):
        for mode in ('zero', 'dist', 'max'):
            out.append((name, 'leaves', mode, tier)) if mode == 'dist' or tier == 'thorough' else None
            if mode == 'dist':
                out += [(name, 'ends', x) for x in units([name], tier, pairs=False) if x[1] in ('leaf', 'lits', 'lens', 'guards', 'fill', 'inner') and
                        (x[1] in ('lens', 'fill', 'inner') or x[2] == 'dist')]
            parts = 1 if tier == 'quick' or not SPECS[name].lists() else 12
            for p in range(parts):
                out.append((name, 'cut', mode, p, parts, tier))
    big = {'DirectedEnergyFirePdu', 'TransmitterPdu', 'AggregateStatePdu', 'EntityDamageStatusPdu'}
    out.sort(key=lambda u: u[0] not in big)
    return out


def some_shapes(name, tier):
    limit = 60 if tier == 'quick' else 300
    out = shapes(name, 3 if tier == 'quick' else 4, limit)
    out = [s for s in out if max(s.top.values(), default=0) <= 4]
    if name == 'TransmitterPdu' and tier == 'quick':
        out = [Shape(dflt=n, c=1, opt=o) for o in range(len(OPTS) - 1) for n in (0, 2)]
    return out + main_shapes(name) + ([Shape(dflt=5)] if SPECS[name].lists() else [])


def accept(name, data, full):
    """What decoding the prefix returned, or REFUSED."""
    try:
        if name in DISPATCHED:
            return PduFactory.createPdu(data)
        if name in LENGTH_ARG:
            o = new(name)
            o.parse(instream(data), len(full))
            return o
        return parse_new(name, data)[0]
    except Exception:
        return REFUSED


REFUSED = object()


def holder(name, v, leaf):
    """Numbers in the methods of the record the leaf belongs to."""
    for p in leaf.path[:-1]:
        v = v[p]
        if isinstance(v, dict) and v['#'] in SPECS:
            name = v['#']
    return own_literals(name)


def leaves(u, R):
    name, _, mode, tier = u
    n = 0
    for sh in main_shapes(name):
        v = gen(name, mode, sh)
        b, ls = leaves_of(v)
        if len(b) > 3000:
            continue
        for leaf in ls:
            a = list(alphabet(leaf, True))
            a = [a[0], a[-1]] if tier == 'quick' else a
            a += [x for x in literal_values(holder(name, v, leaf), leaf) if x not in a]
            for x in a:
                m = patch(b, leaf, x)
                n += 1
                if accept(name, m, m) in (REFUSED, None):
                    R.bad(f'{name} whole', 'the complete encoding is refused', octets=m)
                    continue
                for k in range(len(m)):
                    R.evaluations += 1
                    R.transitions += 1
                    if k > 2:
                        R.nstates += 1
                    o = accept(name, m[:k], m)
                    if o is not REFUSED:
                        R.bad(f'{name} prefix', f'{k} of {len(m)} octets are accepted as {type(o).__name__}',
                              octets=m, cut=k)
                        break
    R.sample(dict(unit=u, messages=n))


def ends(u, R):
    """Messages of every content cut near their end and at a few other places,
    long ones around every 64 octets of the last 600 and powers of two."""
    used = {}
    n = 0
    name, kind = u[:2]
    for v, b, devs in cases(u):
        for leaf, x in devs:
            b = patch(b, leaf, x)
        n += 1
        size = len(b)
        cuts = {size - 1, size - 1 - n % 8}
        if kind in ('lens', 'inner'):
            cuts |= {size - 2, size - 3, size - 4, size - 8, size // 2, size - size // 4}
            cuts |= {size - 64 * k - 1 for k in range(10)} | {(1 << k) + d for k in range(4, 17) for d in (-1, 0, 1)}
        for k in cuts:
            if not (2 if name in DISPATCHED else 0) < k < size:
                continue
            R.evaluations += 1
            R.transitions += 1
            R.nstates += 1
            o = accept(name, b[:k], b)
            if o is not REFUSED:
                R.bad(f'{name} prefix', f'{k} of {size} octets are accepted as {type(o).__name__}', octets=b[:4000], cut=k)
            # into an object that holds something already
            if k == size - 1 and name not in LENGTH_ARG and SPECS[name].svr is None and n % 4 == 0:
                o = used.get(name) or build(gen(name, 'max', Shape(dflt=1, inner=1)))
                used[name] = o
                R.evaluations += 1
                R.transitions += 1
                try:
                    o.parse(instream(b[:k]))
                except Exception:
                    continue
                R.bad(f'{name} prefix into a used object', f'{k} of {size} octets are accepted', octets=b[:4000], cut=k)
    R.sample(dict(unit=u, messages=n))


def run(u, R):
    if u[1] == 'ends':
        return ends(u[2], R)
    if u[1] == 'leaves':
        return leaves(u, R)
    name, _, mode, p, parts, tier = u
    done = set()
    for sh in some_shapes(name, tier)[p::parts]:
        v = gen(name, mode, sh)
        b = encode(v)
        if b in done or len(b) > 3000:
            continue
        done.add(b)
        if accept(name, b, b) in (REFUSED, None):
            R.bad(f'{name} whole', 'the complete encoding is refused', octets=b)
            continue
        for n in range(len(b)):
            R.evaluations += 1
            if n >= (3 if name in DISPATCHED else 1):
                R.state(b[:n])
            o = accept(name, b[:n], b)
            R.transitions += 1
            if o is not REFUSED:
                R.bad(f'{name} prefix', f'{n} of {len(b)} octets are accepted as {type(o).__name__}',
                      octets=b, cut=n)
        if name in DISPATCHED and (tier == 'thorough' or sh is main_shapes(name)[0] or len(done) == 1):
            with tempfile.TemporaryDirectory() as d:
                f = os.path.join(d, 'm')
                for n in {0, 1, 2, 3, 11, 12, 13, len(b) // 2, len(b) - 8, len(b) - 4, len(b) - 1}:
                    if not 0 <= n < len(b):
                        continue
                    open(f, 'wb').write(b[:n])
                    R.evaluations += 1
                    try:
                        o = PduFactory.createPduFromFilePath(f)
                    except Exception:
                        continue
                    R.bad(f'{name} truncated file', f'{n} of {len(b)} octets are accepted as {o!r}',
                          octets=b, cut=n)
    R.sample(dict(unit=u, longest=max(map(len, done), default=0), messages=len(done)))
