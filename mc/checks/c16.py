"""C16 constructor arguments mean the same as assignments."""
import json, math
from mc.cases import *
from mc.checks import c07

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every PDU and record class: every constructor argument alone over its full alphabet (records, lists of 0..3 elements and optional sections from three baselines), all pairs of arguments over all values of the small alphabet and those in the constructor, all arguments together, all but one, and every positional prefix; arguments that one condition of the source looks at in every combination of its numbers, alone and with all others set; list arguments through lengths 0..17 and up to 100, two of them through every pair of lengths 0..6; defaults of a fresh object after an earlier one was mutated',
          'thorough': 'all triples over two values, subsets of the arguments up to 12'}
ASSUMPTIONS = ['the constructor signatures are those recorded in mc/ctors.json (public interface of the library)',
               'arguments that set no field of the message (five classes) are not claimed']
CTORS = json.load(open(os.path.join(HERE, 'ctors.json')))


def fields(name):
    """argument -> (attribute, field, key) in the recorded order."""
    m = {}
    for f in SPECS[name].fields:
        if f in HEADER or f.kind in ('pad', 'const', 'align', 'ptype', 'count', 'bitlen', 'octlen', 'ifflen'):
            continue
        if f.kind == 'bits':
            for a, n in f.extra:
                if a:
                    m[a] = (a, f, n)
        else:
            m[f.ctor] = (f.attr, f, None)
    return [(a,) + m[a] for a in CTORS[name]['fields']]


def own(name):
    """Numbers in the constructor of the class."""
    return [x for x in constants(klass(name).__init__.__code__) if type(x) in (int, float) and x and abs(x) < 1e300] \
        if hasattr(klass(name).__init__, '__code__') else []


def special(name, f, nbits):
    """Values of a field near the numbers in the constructor."""
    out = []
    for x in own(name):
        if f.kind in ('sc', 'vlen') and f.typ in ('f32', 'f64'):
            out.append(fl(float(x)))
        elif f.kind in ('bits', 'sc', 'vlen') and x == int(x):
            lo, hi = (0, (1 << nbits) - 1) if f.kind == 'bits' else INT[f.typ][1:]
            out += [int(x) + d for d in (0, 1) if lo <= int(x) + d <= hi]
        elif f.kind in ('list', 'bytes') and 0 < x < 300 and x == int(x):
            n = int(x)
            c = Ctr(7)
            out.append([genscalar(f.typ or 'u8', 'dist', c) for _ in range(n)] if f.kind == 'bytes' or f.typ in SCALAR
                       else [gen(f.typ, 'dist', Shape(dflt=1), c, 1, i) for i in range(n)])
    return out


def values(f, nbits, size):
    """Model values of a field; size 0 small, 1 few, 2 full alphabet."""
    k = f.kind
    if k == 'bits':
        r = list(range(1 << nbits)) if nbits <= 10 else [0, 1, (1 << nbits) - 1]
        return r if size == 2 else [r[1], r[0]] if size == 0 else sorted({0, 1, r[-1]})
    if k in ('sc', 'vlen'):
        d = genscalar(f.typ, 'dist', Ctr(7))
        if size == 2:
            return ALPHA[f.typ] + [d]
        return [d, genscalar(f.typ, 'zero', None)] if size == 0 else FEW[f.typ] + [d]
    if k == 'arr':
        out = [[genscalar(f.typ, m, c) for _ in range(f.n)] for c in (Ctr(7),) for m in ('dist', 'zero', 'max')]
        return out[:2] if size == 0 else out
    if k == 'rec':
        out = [gen(f.typ, m, Shape(dflt=1), Ctr(7)) for m in ('dist', 'zero', 'max')]
        return out[:2] if size == 0 else out
    if k in ('list', 'bytes', 'svr'):
        out = []
        for n, m in ((2, 'dist'), (0, 'zero'), (1, 'max'), (3, 'dist'), (1, 'zero'), (9, 'dist')):
            c = Ctr(7)
            if k == 'bytes' or f.typ in SCALAR:
                out.append([genscalar(f.typ or 'u8', m, c) for _ in range(n)])
            elif k == 'list':
                out.append([gen(f.typ, m, Shape(dflt=1), c, 1, i) for i in range(n)])
            else:
                out.append([gensvr(f.typ, i, m, Shape(dflt=1), c) for i in range(n)])
        return out[:2 if size == 0 else 3 if size == 1 else 6]
    if k == 'raw':
        return [genraw('dist', Ctr(7), 16), b'', bytes(8)][:2 if size == 0 else 3]
    if k == 'vdata':
        return [[], list(range(1, 17)), [255] * 8][:2 if size == 0 else 3]
    if k == 'opt':
        out = [None]
        for o in OPTS:
            v = gen('TransmitterPdu', 'dist', Shape(opt=o and OPTS.index(o)))[f.attr]
            if v is not None and (size == 2 or v['#'] not in [x['#'] for x in out[1:]]):
                out.append(v)
        return out if size else out[1::-1]
    raise AssertionError(k)


def real(f, x):
    k = f.kind
    if k == 'rec':
        return build(x)
    if k == 'list' and f.typ not in SCALAR:
        return [build(y) for y in x]
    if k == 'svr':
        return [build(y, f.typ) for y in x]
    if k == 'opt':
        return None if x is None else build(x)
    if k == 'sc':
        return tofield(f.typ, x)
    return list(x) if isinstance(x, list) else x


def outcome(o):
    try:
        return ser(o)
    except Exception as e:
        return type(e).__name__


def assign(o, attr, f, x):
    (setlist if f.kind in ('list', 'bytes', 'svr', 'vdata') else setattr)(o, attr, x)


def default(name):
    def un(x):
        if isinstance(x, dict):
            s = SPECS.get(x['#'])
            r = {}
            for k, y in x.items():
                f = s and next((f for f in s.fields if f.attr == k), None)
                if f is None or f.kind in ('bits',) or y is None:
                    r[k] = y
                elif f.typ in ('f32', 'f64'):
                    r[k] = [bytes.fromhex(z) for z in y] if isinstance(y, list) else bytes.fromhex(y)
                elif f.kind == 'raw' or x['#'].startswith('Unknown'):
                    r[k] = bytes.fromhex(y)
                else:
                    r[k] = un(y)
            return r
        return [un(y) for y in x] if isinstance(x, list) else x
    D = un(CTORS[name]['default'])
    if name == 'EnvironmentGeneral':      # its geometry has no default
        D['geometry'] = ('not an int', 'None')
    return D


def tasks(tier):
    out = []
    for n in SPECS:
        fs = fields(n)
        out.append((n, 'alone', tier))
        out.append((n, 'many', tier))
        out.append((n, 'joint', tier))
        if any(f.kind in ('list', 'bytes', 'svr', 'vdata') for _, _, f, _ in fs):
            out.append((n, 'lists', tier))
        parts = max(1, len(fs) ** 2 // 60) if tier == 'quick' else max(1, len(fs) ** 2 // 10)
        for p in range(parts):
            out.append((n, 'pairs', p, parts, tier))
    out.sort(key=lambda u: len(fields(u[0])), reverse=True)
    return out


def one(name, D, kw, R, positional=0):
    """kw: [(argument, attribute, field, value)]"""
    c = klass(name)
    a = [real(f, x) for _, _, f, x in kw[:positional]]
    o = c(*a, **{k: real(f, x) for k, _, f, x in kw[positional:]})
    p = c()
    want = dict(D)
    for k, attr, f, x in kw:
        assign(p, attr, f, real(f, x))
        want[attr] = x
    R.transitions += 3 + len(kw)
    R.traces += 1
    R.nstates += 1
    key = f'{name} ' + ('.'.join(k for k, *_ in kw) if len(kw) == 1 else 'positional' if positional else 'together')
    case = dict(arguments=[(k, x) for k, _, _, x in kw])
    got = read(o)
    if got != want:
        return R.bad(key, f'constructed with {[k for k, *_ in kw]}: ' + str(diff(got, want)), **case)
    got = read(p)
    if got != want:
        return R.bad(key, f'assigned {[k for k, *_ in kw]}: ' + str(diff(got, want)), **case)
    x, y = outcome(o), outcome(p)
    if x != y:
        R.bad(key, f'encodings differ between constructed and assigned {[k for k, *_ in kw]}: '
              + (bdiff(x, y) if isinstance(x, bytes) and isinstance(y, bytes) else f'{x!r} {y!r}'[:200]), **case)


def joint(name, D, fs, cap, R):
    """Arguments that one condition of the source looks at, together, with the
    others at their defaults and all set."""
    from mc import guards
    cond = guards.conditions()
    names = [c.__name__ for c in klass(name).__mro__ if c.__name__ in cond]
    attrs = {}
    for a, attr, f, n in fs:
        attrs.setdefault(a, (a, attr, f, n))
        attrs.setdefault(attr, (a, attr, f, n))
    scopes = [s for c in names for s in cond[c]] + [s for c in cond if c not in SPECS and c not in KLASS and c not in names for s in cond[c]]
    rest = [(a, attr, f, values(f, n, 1)[0 if f.kind in ('rec', 'arr', 'list', 'bytes', 'svr', 'raw') else -1]) for a, attr, f, n in fs]
    seen = set()
    for scope in scopes:
        axes = {}
        for c, xs in scope.items():
            for x in c:
                if isinstance(x, str) and x in attrs:
                    axes.setdefault(attrs[x][0], set()).update(xs)
        axes = sorted(axes.items())[:8]
        if len(axes) < 2:
            continue
        for level in (3, 2, 1, 0):
            opts = []
            for a, xs in axes:
                _, attr, f, n = attrs[a]
                o = []
                if f.kind == 'bits' or f.kind in ('sc', 'vlen'):
                    typ = 'bit' if f.kind == 'bits' else f.typ
                    leaf = Leaf((), typ, 0, (0, 0, n))
                    parts = guards.spread(xs)
                    got = [guards.fits(leaf, x) for part in parts[:max(level, 1)] for x in part]
                    o = [x for x in dict.fromkeys(got) if x is not None][:None if level else 4]
                else:
                    o = values(f, n, 1)
                opts.append([(a, attr, f, x) for x in o] + [None])
            if math.prod(map(len, opts)) <= cap:
                break
        for i, t in enumerate(itertools.product(*opts)):
            if i >= 4 * cap:
                break
            kw = [x for x in t if x is not None]
            k = str([(x[0], x[3]) for x in kw])
            if len(kw) < 2 or k in seen:
                continue
            seen.add(k)
            one(name, D, kw, R)
            mine = {x[0] for x in kw}
            one(name, D, kw + [x for x in rest if x[0] not in mine], R)


def lists(name, D, fs, tier, R):
    """Each list argument through lengths, and two of them through every pair
    of lengths, alone and with the other arguments."""
    def some(f, n, c):
        if f.kind == 'vdata':
            return [(i * 7 + 1) % 256 for i in range(n)]
        if f.kind == 'bytes' or f.typ in SCALAR:
            return [genscalar(f.typ or 'u8', 'dist', c) for _ in range(n)]
        if f.kind == 'list':
            return [gen(f.typ, 'dist', Shape(dflt=i % 2), c, 1, i) for i in range(n)]
        return [gensvr(f.typ, i, 'dist', Shape(dflt=1), c) for i in range(n)]
    ls = [x for x in fs if x[2].kind in ('list', 'bytes', 'svr', 'vdata')]
    rest = [(a, attr, f, values(f, n, 1)[0]) for a, attr, f, n in fs]
    top = 7 if tier == 'quick' else 13
    for a, attr, f, n in ls:
        for k in list(range(18)) + [31, 32, 33, 64, 100]:
            kw = [(a, attr, f, some(f, k, Ctr(k)))]
            one(name, D, kw, R)
            one(name, D, [x if x[0] != a else kw[0] for x in rest], R)
    for (a, aa, f, _), (b, bb, g, _) in itertools.combinations(ls, 2):
        for i in range(top):
            for j in range(top):
                c = Ctr(i)
                kw = {a: (a, aa, f, some(f, i, c)), b: (b, bb, g, some(g, j, c))}
                one(name, D, list(kw.values()), R)
                one(name, D, [kw.get(x[0], x) for x in rest], R)


def run(u, R):
    name, kind, tier = u[0], u[1], u[-1]
    D = default(name)
    fs = fields(name)
    size = 1
    if kind == 'alone':
        fresh = klass(name)()
        R.traces += 1
        R.transitions += 1
        if read(fresh) != D:
            return R.bad(f'{name} default', 'a new object differs from the documented default: ' + str(diff(read(fresh), D)))
        if name != 'EnvironmentGeneral':
            c07.mutate(D, fresh)
            R.transitions += 1
            again = klass(name)()
            if read(again) != D:
                R.bad(f'{name} shared default', 'after changing one object in place a new one differs: '
                      + str(diff(read(again), D)))
        for a, attr, f, n in fs:
            for x in values(f, n, 2) + special(name, f, n):
                one(name, D, [(a, attr, f, x)], R)
    elif kind == 'pairs':
        prs = list(itertools.combinations(fs, 2))
        for (a, aa, f, n), (b, bb, g, m) in prs[u[2]::u[3]]:
            for x in values(f, n, size) + special(name, f, n)[:8]:
                for y in values(g, m, size) + special(name, g, m)[:8]:
                    one(name, D, [(a, aa, f, x), (b, bb, g, y)], R)
    elif kind == 'lists':
        lists(name, D, fs, tier, R)
    elif kind == 'joint':
        joint(name, D, fs, 2000 if tier == 'quick' else 20000, R)
    else:
        vs = [values(f, n, 1) for _, _, f, n in fs]
        for i in range(max(map(len, vs), default=0)):
            kw = [(a, aa, f, v[i % len(v)]) for (a, aa, f, n), v in zip(fs, vs)]
            one(name, D, kw, R)
            for j in range(len(kw)):
                one(name, D, kw[:j] + kw[j + 1:], R)
            ordered = CTORS[name]['args']
            if ordered == CTORS[name]['fields']:
                for j in range(1, len(kw) + 1):
                    one(name, D, kw, R, positional=j)
                    one(name, D, kw[:j], R, positional=j)
        if tier == 'thorough':
            vs = [values(f, n, 0) for _, _, f, n in fs]
            if len(fs) <= 12:
                for r in range(3, len(fs)):
                    for sub in itertools.combinations(range(len(fs)), r):
                        for i in (0, 1):
                            one(name, D, [(*fs[j][:3], vs[j][i]) for j in sub], R)
            else:
                for sub in itertools.combinations(range(len(fs)), 3):
                    for i in itertools.product((0, 1), repeat=3):
                        one(name, D, [(*fs[j][:3], vs[j][k]) for j, k in zip(sub, i)], R)
    R.sample(dict(unit=u, arguments=[a for a, *_ in fs]))
