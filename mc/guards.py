"""The conditions in the library's own source, as hints for the enumeration.

A branch on several fields at once (kind == 1 and domain == 2 and country ==
225) is out of reach of single values and of pairs.  conditions() reads every
test of the library (if, while, assert, conditional and boolean expressions,
comparisons) and returns, per class and function, the field names it looks at
with the values that may decide it; cases() sets all of them together in every
combination.  This only widens the enumeration, no oracle looks at the source.
"""
import ast, functools
import math
from mc.spec import *


def _num(x):
    return type(x) in (int, float) and abs(x) < 1e300


def _scope_env(tree):
    """Constants of the module and of its classes by name."""
    env = {}
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef)):
            for s in n.body:
                if isinstance(s, ast.Assign):
                    xs = [c.value for c in ast.walk(s.value) if isinstance(c, ast.Constant) and _num(c.value)]
                    xs += _folded(s.value)
                    for t in s.targets:
                        if isinstance(t, ast.Name) and 0 < len(xs) < 20:
                            env.setdefault(t.id, set()).update(xs)
    return env


def _folded(e):
    """Value of a constant expression such as 1 << 20, -5 or 24 * 3600."""
    if any(isinstance(n, (ast.Name, ast.Attribute, ast.Call, ast.Lambda, ast.Subscript)) for n in ast.walk(e)):
        return []
    try:
        c = compile(ast.Expression(e), '', 'eval')
    except Exception:
        return []
    return [x for x in constants(c) if _num(x)]


def _chain(n):
    """('entityID', 'siteID') of self.entityID.siteID; an index is an int."""
    out = []
    while True:
        if isinstance(n, ast.Attribute):
            out.append(n.attr.lstrip('_'))
            n = n.value
        elif isinstance(n, ast.Subscript):
            if isinstance(n.slice, ast.Constant) and type(n.slice.value) is int:
                out.append(n.slice.value)
            elif isinstance(n.slice, ast.UnaryOp):
                out.append(-1)
            n = n.value
        elif isinstance(n, ast.Name):
            if not out:
                out.append(n.id.lstrip('_'))
            return tuple(reversed(out))
        else:
            return tuple(reversed(out)) if out else None


def _look(e, alias, env):
    """(field chains, numbers) an expression looks at."""
    chains, nums, skip = set(), set(_folded(e)), set()
    for n in ast.walk(e):
        if id(n) in skip:
            continue
        if isinstance(n, (ast.Attribute, ast.Subscript, ast.Name)):
            c = _chain(n)
            for m in ast.walk(n):
                if isinstance(m, (ast.Attribute, ast.Name)):
                    skip.add(id(m))
            if c:
                if c[-1] in env:
                    nums |= env[c[-1]]
                for a in alias.get(c[0], ()) if isinstance(c[0], str) else ():
                    chains.add(a + c[1:])
                chains.add(c)
        elif isinstance(n, ast.Constant):
            x = n.value
            if _num(x) and type(x) is not bool:
                nums.add(x)
            elif isinstance(x, bytes) and len(x) <= 8:
                nums |= set(x) | {int.from_bytes(x, 'big')}
            elif isinstance(x, str) and len(x) == 1:
                nums.add(ord(x))
        elif isinstance(n, ast.BinOp):
            nums |= set(_folded(n))
    return chains, nums


def _calls(trees):
    """{function name: {parameter: field chains passed for it}}."""
    params = {}
    for t in trees:
        for f in ast.walk(t):
            if isinstance(f, ast.FunctionDef) and not f.name.startswith('__'):
                params.setdefault(f.name, []).append([a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs])
    out = {}
    for t in trees:
        for c in ast.walk(t):
            if not isinstance(c, ast.Call):
                continue
            name = c.func.id if isinstance(c.func, ast.Name) else c.func.attr if isinstance(c.func, ast.Attribute) else None
            for ps in params.get(name, ()):
                if ps and ps[0] in ('self', 'cls') and isinstance(c.func, ast.Attribute):
                    ps = ps[1:]
                for p, a in list(zip(ps, c.args)) + [(k.arg, k.value) for k in c.keywords if k.arg in ps]:
                    cs, _ = _look(a, {}, {})
                    if 0 < len(cs) <= 4:
                        out.setdefault(name, {}).setdefault(p.lstrip('_'), set()).update(cs)
    return out


def _function(f, env, passed=()):
    alias = {p: set(cs) for p, cs in dict(passed).items()}
    for n in ast.walk(f):
        ts = []
        if isinstance(n, ast.Assign):
            ts, v = n.targets, n.value
        elif isinstance(n, ast.NamedExpr):
            ts, v = [n.target], n.value
        elif isinstance(n, (ast.For, ast.comprehension)):
            ts, v = [n.target], n.iter
        for t in ts:
            if isinstance(t, ast.Tuple) and isinstance(v, ast.Tuple) and len(t.elts) == len(v.elts):
                prs = list(zip(t.elts, v.elts))
            else:
                prs = [(x, v) for x in (t.elts if isinstance(t, ast.Tuple) else [t])]
            for a, b in prs:
                if isinstance(a, ast.Name):
                    cs, _ = _look(b, {}, {})
                    alias.setdefault(a.id.lstrip('_'), set()).update(c for c in cs if len(cs) <= 4)
    tests = []
    for n in ast.walk(f):
        if isinstance(n, (ast.If, ast.IfExp, ast.While, ast.Assert)):
            tests.append(n.test)
        elif isinstance(n, ast.BoolOp):
            if not (isinstance(n.op, ast.Or) and isinstance(n.values[-1], ast.Call)):   # x or Default()
                tests.append(n)
        elif isinstance(n, ast.Compare):
            tests.append(n)
        elif isinstance(n, ast.comprehension):
            tests += n.ifs
        elif isinstance(n, ast.Match):
            tests.append(n.subject)
            tests += [p.value for p in ast.walk(n) if isinstance(p, ast.MatchValue)]
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('get', 'pop', 'setdefault'):
            tests.append(n)
        elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Dict):
            tests.append(n)
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mod, ast.BitAnd, ast.FloorDiv, ast.RShift, ast.BitXor)):
            tests.append(n)
    out = {}

    def add(e):
        cs, ns = _look(e, alias, env)
        for c in cs:
            out.setdefault(c, set()).update(ns)
    for t in tests:
        todo = [t]
        while todo:
            e = todo.pop()
            if isinstance(e, ast.BoolOp):
                todo += e.values
            elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
                todo.append(e.operand)
            else:
                add(e)
    return out


NUMERIC = ('RangeCoordinates.py', 'DeadReckoning.py')


@functools.lru_cache(None)
def conditions(numeric=None):
    """{class or function: [{chain: numbers} of each of its functions, all of them]}."""
    out = {}
    trees = [ast.parse(text) for f, text in sources() if (f == numeric if numeric else f not in NUMERIC)]
    passed = _calls(trees)
    for tree in trees:
        env = _scope_env(tree)

        def visit(body, scope):
            for n in body:
                if isinstance(n, ast.ClassDef):
                    visit(n.body, n.name)
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    try:
                        got = _function(n, env, passed.get(n.name, ()))
                    except Exception:       # unfamiliar syntax: no hint
                        continue
                    if got:
                        out.setdefault(scope or n.name, []).append(got)
        visit(tree.body, None)
    for k, fs in out.items():
        if len(fs) > 1:
            fs.append(union(fs))
    return out


def union(fs):
    out = {}
    for f in fs:
        for c, xs in f.items():
            out.setdefault(c, set()).update(xs)
    return out


def spread(xs):
    """Values that may decide a test against the numbers xs, likely ones first."""
    xs = sorted(xs)[:24]
    a = list(xs)
    b = [x + d for x in xs for d in (1, -1)] + [0, 1]
    c = []
    if len(xs) <= 6:
        for i, x in enumerate(xs):
            for y in xs[i:]:
                c += [x + y, x * y]
                for p, q in ((x, y), (y, x)):
                    if type(p) is int and type(q) is int and 0 <= q < 64:
                        c.append(p << q)
                    if q:
                        c.append(p / q)
    return tuple([x for x in part if _num(x)] for part in (a, b, c))


def fits(leaf, x, wild=False):
    if wild and (leaf.typ == 'bit' or leaf.typ in INT and leaf.typ != 'b1'):
        return x
    if leaf.typ == 'bit':
        return int(x) if x == int(x) and 0 <= x < 1 << leaf.bits[2] else None
    if leaf.typ in INT:
        return int(x) if x == int(x) and INT[leaf.typ][1] <= x <= INT[leaf.typ][2] else None
    if leaf.typ == 'f32':
        try:
            return fl(struct.unpack('>f', struct.pack('>f', x))[0])
        except OverflowError:
            return None
    if leaf.typ == 'f64':
        return fl(float(x))
    return None


def groups(leaves, chain):
    """Sets of leaves a chain may mean: all of the longest matching suffix, and
    the first and the last of them alone."""
    for k in range(len(chain)):
        c = chain[k:]
        if isinstance(c[-1], int) and len(c) == 1:
            return []
        m = [l for l in leaves if match(l.path, c)]
        if m:
            out = [tuple(m)]
            if len(m) > 1:
                out += [(m[0],), (m[-1],)]
            return out
    return []


def match(path, c):
    if isinstance(c[-1], str):
        if path and isinstance(path[-1], int):
            path = path[:-1]            # any element of an array of numbers
    p = list(path)
    for x in reversed(c):
        if not p:
            return False
        if isinstance(x, str):
            while p and isinstance(p[-1], int):
                p.pop()
            if not p or p[-1] != x:
                return False
            p.pop()
        else:
            if not isinstance(p[-1], int):
                return False
            if x >= 0 and p[-1] != x:
                return False
            p.pop()
    return True


COUNT_OF = {}
for _s in SPECS.values():
    for _f in _s.fields:
        if _f.kind in ('count', 'bitlen', 'octlen') and _f.prop:
            COUNT_OF.setdefault(_f.prop, set()).add(_f.attr)


def list_lengths(name, scope):
    """[{list: length}] a scope asks about."""
    out = []
    mine = {f.attr for f in SPECS[name].lists()}
    ask = {}
    for c, xs in scope.items():
        for a in {c[-1]} | COUNT_OF.get(c[-1], set()) if isinstance(c[-1], str) else ():
            if a in mine:
                ask.setdefault(a, set()).update(int(x) + d for x in xs for d in (0, 1, -1)
                                                if x == int(x) and 0 <= x + d <= 300)
    for a in ask:
        for n in sorted(ask[a])[:12]:
            out.append({a: n})
    if len(ask) > 1:
        a, b = sorted(ask)[:2]
        out += [{a: n, b: m} for n in sorted(ask[a])[:8] for m in sorted(ask[b])[:8]]
    return out


def combos(leaves, scope, cap, wild=False):
    """All joint assignments for one scope, at most about cap; with wild also of
    numbers that do not fit their field."""
    axes = []
    for c, xs in sorted(scope.items(), key=str):
        gs = groups(leaves, c)
        if gs:
            axes.append((gs, spread(xs)))
    # the same leaves named in several ways are one axis
    merged = {}
    for gs, sp in axes:
        k = tuple(tuple(l.path) for l in gs[0])
        if k in merged:
            merged[k] = (gs, tuple(p + q for p, q in zip(merged[k][1], sp)))
        else:
            merged[k] = (gs, sp)
    axes = list(merged.values())
    if not axes:
        return
    for level in (3, 2, 1):
        for whole in (False, True):
            opts = []
            for gs, sp in axes:
                o = [()]
                for g in gs[:1] if whole else gs:
                    xs = [y for part in sp[:level] for y in part]
                    if wild:
                        xs += [-1, 1 << g[0].bits[2] if g[0].typ == 'bit' else INT[g[0].typ][2] + 1 if g[0].typ in INT else 1]
                    for x in dict.fromkeys(xs):
                        d = [(l, fits(l, x, wild)) for l in g]
                        d = tuple((l, y) for l, y in d if y is not None)
                        if d:
                            o.append(d)
                opts.append(o)
            n = 1
            for o in opts:
                n *= len(o)
            if n <= cap:
                break
        else:
            continue
        break
    else:
        # too many together: every triple of axes over the plain numbers
        seen = 0
        for tr in itertools.combinations(opts, min(3, len(opts))):
            for t in itertools.product(*tr):
                seen += 1
                if seen > 4 * cap:
                    return
                yield flat(t)
        return
    for t in itertools.product(*opts):
        yield flat(t)


def flat(t):
    d = {}
    for part in t:
        for l, x in part:
            d[tuple(l.path)] = (l, x)
    return tuple(d.values())


def scopes_for(v):
    """Condition sets that may concern a message: of each class inside it and
    of each function, and those of two of its classes together."""
    cond = conditions()
    names = []

    def walk(x):
        if isinstance(x, dict):
            if x.get('#') in SPECS:
                for c in klass(x['#']).__mro__:
                    if c.__name__ in cond and c.__name__ not in names:
                        names.append(c.__name__)
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            for y in x[:1] + x[-1:]:
                walk(y)
    walk(v)
    own = set(SPECS) | set(KLASS)
    out = [f for n in names for f in cond[n]]
    out += [f for n in cond if n not in own and n not in names for f in cond[n]]
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            out.append(union([cond[a][-1], cond[b][-1]]))
    return out


def innerlists(v, at=()):
    """(path of the record, field) of the lists inside the records of a value;
    of the elements of a list only those of the first and the last."""
    out = []
    for f in SPECS[v['#']].fields if v['#'] in SPECS else ():
        x = v.get(f.attr)
        if f.kind in ('list', 'bytes', 'svr') and at:
            out.append((at, f))
        if f.kind in ('rec', 'opt') and x is not None:
            out += innerlists(x, at + (f.attr,))
        elif isinstance(x, list) and x and isinstance(x[0], dict):
            for i in sorted({0, len(x) - 1}):
                out += innerlists(x[i], at + (f.attr, i))
    return out


def relist(v, at, f, n):
    """The value with n elements in one of its lists."""
    ctr = Ctr(n)
    if f.kind == 'bytes' or f.typ in SCALAR:
        x = [genscalar(f.typ or 'u8', 'dist', ctr) for _ in range(n)]
    elif f.kind == 'list':
        x = [gen(f.typ, 'dist', Shape(dflt=1, inner=j % 3 if n < 41 else 1), ctr, 2, j) for j in range(n)]
    else:
        x = [gensvr(f.typ, j, 'dist', Shape(dflt=1, inner=1), ctr, 2) for j in range(n)]
    return put(v, at + (f.attr,), x)


def capacity(v, lens):
    """Most elements the count of that list can express."""
    at, f, _ = lens
    r = get(v, at)['#']
    return min([INT[c.typ][2] // (8 if c.kind != 'count' else 1) for c in SPECS[r].fields
                if c.attr == f.attr and c.kind in ('count', 'bitlen', 'octlen')] or [70000])


def inner_lengths(v, scope):
    """[(path, field, length)] of the lists inside the records of a message,
    with lengths from the numbers of the scope."""
    xs = sorted({int(x) for ys in scope.values() for x in ys if x == int(x) and 0 <= x <= 300})
    if not xs or len(xs) > 12:
        return []
    return [(at, f, n) for at, f in innerlists(v) for n in sorted({x + d for x in xs for d in (0, 1)}) if n > 1][:60]


def payload_lengths(v, scope):
    """[(payload, length)] with lengths from the numbers of the scope."""
    out = []
    xs = sorted({int(x) for ys in scope.values() for x in ys if x == int(x) and 0 <= x <= 1100})
    if not xs or len(xs) > 12:
        return out
    for site in payloads(v):
        if site[2] == 'arr' or not site[0] and site[2] == 'bytes':      # the latter as a list
            continue
        ns = set()
        for x in xs:
            ns |= {x, x - 1, x + 1, x - 6, x // 8} if site[2] != 'vdata' else {x, x - 1, x + 1, 8 * x}
        out += [(site, n) for n in sorted(ns) if 0 <= n <= 2100]
    return out[:60]


def cases(name, mode, shape, cap, wild=False):
    v = gen(name, mode, shape)
    b, ls = leaves_of(v, True)
    seen = set()
    for scope in scopes_for(v):
        for lens in [None] + list_lengths(name, scope) + payload_lengths(v, scope) + inner_lengths(v, scope):
            if lens is None:
                w, wb, wl = v, b, ls
            elif isinstance(lens, tuple) and len(lens) == 3:
                if capacity(v, lens) < lens[2]:
                    continue
                w = relist(v, *lens)
                try:
                    wb, wl = leaves_of(w, True)
                except struct.error:
                    continue
                wl = [l for l in wl if l.path[:len(lens[0])] == lens[0] or len(l.path) < 3]
            elif isinstance(lens, tuple):
                w = refill(v, *lens, lambda i, k: 37 * i + 1)
                if w is None:
                    continue
                try:
                    wb, wl = leaves_of(w, True)
                except struct.error:
                    continue
            else:
                top = {f.attr: shape.dflt for f in SPECS[name].lists()}
                top.update(lens)
                try:
                    w = gen(name, mode, Shape(top, c=shape.c, inner=1 if max(lens.values()) > 17 else None, opt=shape.opt))
                    wb, wl = leaves_of(w, True)
                except struct.error:
                    continue
            for devs in combos(wl, scope, cap if lens is None else cap // 8, wild):
                k = (str(lens), tuple((tuple(l.path), x) for l, x in devs))
                if k not in seen:
                    seen.add(k)
                    yield w, wb, devs


def number_groups(file):
    """Numbers that one function of a numerical module compares with, for
    each function that does."""
    out = []
    for fs in conditions(file).values():
        for f in fs:
            xs = sorted({abs(float(x)) for c in f.values() for x in c})
            if xs and xs not in out:
                out.append(xs)
    return out


def joint_numbers(xs, kind, few):
    """The numbers, points between (few < 2) and beside (few < 1) them, of
    either sign; for an angle in degrees ('d') also those meant in radians,
    and the other way."""
    s = {0.0} | set(xs)
    if few < 2:
        s |= {(x + y) / 2 for x, y in zip(xs, xs[1:])} | {x + 1.0 for x in xs[-1:]}
    if few < 1:
        s |= {x * m for x in xs for m in (.999, 1.001)}
    if kind == 'd':
        s |= {math.degrees(x) for x in s}
    if kind == 'r':
        s |= {math.radians(x) for x in s}
    return sorted(s | {-x for x in s})


def joint_points(file, kinds, cap, ranges, bases):
    """Tuples with as many coordinates as the cap allows, in every choice, near
    numbers of the same function, the others as in a base.  kinds: 'd' angle
    in degrees, 'r' in radians, 'm' anything else."""
    for xs in number_groups(file):
        for k, few in itertools.product(range(len(kinds), 0, -1), (0, 1, 2)):
            vals = [[x for x in joint_numbers(xs, q, few) if lo <= x <= hi] for q, (lo, hi) in zip(kinds, ranges)]
            subs = list(itertools.combinations(range(len(kinds)), k))
            use = bases if k < len(kinds) else bases[:1]
            if len(use) * sum(math.prod(len(vals[i]) for i in sub) for sub in subs) <= cap:
                break
        for base in use:
            for sub in subs:
                for t in itertools.product(*[vals[i] for i in sub]):
                    b = list(base)
                    for i, x in zip(sub, t):
                        b[i] = x
                    yield tuple(b)
