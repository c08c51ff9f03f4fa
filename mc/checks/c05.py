"""C05 counts and lengths match the records after any sequence of edits."""
import collections
from mc.cases import *

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every list-bearing PDU and record class: breadth-first over all edit sequences (8 operations per list, 12 for the first two edits, nested lists included; through the attribute, and through list objects held from before with encoding between the edits) up to depth 4 for one list, 3 or 2 for more, from empty and filled states, duplicates merged; every leaf over its alphabet, then every list losing its first element; every list length 0..255 and around, lists inside records through 0..40 and around limits; fields and list lengths that conditions of the source look at, assigned jointly; payloads changed in place or replaced again and again (9 sizes, all pairs) and all sequences of three replacements of the transmitter sections, with every count and length read in between',
          'thorough': 'depths 6 / 4 / 3; all lengths up to the capacity of the count'}
ASSUMPTIONS = ['a record list is edited through the list object the attribute returns, or by assigning a new list where the class allows it']
CLASSES = [n for n in SPECS if SPECS[n].lists() and n != 'VariableDatum']
# transmitter sections and single-octet lengths are edited as values, see C13


def tasks(tier):
    out = []
    for n in CLASSES:
        for start in ('empty', 'filled'):
            out.append((n, 'edits', start, tier))
        if pairs(n):
            out.append((n, 'shared', tier))
        for f in listfields(n):
            out.append((n, 'lens', f.attr, tier))
            out.append((n, 'same', f.attr))
    out += [(u[0], 'content', u) for u in units(CLASSES, tier, pairs=False) if u[1] in ('lits', 'leaf', 'guards') and u[2] == 'dist' or u[1] == 'inner']
    out += [(n, 'morph', tier) for n in SPECS if payloads(gen(n, 'dist', payload_shapes(n)[0])) and n not in LENGTH_ARG]
    out.append(('counts', 'counts'))
    out.sort(key=lambda u: (len(SPECS[u[0]].lists()) if u[0] in SPECS else 0), reverse=True)
    return out


def element(f, i):
    """i-th element of the alphabet of a list: model value."""
    if f.kind == 'bytes' or f.typ in SCALAR:
        t = f.typ or 'u8'
        return (0, INT[t][2], 0x5a)[i % 3]
    ctr = Ctr(40 * i)
    if f.kind == 'svr':
        return gensvr(f.typ, i, 'dist', Shape(dflt=1, inner=1), ctr)
    return gen(f.typ, ('dist', 'max', 'zero')[i % 3], Shape(dflt=1, inner=1), ctr, 1, i)


def real(f, x):
    return x if not isinstance(x, dict) else build(x, f.typ if f.kind == 'svr' else None)


OPS = ['append0', 'insert', 'pop', 'delfirst', 'clear', 'assign', 'extend', 'setitem']
MORE = ['reverse', 'delslice', 'setslice', 'iadd']      # as one of the first two edits


def apply_list(op, ref, lst, mk):
    """The edit on the model list and on the real list; False if not enabled."""
    if op == 'append0' or op == 'append1':
        i = 0 if op == 'append0' else 1
        ref.append(mk[i])
        lst.append(mk[i, 'real']())
    elif op == 'insert':
        ref.insert(0, mk[2])
        lst.insert(0, mk[2, 'real']())
    elif op == 'pop':
        if not ref:
            return False
        ref.pop()
        lst.pop()
    elif op == 'delfirst':
        if not ref:
            return False
        del ref[0]
        del lst[0]
    elif op == 'clear':
        if not ref:
            return False
        ref.clear()
        lst.clear()
    elif op == 'extend':
        ref.extend([mk[1], mk[2]])
        lst.extend([mk[1, 'real'](), mk[2, 'real']()])
    elif op == 'reverse':
        if len(ref) < 2:
            return False
        ref.reverse()
        lst.reverse()
    elif op == 'delslice':
        if not ref:
            return False
        del ref[-2:]
        del lst[-2:]
    elif op == 'setslice':
        ref[:1] = [mk[2], mk[0], mk[1]]
        lst[:1] = [mk[2, 'real'](), mk[0, 'real'](), mk[1, 'real']()]
    elif op == 'iadd':
        ref += [mk[1], mk[0]]
        lst += [mk[1, 'real'](), mk[0, 'real']()]
    elif op == 'setitem':
        if not ref:
            return False
        ref[-1] = mk[2]
        lst[-1] = mk[2, 'real']()
    else:
        raise AssertionError(op)
    return True


def maker(f):
    d = {}
    for i in range(3):
        x = element(f, i)
        d[i] = x
        d[i, 'real'] = lambda x=x: real(f, x)
    return d


def copyval(v):
    if isinstance(v, dict):
        return {k: copyval(x) for k, x in v.items()}
    return [copyval(x) for x in v] if isinstance(v, list) else v


def sites(name, v):
    """(path to the list's owner, field) of each editable list: the top-level
    ones and the lists inside element 0 of each top-level list."""
    out = [((), f) for f in listfields(name)]
    for f in listfields(name):
        if f.kind == 'list' and f.typ in SPECS and v[f.attr]:
            for g in SPECS[f.typ].lists():
                if f.typ != 'VariableDatum':
                    out.append(((f.attr, 0), g))
    return out


def run_history(name, start, hist, makers, observe=False):
    """(model value, real object) after the edits, or None if one is disabled.

    observe: read the counts and encode the object before every edit, and edit
    the lists through the objects first taken from it."""
    v = copyval(start)
    o = build(v)
    held = {}
    if observe:
        for path, f in sites(name, v):
            ro = o
            for p in path:
                ro = ro[p] if isinstance(p, int) else getattr(ro, p)
            held[path, f.attr] = ro, getattr(ro, f.attr)
    for path, attr, op in hist:
        if observe:
            ser(o)
            for q, prop, n in numbers(v):
                ro = o
                for p in q:
                    ro = ro[p] if isinstance(p, int) else getattr(ro, p)
                getattr(ro, prop, None)
        rv, ro = v, o
        try:
            for p in path:
                rv = rv[p]
                ro = ro[p] if isinstance(p, int) else getattr(ro, p)
        except (IndexError, KeyError):
            return None
        f = next((f for f in SPECS[rv['#']].lists() if f.attr == attr), None) if '#' in rv else None
        if f is None:
            return None
        mk = makers.get((rv['#'], attr))
        if mk is None:
            mk = makers[rv['#'], attr] = maker(f)
        if op == 'assign':
            rv[attr] = [mk[1], mk[0]]
            setlist(ro, attr, [mk[1, 'real'](), mk[0, 'real']()])
            held.pop((path, attr), None)
        elif not apply_list(op, rv[attr], held[path, attr][1] if held.get((path, attr), (None,))[0] is ro else getattr(ro, attr), mk):
            return None
        rv[attr] = [copyval(x) for x in rv[attr]]
    return v, o


def numbers(v):
    """(path, attribute, value) of every count and length the value reports."""
    out = []

    def walk(v, path):
        if isinstance(v, list):
            for i, x in enumerate(v):
                walk(x, path + (i,))
        if not isinstance(v, dict) or v['#'] not in SPECS:
            return
        for f in SPECS[v['#']].fields:
            if f.prop and f.kind in ('count', 'bitlen', 'octlen'):
                x = v[f.attr]
                if f.kind == 'count':
                    n = len(x)
                elif f.kind == 'bitlen':
                    n = 8 * len(x)
                else:
                    n = sum(len(encode(y)) for y in
                            ([] if x is None else x if isinstance(x, list) else [x]))
                out.append((path, f.prop, n))
        for k, x in v.items():
            walk(x, path + (k,))
    walk(v, ())
    return out


def verify(name, v, o, R, key, **kw):
    R.traces += 1
    R.transitions += 2
    for path, prop, n in numbers(v):
        ro = o
        for p in path:
            ro = ro[p] if isinstance(p, int) else getattr(ro, p)
        got = getattr(ro, prop, None)
        if got != n:
            R.bad(f'{key} {type(ro).__name__}.{prop}', f'{prop} is {got}, the contents say {n}', **kw)
    want = encode(v)
    try:
        got = ser(o)
    except Exception as e:
        R.bad(f'{key} encode', f'{type(e).__name__}: {e}', **kw)
        return
    if got != want:
        R.bad(f'{key} wire', 'encoding does not match the contents: ' + bdiff(got, want),
              got=got, expected=want, **kw)
    if name in NOT_DISPATCHED or SPECS[name].pdu is None:
        if SPECS[name].svr is not None or name not in LENGTH_ARG:
            p, used = parse_new(name, got + b'\x77' * 16)
            if used != len(got):
                R.bad(f'{key} consumed', f'{used} of {len(got)} octets', **kw)
        else:
            return
    else:
        p = PduFactory.createPdu(got)
    val = read(p)
    if val != v:
        R.bad(f'{key} decode', 'decodes to other contents: ' + str(diff(val, v)), octets=got, **kw)


def edited(key, o, v, b, R):
    """The counts of a decoded object, before and after every list loses its
    first element."""
    v = dict(v)
    for step in ('', ' then first elements removed'):
        for path, prop, n in numbers(v):
            ro = o
            for p in path:
                ro = ro[p] if isinstance(p, int) else getattr(ro, p)
            got = getattr(ro, prop, None)
            if got != n:
                R.bad(f'{key}{step} {prop}', f'{prop} is {got}, the contents say {n}', octets=b)
        for f in listfields(v['#']) if not step else ():
            if v[f.attr]:
                del getattr(o, f.attr)[0]
                v[f.attr] = v[f.attr][1:]
    got = ser(o)
    want = encode(v)
    if got != want:
        R.bad(f'{key} first elements removed', 'encoding does not match the contents: ' + bdiff(got, want), octets=b)


def run(u, R):
    name, kind = u[:2]
    if kind == 'content':
        return through(u[2], R, extra=edited)
    if kind == 'morph':
        return changed(name, u[2], R)
    if kind == 'counts':
        return counts(R)
    if kind == 'shared':
        return shared(name, R)
    if kind == 'same':
        return same(u, R)
    if kind == 'lens':
        for v, b, devs in cases(u):
            R.state(b)
            verify(name, v, build(v), R, f'{name} length', list=u[2])
        R.sample(dict(unit=u, last_length=len(b)))
        return
    start, tier = u[2:]
    sh = Shape(dflt=0 if start == 'empty' else 1, c=1, inner=0 if start == 'empty' else 1)
    v0 = gen(name, 'dist', sh)
    nl = len(sites(name, gen(name, 'dist', Shape(dflt=1, inner=1))))
    depth = 4 if nl == 1 else 3 if nl == 2 else 2
    if tier == 'thorough':
        depth = 6 if nl == 1 else 4 if nl == 2 else 3
    makers = {}
    seen = {encode(v0)}
    frontier = collections.deque([()])
    verify(name, v0, build(v0), R, f'{name} {start}')
    while frontier:
        hist = frontier.popleft()
        base = run_history(name, v0, hist, makers)
        for path, f in sites(name, base[0]):
            for op in OPS + (MORE if len(hist) < 2 else []):
                h = hist + ((path, f.attr, op),)
                r = run_history(name, v0, h, makers)
                if r is None:
                    continue
                v, o = r
                R.transitions += len(h)
                verify(name, v, o, R, f'{name} edits', history=h, start=start)
                v, o = run_history(name, v0, h, makers, True)
                R.transitions += 2 * len(h)
                verify(name, v, o, R, f'{name} observed edits', history=h, start=start)
                k = encode(v)
                # merged: the state of an object is the content of its lists
                if k not in seen and len(h) < depth:
                    seen.add(k)
                    frontier.append(h)
                R.state(k)
    R.sample(dict(unit=u, depth=depth, last_history=h))


def changed(name, tier, R):
    """Payloads that grow and shrink inside a message already measured, and
    sections of a transmitter replaced by others."""
    done = None
    for v, o, done in morphs(name, tier):
        R.state((name, done))
        verify(name, v, o, R, f'{name} payload changed', done=done)
    if name != 'TransmitterPdu':
        R.sample(dict(unit=(name, 'morph'), last=done))
        return
    vs = [gen(name, 'dist', Shape(dflt=1, c=1, opt=k)) for k in range(len(OPTS))]
    for i, j, k in itertools.product(range(len(OPTS)), repeat=3):
        v, o = dict(vs[i]), build(vs[i])
        for w in (vs[j], vs[k]):
            reports(o, v)
            for a in ('modulationType', 'modulationParameters', 'antennaPatternType', 'antennaPattern'):
                v[a] = w[a]
                setattr(o, a, build(w[a]) if isinstance(w[a], dict) else w[a])
            R.state((i, j, k, w is vs[k]))
            verify(name, v, o, R, f'{name} sections replaced', sections=(i, j, k))
    R.sample(dict(unit=(name, 'morph'), last=done))


def pairs(name):
    return [(f, g) for f, g in itertools.permutations(listfields(name), 2) if (f.kind, f.typ) == (g.kind, g.typ)]


def shared(name, R):
    """Two attributes given the same list object: an edit through either shows
    in both, or in the one edited where the class keeps its own copy."""
    for f, g in pairs(name):
        for dflt in (0, 1, 3):
            for edits in itertools.chain.from_iterable(itertools.product((f, g), repeat=n) for n in range(4)):
                v = gen(name, 'dist', Shape(dflt=dflt, inner=dflt))
                o = build(v)
                setlist(o, g.attr, getattr(o, f.attr))
                v[g.attr] = list(v[f.attr])
                one = getattr(o, g.attr) is getattr(o, f.attr)
                for e in edits:
                    getattr(o, e.attr).append(real(e, element(e, 1)))
                    for h in (f, g) if one else (e,):
                        v[h.attr] = v[h.attr] + [element(e, 1)]
                R.state((f.attr, g.attr, dflt, tuple(e.attr for e in edits)))
                verify(name, v, o, R, f'{name} shared list', lists=(f.attr, g.attr))
    R.sample(dict(unit=(name, 'shared')))


PATTERNS = ['aa', 'aaa', 'aba', 'aab', 'abb', 'abab', 'ba' * 4, 'a' * 17]


def same(u, R):
    """One element object in several places: every place is an element."""
    name, _, attr = u
    f = next(f for f in listfields(name) if f.attr == attr)
    cap = capacity(name, f)
    for dflt in (0, 1):
        for i, j in ((0, 1), (1, 2), (2, 2)):
            for pat in PATTERNS:
                if cap and len(pat) > cap:
                    continue
                v = gen(name, 'dist', Shape(dflt=dflt, inner=dflt))
                xs = {'a': element(f, i), 'b': element(f, j)}
                for how in ('assign', 'append', 'insert'):
                    o = build(v)
                    es = {k: real(f, x) for k, x in xs.items()}
                    if how == 'assign':
                        setlist(o, attr, [es[c] for c in pat])
                        w = list(pat)
                    else:
                        setlist(o, attr, [])
                        w = []
                        for c in pat:
                            if how == 'append':
                                w.append(c)
                                getattr(o, attr).append(es[c])
                            else:
                                w.insert(0, c)
                                getattr(o, attr).insert(0, es[c])
                    m = copyval(v)
                    m[attr] = [copyval(xs[c]) for c in w]
                    R.state((attr, dflt, i, j, pat, how))
                    verify(name, m, o, R, f'{name} repeated element', list=attr, pattern=pat, how=how)
    R.sample(dict(unit=u, patterns=PATTERNS))


def counts(R):
    """Counts that are plain attributes in classes outside the model above."""
    o = new('FastEntityStatePdu')
    R.state('FastEntityStatePdu')
    R.traces += 1
    R.transitions += 1
    o.variableParameters.append(build(gen('VariableParameter', 'dist')))
    if o.numberOfVariableParameters != 1:
        R.bad('FastEntityStatePdu.numberOfVariableParameters',
              f'{o.numberOfVariableParameters} after one append')
    o = new('GridAxisDescriptorVariable')
    R.state('GridAxisDescriptorVariable')
    R.traces += 1
    R.transitions += 1
    o.xiValues.append(7)
    if o.numberOfPointsOnXiAxis != 1:
        R.bad('GridAxisDescriptorVariable.numberOfPointsOnXiAxis',
              f'{o.numberOfPointsOnXiAxis} after one append')
