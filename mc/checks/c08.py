"""C08 values that do not fit on the wire are refused."""
from decimal import Decimal
from fractions import Fraction
import numpy as np
from mc.cases import *

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every PDU and record class, every integer, float32 and bit field (nested and list elements included) x about 20 values outside its range (fractions, NaN and infinities in integer and bit fields, and out-of-range numbers of other types, included), on 2 baselines; every counted list just past its capacity; over-long sections and unknown variable records; fields and list lengths that conditions of the source look at, assigned jointly',
          'thorough': 'as quick on 3 baselines and all transmitter variants, each out-of-range value also together with a second changed leaf'}
ASSUMPTIONS = ['BeamStatus masks its one-bit flag (specified as implemented, excluded)',
               'fixed-size arrays longer than their size are not claimed']


def tasks(tier):
    out = []
    for n in SPECS:
        for mode in ('zero', 'dist') + (('max',) if tier == 'thorough' else ()):
            for i in range(len(main_shapes(n)) if tier == 'thorough' else min(4, len(main_shapes(n)))):
                out.append((n, 'fields', mode, i, tier))
        for f in listfields(n):
            if capacity(n, f) and capacity(n, f) <= 65535:
                out.append((n, 'capacity', f.attr))
        out += [(n, 'joint', mode, tier) for mode in ('zero', 'dist')]
    return out + [('special', 'special')]


def outside(leaf):
    t = leaf.typ
    if t == 'bit':
        n = leaf.bits[2]
        return [x for x in WHOLE if not 0 <= x < 1 << n] + [x for x in (1 << n, (1 << n) + 1, -1, -(1 << n), 1 << n + 1, 1 << n + 2, 255, 256, 257,
                            65536, 2**32, 2**64, -2**31, 3 << n) if not 0 <= x < 1 << n] + \
            ([] if leaf.path[-1] in BOOLS else FRACTIONS)
    if t in INT:
        return integers(t) + FRACTIONS + others(t) + [x for x in WHOLE if not INT[t][1] <= x <= INT[t][2]]
    if t == 'f32':
        return [1e39, -1e39, 3.5e38, -3.5e38, 1e300, 10**400]
    if t == 'f64':
        return [10**400, -10**400]
    raise AssertionError(t)


BOOLS = ('frequencyHopping', 'pseudoNoise', 'timeHopping')     # declared bool, so not numbers
WHOLE = sorted({y for x in INT_LITERALS for y in (x, -x)})
FRACTIONS = [0.5, 1.75, -0.25, 100.0000001, float('nan'), float('inf'), float('-inf')]


def others(t):
    """Numbers of other types."""
    n, lo, hi = INT[t]
    out = [Fraction(1, 2), Fraction(7, 3), Decimal('0.5'), np.float64(1.5), np.float32(2.5), complex(1, 1)]
    for x in (np.int64(hi + 1) if hi < 2**62 else np.float64(2.0**70), np.int64(lo - 1) if lo > -2**62 else -np.float64(2.0**70),
              Fraction(hi + 1), Decimal(hi + 1), Decimal(lo - 1)):
        out.append(x)
    return out


def integers(t):
    n, lo, hi = INT[t]
    m = hi - lo + 1
    return [hi + 1, hi + 2, lo - 1, lo - 2, lo - m, hi + m, 2 * hi + 1, lo - m // 2, hi + m // 2 + 1,
            2**64 + 1, -2**64, 10**30, hi + 1 + 256 * m]


def refused(o, R, key, msg, **kw):
    R.transitions += 1
    R.traces += 1
    try:
        b = ser(o)
    except Exception:
        return
    R.bad(key, msg + ' is serialised', octets=b[:200], **kw)


def run(u, R):
    name, kind = u[:2]
    if kind == 'special':
        return special(R)
    if kind == 'capacity':
        return over(name, u[2], R)
    if kind == 'joint':
        return joint(u, R)
    mode, i, tier = u[2:]
    v = gen(name, mode, main_shapes(name)[i])
    o = build(v)
    b, ls = leaves_of(v)
    for leaf in ls:
        if leaf.typ == 'b1':
            continue
        seconds = [None] + (ls[::7] if tier == 'thorough' else [])
        for x in outside(leaf):
            for second in seconds:
                if second is leaf or second and second.typ == 'b1':
                    continue
                R.state((leaf.path, x, second and second.path))
                at = where(name, v, ((leaf, x),), u)
                if second:
                    setleaf(o, second, list(alphabet(second, True))[-1])
                c, k, isl = parent(o, leaf.path)
                try:
                    if isl:
                        c[k] = x
                    else:
                        setattr(c, k, x)
                except Exception:
                    R.add('refused_on_assignment')
                    R.traces += 1
                else:
                    refused(o, R, at, f'{x} in a {leaf.typ} field', value=x)
                setleaf(o, leaf, get(v, leaf.path))
                if second:
                    setleaf(o, second, get(v, second.path))
    if ser(o) != b:
        R.bad(f'{name} restored', 'the object does not encode as before: ' + bdiff(ser(o), b))
    for p, f in datums(v):
        for x in (-1, 2**32, 2**32 + 1, 2**64):
            w = o
            for q in p:
                w = w[q] if isinstance(q, int) else getattr(w, q)
            keep, w.variableDatumLength = w.variableDatumLength, x
            R.state((p, x))
            refused(o, R, f'{name} variableDatumLength', f'{x} in a u32 field')
            w.variableDatumLength = keep
    R.sample(dict(unit=u, leaves=len(ls)))


def inside(leaf, x):
    if leaf.typ == 'bit':
        return x == int(x) and 0 <= x < 1 << leaf.bits[2] or leaf.path[-1] in BOOLS
    return leaf.typ not in INT or leaf.typ == 'b1' or x == int(x) and INT[leaf.typ][1] <= x <= INT[leaf.typ][2]


def joint(u, R):
    """Numbers that do not fit, together with what the conditions of the code
    look at."""
    name, _, mode, tier = u
    at = None

    def attempts(sh):
        for v, b, devs in guards.cases(name, mode, sh, 1000 if tier == 'quick' else 10000, wild=True):
            if any(not inside(l, x) for l, x in devs):
                yield v, devs
        near = 0
        for v, b, devs in guards.cases(name, mode, sh, 100 if tier == 'quick' else 1000):
            if not devs:
                continue
            # another number of the same record that does not fit
            for l in leaves_of(v)[1]:
                if l.typ in INT and l.typ != 'b1' or l.typ == 'bit' and l.path[-1] not in BOOLS:
                    if l.path not in [d.path for d, _ in devs] and any(l.path[:len(d.path) - 1] == d.path[:-1] for d, _ in devs):
                        near += 1
                        if near > (20000 if tier == 'quick' else 400000):
                            return
                        for x in (1 << l.bits[2], -1) if l.typ == 'bit' else (INT[l.typ][2] + 1 + near, INT[l.typ][1] - 1):
                            yield v, devs + ((l, x),)
    for sh in main_shapes(name)[:2]:
        for v, devs in attempts(sh):
            if at is not v:
                at, o = v, build(v)
            R.state(tuple((l.path, x) for l, x in devs))
            try:
                for l, x in devs:
                    c, k, isl = parent(o, l.path)
                    if isl:
                        c[k] = unfl(x) if isinstance(x, bytes) else x
                    else:
                        setattr(c, k, unfl(x) if isinstance(x, bytes) else x)
            except Exception:
                R.add('refused_on_assignment')
            else:
                worst = next((l, x) for l, x in devs if not inside(l, x))
                refused(o, R, where(name, v, (worst,), u), f'{worst[1]} in a {worst[0].typ} field',
                        values=[(l.path, x) for l, x in devs])
            for l, _ in devs:
                setleaf(o, l, get(v, l.path))


def datums(v, path=()):
    if isinstance(v, list):
        for i, x in enumerate(v):
            yield from datums(x, path + (i,))
    elif isinstance(v, dict):
        if v['#'] == 'VariableDatum':
            yield path, v
        for k, x in v.items():
            if isinstance(x, (dict, list)):
                yield from datums(x, path + (k,))


def over(name, attr, R):
    from mc.checks.c05 import element, real
    f = next(f for f in listfields(name) if f.attr == attr)
    cap = capacity(name, f)
    for i in (0, 1):
        v = gen(name, 'dist', Shape(dflt=1, inner=1))
        o = build(v)
        e = real(f, element(f, i))
        for n in (cap + 1, cap + 2, 2 * cap + 2):
            if n > 140000:
                continue
            R.state((attr, n, i))
            try:
                setlist(o, attr, [e] * n)
            except Exception:
                R.traces += 1
                continue
            refused(o, R, f'{name}.{attr} capacity', f'a list of {n} elements with a count of at most {cap}')
        setlist(o, attr, [e] * min(cap, 300))
        ser(o)
    R.sample(dict(cls=name, list=attr, capacity=cap))


def special(R):
    from mc.spec import klass
    # parameter sections longer than their length octets can say
    for attr, cls, sizes in (('modulationParameters', 'UnknownRadio', (256, 257, 264, 512)),
                             ('antennaPattern', 'UnknownAntennaPattern', (65536, 65544))):
        for n in sizes:
            v = gen('TransmitterPdu', 'dist', Shape(dflt=0))
            o = build(v)
            x = klass(cls)()
            x.data = bytes(n)
            setattr(o, attr, x)
            R.state((attr, n))
            refused(o, R, f'TransmitterPdu.{attr} capacity', f'a section of {n} octets')
    for n in (65530, 65538, 65536 + 2, 131066):
        for carrier, attr, fam in (('DirectedEnergyFirePdu', 'dERecords', 'DamageDescriptionRecord'),
                                   ('TransmitterPdu', 'variableTransmitterParameters',
                                    'VariableTransmitterParametersRecord'),
                                   ('StandardVariableSpecification', 'standardVariables',
                                    'StandardVariableRecord')):
            o = build(gen(carrier, 'dist', Shape(dflt=0)))
            r = record.getStandardVariableClass(70000, klass(fam))()
            r.data = bytes(n)
            setlist(o, attr, [r])
            R.state((carrier, n))
            refused(o, R, f'{carrier} record length', f'a variable record of {n + 6} octets')
    for t in (2**32, 2**32 + 3000, 2**64, -1, -3000):
        R.state(t)
        R.traces += 1
        try:
            r = record.getStandardVariableClass(t)()
            r.data = bytes(2)
            b = ser(r)
        except Exception:
            continue
        R.bad('variable record type', f'record type {t} is serialised', octets=b)
