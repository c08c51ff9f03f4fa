"""C01 encode -> decode returns the same PDU."""
from mc.cases import *

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every dispatched PDU type; 3 baselines x all list shapes (0..3 per list, at most 120 shapes); every leaf over its full alphabet on one baseline and a small one on two; all leaf pairs over 2 values; list lengths 0..255 and beyond, lists inside records through 0..40 and around limits; every payload through lengths 0..33 and more with constant, ramp and end patterns; fields and list lengths that conditions of the source look at, assigned jointly; lists whose elements are equal but for one value; one record or list object in several places of a message',
          'thorough': 'as quick with 0..5 per list (at most 4000 shapes), full alphabets on all baselines, all leaf pairs over 5 values, all 65536 16-bit values, list lengths up to the count capacity'}
ASSUMPTIONS = ['float fields are exercised with values representable in their wire format; signalling NaN in 32-bit floats is excluded',
               'UaPdu record lists stay empty (known finding C02)']


def tasks(tier):
    return units(DISPATCHED, tier) + [(n, 'alias', tier) for n in DISPATCHED]


def run(u, R):
    base, octets, want = Base(), b'', None
    name = u[0]
    if u[1] == 'alias':
        return one_object(name, u[2], R)
    for v, b, devs in cases(u):
        want, _ = expected(v, b, devs)
        at = where(name, v, devs, u)
        try:
            octets = base.octets(v, devs)
        except Exception as e:
            R.bad(f'{at} encode', f'in-range PDU cannot be encoded: {type(e).__name__}: {e}',
                  deviations=devs)
            continue
        R.state(octets)
        R.transitions += 2 + len(devs)
        R.traces += 1
        try:
            p = PduFactory.createPdu(octets)
            got = None if p is None else read(p)
        except Exception as e:
            R.bad(f'{at} decode', f'own encoding cannot be decoded: {type(e).__name__}: {e}',
                  octets=octets, deviations=devs)
            continue
        if got != want:
            R.bad(f'{at} value', 'decoded PDU differs from the one encoded: '
                  + str(diff(got, want) if got else 'createPdu returned None'),
                  octets=octets, deviations=devs)
    R.sample(dict(unit=u, last_octets=octets[:120], value=str(want)[:300]))


def one_object(name, tier, R):
    """One object put in several places of a message: each place holds it."""
    places = None
    for v0, places in aliased(name, tier):
        v, o = alias(v0, places)
        key = f'{name} one object at ' + ' and '.join('.'.join('[]' if isinstance(k, int) else k for k in p) for p in places[0])
        try:
            b = ser(o)
            R.state(b)
            R.transitions += 2
            R.traces += 1
            got = read(PduFactory.createPdu(b))
        except Exception as e:
            R.bad(key, f'{type(e).__name__}: {e}', places=places)
            continue
        if got != v:
            R.bad(key, 'decoded PDU differs from the one encoded: ' + str(diff(got, v)), octets=b, places=places)
    R.sample(dict(unit=(name, 'alias'), last=places))
