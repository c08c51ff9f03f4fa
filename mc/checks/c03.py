"""C03 every field sits where the independent layout table puts it."""
from mc.cases import *

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every PDU class x 3 baselines x list shapes x every leaf over its alphabet and the other contents of C01, library octets compared with the reference encoder and library decoding of reference octets compared with the model value; fields and list lengths that conditions of the source look at, assigned jointly; lists whose elements are equal but for one value',
          'thorough': 'as C01 thorough (all pairs, 16-bit sweeps, long lists) in both directions'}
ASSUMPTIONS = ['the table mc/layout.txt is written from the DIS 7 layouts; entries specified as implemented are listed in DESIGN.md']


def tasks(tier):
    return units(DISPATCHED, tier, pairs=tier == 'thorough', lens=True) + [
        ('EntityDamageStatusPdu', 'standard')]


def run(u, R):
    base, octets = Base(), b''
    name = u[0]
    if u[1] == 'standard':
        return standard(R)
    for v, b, devs in cases(u):
        want, octets = expected(v, b, devs)
        at = where(name, v, devs, u)
        R.state(octets)
        R.transitions += 2 + len(devs)
        R.traces += 2
        try:
            got = base.octets(v, devs)
        except Exception as e:
            got = None
            R.bad(f'{at} encode', f'cannot be encoded: {type(e).__name__}: {e}', deviations=devs)
        if got is not None and got != octets:
            R.bad(f'{at} layout', 'encoded octets differ from the layout table: ' + bdiff(got, octets),
                  got=got, expected=octets, deviations=devs)
        try:
            p = PduFactory.createPdu(octets)
            val = None if p is None else read(p)
        except Exception as e:
            R.bad(f'{at} decode', f'reference octets cannot be decoded: {type(e).__name__}: {e}',
                  octets=octets, deviations=devs)
            continue
        if val != want:
            R.bad(f'{at} read', 'reference octets decode to other values: '
                  + str(diff(val, want) if val else 'None'), octets=octets, deviations=devs)
    R.sample(dict(unit=u, octets=octets[:120]))


def standard(R):
    """Layouts where the library is known to leave the standard."""
    o = build(gen('EntityDamageStatusPdu', 'zero', Shape(dflt=0)))
    R.traces += 1
    R.transitions += 1
    n = len(ser(o))
    R.state(n)
    if n != 12 + 6 + 4 + 2:
        R.bad('EntityDamageStatusPdu standard layout',
              f'{n} octets without records, DIS 7 Entity Damage Status has 24 (damaged entity ID, padding, count)')
