"""Writes mc/ctors.json: for every class the constructor arguments in order and
the value of an object constructed without arguments.  Run once, by hand, on
the reference tree; the result is reviewed and committed."""
import inspect, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc.spec import *
from mc.run import jsonable

out = {}
for n, s in SPECS.items():
    c = klass(n)
    ps = [p for p in inspect.signature(c.__init__).parameters if p not in ('self', 'args', 'kwargs')]
    fs = []
    for f in s.fields:
        if f in HEADER or f.kind in ('pad', 'const', 'align', 'ptype', 'count', 'bitlen', 'octlen', 'ifflen'):
            continue
        fs += [a for a, _ in f.extra if a] if f.kind == 'bits' else [f.ctor]
    o = c()
    try:
        d = jsonable(read(o))
    except Exception as e:
        print(n, e)
        d = None
    out[n] = dict(args=ps, fields=[p for p in ps if p in fs], default=d)
json.dump(out, open(os.path.join(HERE, 'ctors.json'), 'w'), indent=0)

def nz(x, p=''):
    if isinstance(x, dict):
        for k, y in x.items():
            if k != '#':
                yield from nz(y, p + '.' + k)
    elif isinstance(x, list):
        for i, y in enumerate(x):
            yield from nz(y, p + f'[{i}]')
    elif x not in (0, '0' * 16, None, ''):
        yield p, x
for n, d in out.items():
    for p, x in nz(d['default']):
        if not (n.endswith('Pdu') and p in ('.protocolVersion', '.protocolFamily')):
            print(n, p, x)
