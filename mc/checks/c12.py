"""C12 every record class round-trips, consumes what it wrote, reports its size."""
from mc.cases import *

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every record class of the layout table and the PDU classes without factory entry x 3 baselines x list shapes x every leaf over its alphabet x all leaf pairs over 2 values; each decoded from, and encoded at, positions 1 to 7 of a stream as well; every payload through lengths and octet patterns; fields and list lengths that conditions of the source look at, assigned jointly; one object in several places; payloads changed in place after everything was measured',
          'thorough': 'as quick with larger shapes, all pairs over 5 values and 16-bit sweeps'}
ASSUMPTIONS = ['GenericRadio and SimpleIntercomRadio have no octets on the wire (specified as implemented)']
CLASSES = RECORDS + sorted(NOT_DISPATCHED)
LENGTH_FIELD = ['IOCommunicationsNode', 'IOEffect', 'BlankingSector', 'AngleDeception',
                'FalseTargetsAttribute']


def tasks(tier):
    return units(CLASSES, tier) + [('lengthfields', 'lengthfields'), ('declared', 'declared')] + [(n, 'alias', tier) for n in CLASSES if n not in LENGTH_ARG] + [
        (n, 'morph', tier) for n in CLASSES if n in SPECS and payloads(gen(n, 'dist', payload_shapes(n)[0]))]


def run(u, R):
    name = u[0]
    if u[1] == 'lengthfields':
        return lengthfields(R)
    if u[1] == 'declared':
        return declared(R)
    if u[1] in ('alias', 'morph'):
        return again(name, u[1], u[2], R)
    base, octets = Base(), b''
    for v, b, devs in cases(u):
        want, octets = expected(v, b, devs)
        at = where(name, v, devs, u)
        R.state((name, octets))
        R.transitions += 2 + len(devs)
        R.traces += 1
        try:
            got = base.octets(v, devs)
        except Exception as e:
            R.bad(f'{at} encode', f'in-range record cannot be encoded: {type(e).__name__}: {e}',
                  deviations=devs)
            continue
        if got != octets:
            R.bad(f'{at} layout', 'encoding differs from the layout: ' + bdiff(got, octets),
                  got=got, expected=octets, deviations=devs)
            continue
        size(base.o, len(got), R, at)
        try:
            # what follows the record belongs to the next one
            o, used = parse_new(name, octets) if name in LENGTH_ARG else parse_new(name, octets + b'\xa5' * 9)
            R.evaluations += 1
            elsewhere(name, octets, want, base.o, R.evaluations % 7 + 1, R, at)
            val = read(o)
        except Exception as e:
            R.bad(f'{at} decode', f'own encoding cannot be decoded: {type(e).__name__}: {e}',
                  octets=octets, deviations=devs)
            continue
        if val != want:
            R.bad(f'{at} value', 'decoded record differs: ' + str(diff(val, want)), octets=octets,
                  deviations=devs)
        if used != len(octets):
            R.bad(f'{at} consumed', f'decoding consumed {used} of {len(octets)} octets',
                  octets=octets)
        size(o, len(octets), R, at)
    R.sample(dict(unit=u, octets=octets[:60]))


def again(name, kind, tier, R):
    """One object in several places of a record; payloads changed in place."""
    done = None
    for v, done in aliased(name, tier) if kind == 'alias' else ():
        v, o = alias(v, done)
        whole(name, v, o, R, f'{name} one object in two places', done)
    for v, o, done in morphs(name, tier) if kind == 'morph' else ():
        whole(name, v, o, R, f'{name} payload changed', done)
    R.sample(dict(unit=(name, kind), last=done))


def whole(name, v, o, R, key, done):
    R.state((name, str(done)))
    R.transitions += 2
    R.traces += 1
    want = encode(v)
    try:
        got = ser(o)
        if got == want:
            size(o, len(got), R, key)
            p, used = parse_new(name, got) if name in LENGTH_ARG else parse_new(name, got + b'\xa5' * 9)
    except Exception as e:
        R.bad(key, f'{type(e).__name__}: {e}', done=done)
        return
    if got != want:
        R.bad(key + ' layout', 'encoding differs from the layout: ' + bdiff(got, want), got=got, expected=want, done=done)
    elif read(p) != v or used != len(got):
        R.bad(key + ' value', f'{used} of {len(got)} octets consumed; ' + str(diff(read(p), v)), octets=got, done=done)


def elsewhere(name, octets, want, o, n, R, at):
    """The same record in a stream that does not begin with it."""
    st = io.BytesIO(b'\x5a' * n + octets + b'\xa5' * 9)
    st.seek(n)
    if SPECS[name].svr is not None:
        p = dis7.parseStandardVariableRecord(DataInputStream(st), klass('StandardVariableRecord'))
    else:
        p = new(name)
        p.parse(*[DataInputStream(st)] + [len(octets)] * (name in LENGTH_ARG))
    if st.tell() - n != len(octets) or read(p) != want:
        R.bad(f'{at} position', f'decoded from position {n} of a stream: {st.tell() - n} of {len(octets)} octets, '
              + str(diff(read(p), want)), octets=octets)
    st = io.BytesIO()
    st.write(b'\x5a' * n)
    p.serialize(DataOutputStream(st))
    if st.getvalue() != b'\x5a' * n + octets:
        R.bad(f'{at} position encode', f'encoded at position {n} of a stream: ' + bdiff(st.getvalue()[n:], octets))


def size(o, n, R, at):
    f = getattr(o, 'marshalledSize', None)
    if f is not None and f() != n:
        R.bad(f'{at} size', f'marshalledSize() is {f()} but the record has {n} octets')


def lengthfields(R):
    """Records with a length field of their own: it must be their length."""
    for name in LENGTH_FIELD:
        o = build(gen(name, 'dist'))
        b = ser(o)
        R.state(name)
        R.transitions += 1
        R.traces += 1
        for what, n in (('wire', int.from_bytes(b[4:6], 'big')), ('attribute', o.recordLength)):
            if n != len(b):
                R.bad(f'{name} {what} record length',
                      f'{name} declares {n} octets and encodes to {len(b)}')


def declared(R):
    """Default-constructed instances of every class encode, decode and report
    their size, and every codec class of the library is in the model."""
    import inspect
    for name in CLASSES:
        o = new(name)
        if name == 'EnvironmentGeneral':
            o.geometry = 0        # has no default
        b = ser(o)
        R.state(name)
        R.transitions += 2
        R.traces += 1
        if name not in LENGTH_ARG:
            o2, n = parse_new(name, b)
            if n != len(b) or ser(o2) != b:
                R.bad(f'{name} default', f'default record of {len(b)} octets decodes from {n}')
        size(o, len(b), R, f'{name} default')
    missing = [n for n, c in vars(dis7).items() if inspect.isclass(c)
               and c.__module__.startswith('opendis') and hasattr(c, 'serialize')
               and hasattr(c, 'parse') and n not in SPECS]
    R.add('classes_outside_model', len(missing))
    R.sample(dict(outside=missing))
