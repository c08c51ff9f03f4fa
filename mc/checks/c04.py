"""C04 the PDU type octet alone selects the decoder."""
from mc.cases import *

LEVEL = 'model_checking'
BOUNDS = {'quick': 'all 256 type octets x all 256 values of each other header octet; all ordered pairs of type octets decoded in sequence; every type after messages of one or all types were cut short or refused; both entry points; the contents of C01 (every leaf over its alphabet, literal pairs, list shapes and lengths) for every supported type; every octet 12..59 of five bodies and 290 lengths for every unsupported one; fields and list lengths that conditions of the source look at, assigned jointly',
          'thorough': 'as quick, plus all type octets x all pairs of header octets over 9 values, all triples of supported types in sequence'}
TABLE = {SPECS[n].pdu: n for n in DISPATCHED}


def tasks(tier):
    out = [('header', t, t + 8, tier) for t in range(0, 256, 8)]
    out += [('pairs', t, t + 16, tier) for t in range(0, 256, 16)]
    if tier == 'thorough':
        out += [('triples', t) for t in sorted(TABLE)]
        out += [('two', t, t + 4) for t in range(0, 256, 4)]
    out += [('body', t, t + 32) for t in range(0, 256, 32)]
    out += [('content',) + u for u in units(DISPATCHED, tier, pairs=tier == 'thorough')]
    out.sort(key=lambda u: u[0] != 'content')
    return out + [('declared',)] + [('failures', k) for k in ('up', 'down', 'one by one', 'records')]


BODY = {}


def body(t):
    """A well-formed message of the type, or arbitrary octets."""
    if t not in BODY:
        n = TABLE.get(t)
        b = encode(gen(n, 'dist')) if n else bytes(range(1, 201))
        BODY[t] = b[:2] + bytes([t]) + b[3:]
    return BODY[t]


def name_of(p):
    return None if p is None else type(p).__name__


def check(t, data, R, key):
    R.transitions += 1
    R.traces += 1
    p = PduFactory.createPdu(data)
    if name_of(p) != TABLE.get(t):
        R.bad(f'type {t} {key}', f'createPdu gives {name_of(p)}, the type octet says {TABLE.get(t)}',
              octets=data)
        return None
    if p is not None and p.pduType != t:
        R.bad(f'type {t} pduType', f'decoded pduType is {p.pduType}', octets=data)
    return p


def failures(kind, R):
    """Messages cut short, and records that are refused, change no later choice."""
    order = sorted(TABLE, reverse=kind == 'down')
    for k, t in enumerate(order):
        b = body(t)
        cuts = [len(b) - 1, 12, 5, len(b) // 2, 0] if kind == 'one by one' else [max(3, len(b) - 1)]
        for n in cuts:
            R.transitions += 1
            R.state((kind, t, n))
            try:
                if kind == 'records':
                    PduFactory.createPdu(bytes([7, 1, t, 1]) + b'\xff' * 60)
                else:
                    PduFactory.createPdu(b[:n])
            except Exception:
                pass
            for s in sorted(TABLE) if kind != 'one by one' else {t, order[k - 1], order[(k + 1) % len(order)], 1, 25, 3}:
                check(s, body(s) if s in TABLE else bytes([7, 1, s, 1]) + bytes(60), R, 'after messages that failed')
    for s in range(256):
        check(s, body(s), R, 'after messages that failed')
    R.sample(dict(unit=kind, types=len(order)))


def run(u, R):
    if u[0] == 'content':
        t = SPECS[u[1]].pdu
        for v, b, devs in cases(u[1:]):
            for leaf, x in devs:
                b = patch(b, leaf, x)
            R.state(b)
            check(t, b, R, where(u[1], v, devs, u[1:]))
    elif u[0] == 'body':
        # octets behind the header of an unsupported type do not make it one
        for t in range(u[1], u[2]):
            if t in TABLE:
                continue
            for src in (bytes(range(1, 201)), bytes(200), body(1), body(67), body(23)):
                for pos in range(12, 60):
                    for x in range(0, 256, 1 if src[40] == 41 else 15):
                        R.nstates += 1
                        check(t, src[:2] + bytes([t]) + src[3:pos] + bytes([x]) + src[pos + 1:], R, f'octet {pos}')
            for n in sorted(set(range(12, 300)) | {512, 1024, 1500, 4096, 8192, 65535, 65536}):
                R.nstates += 1
                check(t, bytes([7, 1, t, 1]) + bytes(n - 4), R, 'length')
        R.sample(dict(unsupported=[u[1], u[2] - 1]))
    elif u[0] == 'header':
        for t in range(u[1], u[2]):
            b = body(t)
            R.state((t,))
            check(t, b, R, 'plain')
            check(t, b + b'\x01\x02' + b, R, 'trailing')
            for pos in range(12):
                if pos == 2:
                    continue
                for x in range(256):
                    R.state((t, pos, x))
                    check(t, b[:pos] + bytes([x]) + b[pos + 1:], R, f'octet {pos}')
            p = PduFactory.getPdu(instream(b))
            if name_of(p) != TABLE.get(t):
                R.bad(f'type {t} getPdu', f'getPdu gives {name_of(p)}')
            if TABLE.get(t) is None:
                # an unsupported type is refused politely whatever its length
                for n in range(3, 40):
                    check(t, b[:n], R, f'unsupported short')
        R.sample(dict(types=[u[1], u[2] - 1], first=body(u[1])[:16]))
    elif u[0] == 'pairs':
        for t in range(u[1], u[2]):
            for s in range(256):
                PduFactory.createPdu(body(t))
                R.transitions += 1
                R.state((t, s))
                check(s, body(s), R, f'after another type')
    elif u[0] == 'failures':
        failures(u[1], R)
    elif u[0] == 'triples':
        for s in sorted(TABLE):
            for r in sorted(TABLE):
                PduFactory.createPdu(body(u[1]))
                PduFactory.createPdu(body(s))
                R.transitions += 2
                R.state((u[1], s, r))
                check(r, body(r), R, f'after two others')
    elif u[0] == 'two':
        vals = (0, 1, 2, 6, 7, 67, 72, 128, 255)
        for t in range(u[1], u[2]):
            b = bytearray(body(t))
            for i in range(12):
                for j in range(i + 1, 12):
                    if 2 in (i, j):
                        continue
                    for x in vals:
                        for y in vals:
                            c = bytearray(b)
                            c[i], c[j] = x, y
                            R.state((t, i, j, x, y))
                            check(t, bytes(c), R, f'octets {i} {j}')
    else:
        for n in DISPATCHED:
            s = SPECS[n]
            R.state(n)
            R.transitions += 2
            R.traces += 1
            o = new(n)
            if (o.pduType, o.protocolFamily) != (s.pdu, s.family):
                R.bad(f'{n} declaration', f'type/family {o.pduType}/{o.protocolFamily}, DIS says {s.pdu}/{s.family}')
            b = ser(o)
            if (b[2], b[3]) != (s.pdu, s.family):
                R.bad(f'{n} wire declaration', f'type/family octets {b[2]}/{b[3]}, DIS says {s.pdu}/{s.family}')
            p = check(s.pdu, b, R, 'default object')
            if p is not None and (type(p).pduType if hasattr(type(p), 'pduType') else p.pduType) != s.pdu:
                R.bad(f'{n} class', f'the class selected declares type {type(p).pduType}')
        R.sample(dict(table={str(k): v for k, v in sorted(TABLE.items())}))
