"""C24 the example receiver reports every datagram correctly.

The example scripts are executed as they are, as main programs, with the
sockets and the clock of the Python library replaced by recording stand-ins;
a history is the sequence of datagrams the stand-in delivers.
"""
import contextlib, math, re, runpy, socket, time
from mc.checks.c07 import messages
from mc.checks.c21 import turns, frame
from mc.checks.c20 import wgs, degrees_around, LITS
from mc.spec import *
import numpy as np

LEVEL = 'model_checking'
BOUNDS = {'quick': 'all sequences of up to 4 datagrams over 11 (four entity states, an entity state update, large and small other messages, three unsupported types); every supported message type in three shapes; every unsupported type number; entity states over 28 positions (poles, axes, date line, equator) x 8 headings x 9 pitches (vertical ones) x 7 rolls; each quantity through the neighbourhoods of the numbers in RangeCoordinates.py, alone and with an angle; entity numbers over the 16-bit boundary alphabet; datagram sizes up to 65507 octets; the sender for up to 5 rounds, alone and followed by the receiver',
          'thorough': 'all sequences of up to 5 datagrams'}
ASSUMPTIONS = ['datagrams are complete DIS messages and no entity is at the exact centre of the Earth (it has no latitude)',
               'angles are compared modulo a turn to the two decimals printed']
LABELS = ['Id', 'Latitude', 'Longitude', 'Altitude', 'Yaw', 'Pitch', 'Roll']


class Done(BaseException):
    pass


class FakeSocket:
    """Delivers the datagrams of a history and records what is sent."""
    inbox, sent, ends, cut = [], [], 0, {}

    def __init__(self, *a, **k):
        pass

    def _next(self, n):
        if not FakeSocket.inbox:
            raise Done()
        print(f'\x00{FakeSocket.ends}')
        d = FakeSocket.inbox.pop(0)
        if n < len(d):
            FakeSocket.cut[FakeSocket.ends] = n
        FakeSocket.ends += 1
        return d[:n]

    def recv(self, n, *a):
        return self._next(n)

    def recvfrom(self, n, *a):
        return self._next(n), ('127.0.0.1', 3001)

    def recv_into(self, buf, n=0, *a):
        d = self._next(n or len(buf))
        buf[:len(d)] = d
        return len(d)

    def recvfrom_into(self, buf, n=0, *a):
        return self.recv_into(buf, n), ('127.0.0.1', 3001)

    def sendto(self, data, *a):
        FakeSocket.sent.append((bytes(data), a[-1]))
        return len(data)

    def send(self, data, *a):
        FakeSocket.sent.append((bytes(data), None))
        return len(data)

    sendall = send

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __getattr__(self, name):
        return lambda *a, **k: None


def main_program(script, inbox, rounds=None):
    """Run an example as a main program; (text printed, exception or None)."""
    FakeSocket.inbox, FakeSocket.sent, FakeSocket.ends, FakeSocket.cut = list(inbox), [], 0, {}
    left = [rounds]

    def sleep(_):
        if rounds is not None:
            left[0] -= 1
            if left[0] <= 0:
                raise Done()
    keep = socket.socket, time.sleep
    socket.socket, time.sleep = FakeSocket, sleep
    out = io.StringIO()
    err = None
    try:
        with contextlib.redirect_stdout(out):
            runpy.run_path(os.path.join(REPO, 'examples', script), run_name='__main__')
    except Done:
        pass
    except Exception as e:
        err = e
    finally:
        socket.socket, time.sleep = keep
    return out.getvalue(), err


# ------------------------------------------------------------ expectations

def entity(num, lat, lon, alt, yaw, pitch, roll):
    """(datagram, expected report) of an entity state in degrees and metres."""
    M = frame(math.radians(lat), math.radians(lon)) @ turns(*map(math.radians, (yaw, pitch, roll)))
    v = gen('EntityStatePdu', 'dist', Shape(dflt=1))
    x, y, z = wgs(lat, lon, alt)
    psi, th = math.atan2(M[1][0], M[0][0]), math.atan2(-M[2][0], math.hypot(M[0][0], M[1][0]))
    B = turns(psi, th, 0.0).T @ M          # what is left is the turn about the body axis
    ph = math.atan2(B[2][1], B[1][1])
    v = put(v, ('entityID', 'entityNumber'), num)
    if abs(lat) == 90:
        x = y = 0.0
    v['entityLocation'] = dict(v['entityLocation'], x=fl(x), y=fl(y), z=fl(z))
    f32 = lambda a: fl(struct.unpack('>f', struct.pack('>f', a))[0])
    v['entityOrientation'] = dict(v['entityOrientation'], psi=f32(psi), theta=f32(th), phi=f32(ph))
    return encode(v), dict(name='EntityStatePdu', Id=num, Latitude=lat, Longitude=lon, Altitude=alt, Yaw=yaw,
                           Pitch=pitch, Roll=roll, **({'axes': M} if abs(lat) > 89.9 or abs(pitch) > 89 else {}))


def plain(name, v):
    return encode(v), dict(name=name)


def unsupported(n, size=12):
    b = bytes([7, 1, n, 1]) + (bytes(range(1, 255)) * 6)[:size - 4]
    return b, dict(number=n)


def alphabet24():
    big = gen('SetDataPdu', 'dist', Shape(dict(fixedDatumRecords=400, variableDatumRecords=3)))
    return [entity(42, 36.6, -121.9, 1.0, 10.0, 20.0, 30.0), entity(7, -33.25, 151.5, 2500.0, 200.0, -35.0, -80.0),
            entity(65535, 80.5, 3.0, -20.0, 359.0, 5.0, 175.0), entity(0, -0.5, 179.5, 12000.0, 95.0, 60.0, -1.0),
            plain('EntityStateUpdatePdu', gen('EntityStateUpdatePdu', 'dist')), plain('SetDataPdu', big),
            plain('FirePdu', gen('FirePdu', 'max')), plain('CommentPdu', gen('CommentPdu', 'zero', Shape(dflt=0))),
            unsupported(28), unsupported(255, 1500), unsupported(0)]


def judge(text, err, want, R, key, **case):
    """Compare what was printed with the expected reports, in order."""
    R.traces += 1
    R.transitions += len(want)
    parts = text.split('\x00')[1:]
    if len(parts) != len(want) and not err:
        return R.bad(f'{key} stops', f'{len(parts)} of {len(want)} datagrams were read', **case)
    for i, (p, w) in enumerate(zip(parts, want)):
        cut = FakeSocket.cut.get(i)
        if cut is not None:
            R.bad(f'receive buffer of {cut} octets', f'a datagram of {w.get("size")} octets is cut to {cut}', **case)
            if err and i == len(parts) - 1:
                return
            continue
        if err and i == len(parts) - 1:
            k = f'{key} stops'
            if 'number' in w:
                k = f'unsupported type stops the receiver with {type(err).__name__}'
            return R.bad(k, f'the receiver stopped at datagram {i} with {type(err).__name__}: {err}', **case)
        e = mismatch(p, w)
        if e and w['name' if 'name' in w else 'number'] == 'EntityStatePdu' and \
                not mismatch(p, dict(w, swap=True)):
            R.bad('yaw and roll change places', f'datagram {i}: {e}', printed=p, expected=w, **case)
        elif e:
            return R.bad(f'{key} report', f'datagram {i}: {e}', printed=p, expected=w, **case)


def mismatch(text, w):
    heads = re.findall(r'^Received\b(.*)$', text, re.M)
    if len(heads) != 1:
        return f'{len(heads)} reports for one datagram: {text!r}'
    if 'number' in w:
        if not re.search(rf'(?<![\w.]){w["number"]}(?![\w.])', heads[0]):
            return f'unsupported type {w["number"]} is reported as {heads[0]!r}'
        return None
    if not re.search(rf'(?<!\w){w["name"]}(?!\w)', heads[0]):
        return f'{w["name"]} is reported as {heads[0]!r}'
    got = {}
    for k, x in re.findall(r'^\s*(\w+)\s*:\s*(\S+)', text, re.M):
        if k in got:
            return f'{k} is shown twice'
        got[k] = x
    if w['name'] != 'EntityStatePdu':
        m = re.search(r'(\d+) bytes', heads[0])
        if not m or int(m[1]) != w.get('size', int(m[1])):
            return f'size: {heads[0]!r}, {w.get("size")} octets were received'
        return None
    for k in LABELS:
        if k not in got:
            return f'{k} is not shown'
        try:
            x = float(got[k])
        except ValueError:
            return f'{k} is {got[k]!r}'
        got[k] = x
    if w.get('swap'):
        got['Yaw'], got['Roll'] = got['Roll'], got['Yaw']
    if 'axes' in w:
        # longitude, heading and roll are not unique: compare the axes
        M = frame(*[math.radians(got[k]) for k in ('Latitude', 'Longitude')]) @ \
            turns(*[math.radians(got[k]) for k in ('Yaw', 'Pitch', 'Roll')])
        if not np.abs(M - w['axes']).max() <= 5e-4:
            return f'the angles shown {got} turn the axes to {M.tolist()}, sent were {w["axes"].tolist()}'
    for k in LABELS:
        x = got[k]
        if 'axes' in w and k in ('Longitude', 'Yaw', 'Roll') and not (k == 'Longitude' and abs(w['Latitude']) < 89.9):
            continue
        d = abs(x - w[k])
        if k in ('Longitude', 'Yaw', 'Roll'):
            d = min(d % 360, -d % 360)
        if not d <= {'Id': 0, 'Altitude': 0.51}.get(k, 0.0051 + w.get('tol', 0.001)):
            return f'{k} is {got[k]}, expected {w[k]}'
    return None


# ------------------------------------------------------------ exploration

PLACES = [(0.5, 0.5, 0.0), (36.6, -121.9, 1.0), (-33.0, 151.0, 100.0), (60.0, 179.0, 5e4), (-60.0, -179.0, -50.0),
          (89.0, 45.0, 10.0), (-89.0, -45.0, 2e3), (1.0, 90.0, 7.0), (-1.0, -90.0, 8.0), (45.0, 10.0, 4e5),
          (10.0, -170.0, 3e3), (-10.0, 100.0, 1e4), (75.0, -20.0, 0.0), (-45.5, 60.25, 123.0), (20.0, 135.0, 35786000.0),
          (90.0, 0.0, 0.0), (-90.0, 69.0, 0.0), (90.0, 120.0, 5e4), (-90.0, -30.0, 2800.0), (0.0, 0.0, 0.0), (0.0, 180.0, 100.0),
          (0.0, 90.0, 0.0), (0.0, -90.0, 0.0), (45.0, 180.0, 0.0), (-45.0, -180.0, 9.0), (89.9999, 12.0, 3.0), (-89.9999, 200.0, 3.0),
          (10.0, 20.0, -6000.0)]

def tasks(tier):
    d = 4 if tier == 'quick' else 5
    n = len(alphabet24())
    return ([('seq', i, d) for i in range(n)] + [('types', i, 8) for i in range(8)] + [('numbers',), ('sizes',), ('sender',)]
            + [('lits', i, 16, tier) for i in range(16)] + [('attitudes', i) for i in range(len(PLACES))])


def deliver(hist, R, key, **case):
    """hist: (datagram, expected) pairs."""
    R.state(tuple(b for b, _ in hist))
    text, err = main_program('dis_receiver.py', [b for b, _ in hist])
    judge(text, err, [dict(w, size=len(b)) for b, w in hist], R, key, **case)


def run(u, R):
    if u[0] == 'seq':
        A = alphabet24()
        for d in range(u[2]):
            for rest in itertools.product(range(len(A)), repeat=d):
                seq = (u[1],) + rest
                deliver([A[i] for i in seq], R, 'sequence', sequence=seq)
        R.sample(dict(first=u[1], last=seq))
    elif u[0] == 'types':
        # one long history per message type, with entity states in between
        es = alphabet24()[0]
        for n in DISPATCHED[u[1]::u[2]]:
            if n == 'EntityStatePdu':
                continue
            for v in messages(n):
                deliver([es, plain(n, v), es, plain(n, v)], R, n)
        R.sample(dict(unit=u, last=n))
    elif u[0] == 'numbers':
        known_types = {SPECS[n].pdu for n in DISPATCHED}
        es = alphabet24()[1]
        for n in range(256):
            if n not in known_types:
                deliver([unsupported(n), es, unsupported(n, 40)], R, 'unsupported')
        R.sample(dict(unit=u))
    elif u[0] == 'sizes':
        for n in list(range(0, 300)) + [1000, 4000, 8000, 8180, 8183]:
            v = gen('SetDataPdu', 'dist', Shape(dict(fixedDatumRecords=n, variableDatumRecords=1), c=0))
            if len(encode(v)) <= 65507:
                deliver([plain('SetDataPdu', v)], R, 'size')
        for n in (0, 1, 40, 80, 200, 255):
            v = gen('EntityStatePdu', 'dist', Shape(dflt=n))
            b, w = entity(5, 10.0, 20.0, 30.0, 40.0, 50.0, 60.0)
            x, _ = decode('EntityStatePdu', b)
            x['variableParameters'] = v['variableParameters']
            deliver([(encode(x), w)], R, 'entity state size')
        R.sample(dict(unit=u))
    elif u[0] == 'attitudes':
        lat, lon, alt = PLACES[u[1]]
        hist = [entity(i % 65536, lat, lon, alt, y, p, r) for i, (y, p, r) in enumerate(itertools.product(
            (0.0, 10.0, 90.0, 135.0, 179.0, 200.0, 270.0, 355.0), (0.0, 5.0, 45.0, 85.0, -5.0, -45.0, -85.0, 90.0, -90.0),
            (0.0, 15.0, 90.0, 179.0, -15.0, -90.0, -179.0)))]
        deliver(hist, R, 'attitude')
        for h in hist[1:]:
            R.state(h[0])
        R.sample(dict(position=(lat, lon, alt), entities=len(hist)))
    elif u[0] == 'lits':
        lits(u, R)
    else:
        sender(R)


def lits(u, R):
    """Each quantity through the neighbourhoods of the numbers in the source."""
    _, i, parts, tier = u
    an = [x for x in degrees_around() if abs(x) <= 180]
    al = [x for x in around(LITS) if -6000 <= x < 1e8]
    xs = [(k, x) for k, r in enumerate((90, 180)) for x in an if abs(x) <= r] + [(2, x) for x in al]
    xs += [(3, x % 360) for x in an] + [(4, x) for x in an if abs(x) <= 90] + [(5, x) for x in an]
    hist = []
    for b in ((36.6, -121.9, 100.0, 10.0, 20.0, 30.0), (-45.5, 60.25, 2.5e4, 200.0, -35.0, -80.0)):
        for k, x in xs[i::parts]:
            hist.append(entity(3 + len(hist) % 1000, *b[:k], x, *b[k + 1:]))
        few = [(k, x) for k, x in xs if k > 2][::1 if tier == 'thorough' else 6]
        for k, x in xs[i::parts * (1 if tier == 'thorough' else 4)]:
            for l, y in few:
                if l > k:
                    hist.append(entity(3 + len(hist) % 1000, *b[:k], x, *b[k + 1:l], y, *b[l + 1:]))
        for n in ALPHA['u16'][i::parts]:
            hist.append(entity(n, *b))
    for k in range(0, len(hist), 400):
        deliver(hist[k:k + 400], R, 'neighbourhood')
    for h in hist:
        R.state(h[0])
    R.sample(dict(unit=u, entities=len(hist)))


def sender(R):
    for rounds in range(1, 6):
        text, err = main_program('dis_sender.py', [], rounds)
        R.traces += 1
        R.transitions += rounds
        R.state(rounds)
        if err:
            return R.bad('sender stops', f'the sender stopped with {type(err).__name__}: {err}')
        if len(FakeSocket.sent) != rounds:
            return R.bad('sender count', f'{len(FakeSocket.sent)} datagrams in {rounds} rounds')
        for data, to in FakeSocket.sent:
            if to != ('127.0.0.1', 3001):
                R.bad('sender destination', f'sent to {to}')
            v, n = decode('EntityStatePdu', data)
            if n != len(data):
                R.bad('sender message', f'{len(data)} octets, {n} of them are the message')
            e = v['entityID']
            ids = e['simulationAddress']['site'], e['simulationAddress']['application'], e['entityNumber']
            if ids != (17, 23, 42):
                R.bad('sender identity', f'site, application, entity {ids}')
            if bytes(v['marking']['characters']) != b'Igor3d'.ljust(11, b'\0'):
                R.bad('sender marking', f'marking {v["marking"]["characters"]}')
            pos = tuple(unfl(v['entityLocation'][k]) for k in 'xyz')
            if not math.dist(pos, wgs(36.6, -121.9, 1.0)) <= 1e-3:
                R.bad('sender position', f'position {pos}')
            M = turns(*[unfl(v['entityOrientation'][k]) for k in ('psi', 'theta', 'phi')])
            if not np.abs(M - frame(math.radians(36.6), math.radians(-121.9))).max() < 1e-6:
                R.bad('sender attitude', f'axes {M.tolist()}')
        got = [d for d, _ in FakeSocket.sent]
        w = dict(name='EntityStatePdu', Id=42, Latitude=36.6, Longitude=-121.9, Altitude=1.0, Yaw=0.0, Pitch=0.0, Roll=0.0)
        text, err = main_program('dis_receiver.py', got)
        judge(text, err, [w] * rounds, R, 'sender to receiver')
    R.sample(dict(unit='sender', rounds=rounds))
