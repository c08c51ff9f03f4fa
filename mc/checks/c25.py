"""C25 the decoding result depends only on the message."""
import pathlib, shutil, tempfile
from mc.cases import *
from mc.checks.c07 import messages

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every supported message type x every list shape up to 2 (and three baselines) x {bytes, bytearray, memoryview, stream at every position up to 40 and the end, file by text path and path object (50 unusual file names, relative and absolute), open file at several positions} x 14 kinds of trailing data; 17 values of the header length (around the true one) and 23 of the other header fields; messages just above 512 to 65507 octets through each list; unsupported types and every failing cut of three messages per type, through every source; repeated decoding of the same source; the stream and the buffer overwritten after decoding; payloads of 34 to 1034 octets; the contents of C01 from a stream that stands elsewhere and goes on behind the message; fields and list lengths that conditions of the source look at, assigned jointly; the same out of files; messages that begin with any two octets or end with, or are followed by, any octet and pairs of those that end lines and texts',
          'thorough': 'every list shape up to 3 with 1000 shapes for each type; messages up to 131072 octets'}
ASSUMPTIONS = ['files are ordinary files that do not change while they are read']


def tasks(tier):
    return [('octets', p, 16, tier) for p in range(16)] + [('names', n) for n in DISPATCHED[::6]] + [(n, tier) for n in sorted(DISPATCHED, key=lambda n: n not in ('TransmitterPdu', 'DirectedEnergyFirePdu'))] + \
        [('unsupported', i, 8) for i in range(8)] + [('failing', n) for n in DISPATCHED] + \
        [('long', n, tier) for n in DISPATCHED] + [('content', u) for u in units(DISPATCHED, tier, pairs=tier == 'thorough')]


def trailers(data):
    return [b'', b'\0', b'\xff', bytes(range(7)), b'\xff' * 64, bytes(1000), data, data[:5], data[2:], b'\x07\x01\x01\x01',
            bytes(65536 - len(data) % 65536), b'\x01' * 3, b'\x07\x01\x17', data[::-1]]


class Dir:
    """A scratch directory with one file in it."""

    def __init__(self):
        self.d = tempfile.mkdtemp(prefix='mc-c25-')
        self.p = os.path.join(self.d, 'message.raw')

    def put(self, b):
        with open(self.p, 'wb') as f:
            f.write(b)
        os.utime(self.p, ns=(10 ** 18, 10 ** 18))     # nobody can tell by the time
        return self.p

    def get(self):
        with open(self.p, 'rb') as f:
            return f.read()

    def close(self):
        shutil.rmtree(self.d)


def fds():
    return sorted(os.listdir('/proc/self/fd'), key=int)


def sources(b, full, d, few):
    """(kind, function returning (pdu, octets consumed or None)) for each source."""
    def stream(pos, made=io.BytesIO):
        st = made(full)
        st.seek(pos)
        o = PduFactory.getPdu(DataInputStream(st))
        at = st.tell()
        st.seek(0)
        st.write(b'\xa5' * len(full))       # the stream is used for something else
        st.close()
        return o, at

    def held(made):
        x = made(full)
        o = PduFactory.createPdu(x)
        x[:] = b'\xa5' * len(full)           # and so is the buffer
        x.extend(b'1')
        return o, None

    def openfile(pos, **kw):
        with open(d.p, 'rb', **kw) as f:
            f.seek(pos)
            o = PduFactory.getPdu(DataInputStream(f))
            return o, f.tell()

    def again():
        st = DataInputStream(io.BytesIO(full))
        PduFactory.getPdu(st)
        return PduFactory.getPdu(st), st.stream.tell()
    yield 'bytes', lambda: (PduFactory.createPdu(full), None)
    if few is None:
        yield 'stream', lambda: stream(len(full) // 2)
        yield 'file path', lambda: (PduFactory.createPduFromFilePath(d.p), None)
        yield 'open file', lambda: openfile(len(b) // 3)
        yield 'unbuffered file', lambda: openfile(0, buffering=0)
        return
    yield 'a stream decoded twice', again
    ps = {0, 2, 3, len(b), len(full)}
    if not few:
        yield 'bytearray', lambda: held(bytearray)
        yield 'memoryview', lambda: (PduFactory.createPdu(memoryview(full)), None)
        ps |= set(range(0, 41)) | {len(full) + 10}
    for p in sorted(ps):
        yield f'stream at position {p}', lambda p=p: stream(p)
    d.put(full)
    yield 'file path', lambda: (PduFactory.createPduFromFilePath(d.p), None)
    if not few:
        yield 'path object', lambda: (PduFactory.createPduFromFilePath(pathlib.Path(d.p)), None)
        for p in (0, 1, 3, len(b), len(full)):
            yield f'open file at position {p}', lambda p=p: openfile(p)
        yield 'unbuffered file', lambda: openfile(0, buffering=0)


def run(u, R):
    d = Dir()
    try:
        if u[0] == 'content':
            through(u[1], R, at=3)
            filed(u[1], d, R)
        elif u[0] == 'octets':
            octets(u, d, R)
        elif u[0] == 'unsupported':
            unsupported(u, d, R)
        elif u[0] == 'names':
            names(u[1], d, R)
        elif u[0] == 'failing':
            failing(u[1], d, R)
        elif u[0] == 'long':
            long(*u[1:], d, R)
        else:
            decoding(u, d, R)
    finally:
        d.close()


def decoding(u, d, R):
    name, tier = u
    vals = list(messages(name))
    for v in vals:
        each(name, v, d, R, False)
    # the header's own length field is the sender's business: it neither cuts
    # the message nor moves what follows
    for v in vals[:1]:
        n = len(encode(v))
        for x in sorted({0, 1, 3, 11, 12, 13, 16, n - 8, n - 1, n, n + 1, n + 7, 2 * n, 255, 256, 1024, 65535}):
            each(name, dict(v, length=x), d, R, True)
        for k, xs in (('protocolVersion', (0, 1, 4, 5, 6, 7, 8, 255)), ('exerciseID', (0, 1, 255)),
                      ('protocolFamily', (0, 1, 5, 255)), ('timestamp', (0, 1, 0x80000000, 0xffffffff)), ('pduStatus', (0, 1, 128, 255))):
            for x in xs:
                if k in v:
                    each(name, dict(v, **{k: x, 'length': n}), d, R, True)
    for site in payloads(vals[0]):
        for n in (34, 66, 130, 258, 1034):
            w = refill(vals[0], site, n * (8 if site[2] == 'vdata' else 1), lambda i, k: 7 * i + 3)
            if w is None:
                continue
            try:
                encode(w)
            except struct.error:
                continue
            each(name, w, d, R, True)
    for sh in shapes(name, 2 if tier == 'quick' else 3, 30 if tier == 'quick' else 1000):
        if max(sh.top.values(), default=0) <= 3:
            each(name, gen(name, 'dist', sh), d, R, True)
    R.sample(dict(message=name, octets=len(encode(vals[0]))))


SIZES = [512, 1024, 1500, 2048, 4096, 8192, 16384, 32768, 65507, 65536, 131072]


def long(name, tier, d, R):
    """Messages just above sizes at which buffers end, as far as the counts of
    their lists allow."""
    for f in listfields(name):
        cap = capacity(name, f) or 70000
        size = lambda n: len(encode(gen(name, 'dist', Shape({f.attr: n}))))
        step = size(2) - size(1) or 1
        for s in SIZES[:None if tier == 'thorough' else 9]:
            n = max(0, (s - size(0)) // step + 1)
            if n > cap:
                break
            v = gen(name, 'dist', Shape({f.attr: n}))
            b = encode(v)
            for t in (b'', b'\xff' * 70):
                full = b + t
                d.put(full)
                before = fds()
                for kind, get in list(sources(b, full, d, None)):
                    R.state((name, len(b), hash(full), kind))
                    R.traces += 1
                    R.transitions += 1
                    try:
                        o, used = get()
                    except Exception as e:
                        R.bad(f'{name} long from {kind}', f'{name} of {len(b)} octets from {kind}: {type(e).__name__}: {e}')
                        continue
                    got = o and read(o)
                    if got != v:
                        R.bad(f'{name} long from {kind}', f'{name} of {len(b)} octets from {kind}: ' + str(diff(got, v)))
                    if used is not None and used != len(b):
                        R.bad(f'{name} long consumed', f'{name} from {kind}: {used} of {len(b)} octets consumed')
                if fds() != before or d.get() != full:
                    R.bad('long file', f'{name} of {len(b)} octets: file left open or changed')
    R.sample(dict(unit=('long', name)))


def each(name, v, d, R, few):
    b = encode(v)
    for j, t in enumerate(trailers(b)):
        if few and j not in (0, 4, 6):
            continue
        full = b + t
        before = fds()
        for kind, f in sources(b, full, d, few):
            R.state((name, len(b), hash(full), kind))
            R.traces += 1
            R.transitions += 1
            o, n = f()
            if o is None:
                R.bad(f'{name} from {kind.split(" at ")[0]}', f'{name} from {kind} with {len(t)} octets following is not decoded')
                continue
            got = read(o)
            if got != v:
                R.bad(f'{name} from {kind.split(" at ")[0]}', f'{name} from {kind} with {len(t)} octets following: '
                      + str(diff(got, v)), octets=b, following=t[:40])
            if n is not None and n != len(b):
                R.bad(f'{name} consumed', f'{name} from {kind} with {len(t)} octets following: {n} of {len(b)} octets consumed')
            if fds() != before and 'open file' not in kind:
                R.bad(f'file left open', f'{name} from {kind} leaves a file open')
                before = fds()
        if d.get() != full:
            R.bad('file changed', f'{name}: the file holding the message has changed')


def unsupported(u, d, R):
    types = {SPECS[n].pdu for n in DISPATCHED}
    for n in range(u[1], 256, u[2]):
        if n in types:
            continue
        for size in (3, 12, 200):
            b = (bytes([7, 1, n, 1]) + bytes(range(200)))[:size]
            before = fds()
            for kind, f in sources(b, b, d, False):
                R.state((n, size, kind))
                R.traces += 1
                R.transitions += 1
                o, _ = f()
                if o is not None:
                    R.bad('unsupported type', f'type {n} from {kind} decodes to {type(o).__name__}')
            if fds() != before or d.get() != b:
                R.bad('unsupported type file', f'type {n}: file left open or changed')
    R.sample(dict(unit=u))


NAMES = ['$HOME', '${HOME}', '~', '~root', '%s', '%(x)s', '{}', '{0}', ' lead', 'trail ', 'a b', 'tab\tname', 'line\nname', 'é', '日本', '\udcff',
         'a.gz', 'a.bz2', 'a.xz', 'a.zip', 'a.txt', 'a.raw', 'a.bin', 'a.pcap', 'a.json', 'a.pdu', 'A.RAW', '.hidden', '-', '-n', '*', '?', '[a]', "quo'te", 'quo"te',
         'back\\slash', 'a;b', 'a|b', 'file:x', 'http:x', '0', '1', '255', 'None', 'stdin', 'x' * 200, 'a..b', '...', '#', '@', '&', '\x01']


def names(name, d, R):
    """What a file is called, and how its path is written, is of no account."""
    v = messages(name)[0]
    b = encode(v)
    here = os.getcwd()
    sub = os.path.join(d.d, 'sub dir')
    os.mkdir(sub)
    try:
        os.chdir(sub)
        for x in NAMES:
            with open(os.path.join(sub, x), 'wb') as f:
                f.write(b)
            full = os.path.join(sub, x)
            for kind, p in (('absolute', full), ('path object', pathlib.Path(full)), ('relative', x), ('dotted', './' + x),
                            ('upward', '../sub dir/' + x), ('doubled', sub + '//./' + x), ('relative path object', pathlib.Path(x))):
                R.state((name, x, kind))
                R.traces += 1
                R.transitions += 1
                before = fds()
                try:
                    got = read(PduFactory.createPduFromFilePath(p))
                except Exception as e:
                    R.bad(f'file name {x!a}', f'{name} from the file {p!a}: {type(e).__name__}: {e}'.encode('ascii', 'backslashreplace').decode())
                    continue
                if got != v:
                    R.bad(f'file name {x!a}', f'{name} from the file {p!a}: ' + str(diff(got, v)))
                if fds() != before:
                    R.bad('file left open', f'{name} from the file {p!a} leaves a file open')
            os.remove(full)
        # a link, a file without permission to be written, one that is empty, a directory
        with open('target', 'wb') as f:
            f.write(b)
        os.symlink('target', 'link')
        os.chmod('target', 0o400)
        for x in ('link', 'target'):
            R.traces += 1
            R.transitions += 1
            if read(PduFactory.createPduFromFilePath(x)) != v:
                R.bad('file link', f'{name} from a {x} differs')
        for x in ('absent', '.', ''):
            R.traces += 1
            R.transitions += 1
            before = sorted(os.listdir('.'))
            try:
                PduFactory.createPduFromFilePath(x)
            except OSError:
                pass
            else:
                R.bad('file absent', f'decoding from the path {x!r} gives a result')
            if sorted(os.listdir('.')) != before:
                R.bad('file absent', f'decoding from the path {x!r} leaves a file')
    finally:
        os.chdir(here)
    R.sample(dict(message=name, names=len(NAMES)))


def filed(u, d, R):
    """The contents of C01 out of files."""
    if u[1] in ('pairs', 'lits', 'sweep') or u[1] == 'leaf' and u[2] != 'dist':
        return
    for v, b, devs in cases(u):
        v, b = expected(v, b, devs)
        d.put(b)
        R.traces += 1
        R.transitions += 1
        try:
            got = read(PduFactory.createPduFromFilePath(d.p))
        except Exception as e:
            R.bad(where(u[0], v, devs, u) + ' from a file', f'{type(e).__name__}: {e}', octets=b)
            continue
        if got != v:
            R.bad(where(u[0], v, devs, u) + ' from a file', 'decoded values differ: ' + str(diff(got, v)), octets=b)


ENDS = [0, 1, 4, 9, 10, 12, 13, 26, 27, 32, 0x7f, 0x80, 0x85, 0xa0, 0xfe, 0xff]


def octets(u, d, R):
    """A message that begins with any two octets, that ends with any octet or any
    two of those that end lines and texts, or is followed by them."""
    _, part, parts, tier = u
    names = sorted(DISPATCHED)
    last = []
    for n in names:
        v = gen(n, 'dist', main_shapes(n)[0])
        b, ls = leaves_of(v)
        tail = [l for l in ls if l.typ in INT and l.off + INT[l.typ][0] == len(b)] if ls else []
        last.append((n, v, b, {l.path: l for l in ls}, tail[0] if tail and tail[0].typ not in ('b1',) else None))

    def one(n, v, full, used, key):
        R.state((n, full))
        R.traces += 1
        R.transitions += 2
        d.put(full)
        st = io.BytesIO(full)
        for kind, f in (('a file', lambda: PduFactory.createPduFromFilePath(d.p)), ('a stream', lambda: PduFactory.getPdu(DataInputStream(st))),
                        ('octets', lambda: PduFactory.createPdu(full))):
            try:
                got = f()
                got = got and read(got)
            except Exception as e:
                got = f'{type(e).__name__}: {e}'
            if got != v:
                R.bad(f'{key} from {kind}', f'{n} from {kind}: ' + (got if isinstance(got, str) else str(diff(got, v))), octets=full)
        if st.tell() != used:
            R.bad(f'{key} consumed', f'{n}: {st.tell()} of {used} octets consumed')
    for k in range(part, 65536, parts):
        if tier == 'quick' and k >> 8 not in ENDS and k & 255 not in ENDS and k % 5:
            continue
        n, v, b, ls, _ = last[(k // parts + k) % len(last)]
        w, b = expected(v, b, ((ls['protocolVersion',], k >> 8), (ls['exerciseID',], k & 255)))
        one(n, w, b, len(b), 'beginning')
    for i, (n, v, b, ls, tail) in enumerate(last):
        if i % parts != part:
            continue
        ends = [bytes([x]) for x in range(256)] + [bytes([x, y]) for x in ENDS for y in ENDS] + [b'\r\n\r\n', b'\r\n\0', b'\0\r\n', b'EOF', b'\n\n\n']
        for e in ends:
            one(n, v, b + e, len(b), 'following')
            if tail is None:
                continue
            width = INT[tail.typ][0]
            x = (b[-width:-len(e)] + e)[-width:] if len(e) < width else e[-width:]
            y = int.from_bytes(x, 'big', signed=INT[tail.typ][1] < 0)
            w, c = expected(v, b, ((tail, y),))
            one(n, w, c, len(c), 'end')
            one(n, w, c + e, len(c), 'end and following')
    R.sample(dict(unit=u))


def failing(name, d, R):
    """A message cut short is refused from every source, and no file stays open."""
    for v in messages(name):
        b = encode(v)
        for cut in sorted({0, 1, 2, 3, 8, 11, 12, len(b) // 2, len(b) - 1}):
            if cut >= len(b):
                continue
            before = fds()
            held = []
            for kind, f in sources(b[:cut], b[:cut], d, True):
                R.state((name, len(b), cut, kind))
                R.traces += 1
                R.transitions += 1
                try:
                    o, _ = f()
                except Exception as e:
                    held.append(e)
                    continue
                R.bad(f'{name} cut', f'{name} cut to {cut} octets from {kind} gives {type(o).__name__}')
            if fds() != before or d.get() != b[:cut]:
                R.bad('failing file', f'{name} cut to {cut} octets: file left open or changed')
    R.sample(dict(message=name))
