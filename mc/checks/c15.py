"""C15 entity marking text is preserved."""
from mc.cases import *

LEVEL = 'model_checking'
BOUNDS = {'quick': 'all sequences of up to 3 operations over 37 letters (set a text of each length 0..13 in two alphabets and some longer, record trip, PDU trip, receive 4 raw markings) on the marking of an entity state PDU; every ASCII character in every position; every octet value in every position received; all pairs of positions over 8 octet values; every character set; every short text and number of the source (seven variants, after six others); the contents of C01 for the entity state message',
          'thorough': 'sequences of up to 4 operations; all pairs of positions over 32 octet values'}
ASSUMPTIONS = ['charactersString() is claimed for texts without NUL characters that are valid UTF-8']


TEXTS = [''.join(chr(65 + i) for i in range(n)) for n in range(14)] + \
        [''.join(chr(0x7e - i) for i in range(n)) for n in (1, 2, 5, 10, 11, 12, 13)] + \
        ['x' * 100, ' ', ' lead', 'trail ', '26', '0' * 11, 'A B C D E F', '\x01\x7f~!@#$%^&*(', 'zz']
RAW = [bytes(11), bytes(range(65, 76)), b'OLD\0TEXT\0\0\0', b'\xff' * 11]
OPS = [('set', t) for t in TEXTS] + [('trip',), ('pdu',)] + [('raw', r) for r in RAW]


def tasks(tier):
    d = 3 if tier == 'quick' else 4
    out = [('seq', i, d) for i in range(len(OPS))]
    out += [('texts', i, 8) for i in range(8)] + [('msg', u) for u in units(['EntityStatePdu'], tier, pairs=False)]
    out.sort(key=lambda u: u[0] == 'seq')
    return out + [('chars', i) for i in range(11)] + [('octets', i, tier) for i in range(11)] + [('sets',)]


def text_octets(t):
    return t[:11].encode().ljust(11, b'\0')


_BASE = []


def pdu_of(octs, cs=1):
    """An entity state message with a given marking, from the reference encoder."""
    if not _BASE:
        v = gen('EntityStatePdu', 'dist', Shape(dflt=1))
        ls = Leaves()
        b = encode(v, ls)
        off = next(l.off for l in ls if l.path == ('marking', 'characterSet'))
        _BASE.extend([b, off])
    b, off = _BASE
    return b[:off] + bytes([cs]) + octs + b[off + 12:]


def verify(m, octs, R, key, **kw):
    R.traces += 1
    R.transitions += 1
    b = ser(m)
    if b[1:] != octs or len(b) != 12:
        R.bad(f'{key} wire', f'marking octets {b.hex()} ({len(b)}), expected text octets {octs.hex()}', **kw)
    if bytes(m.characters) != octs:
        R.bad(f'{key} characters', f'{list(m.characters)}, expected {list(octs)}', **kw)
    try:
        want = octs.replace(b'\0', b'').decode()
    except UnicodeDecodeError:
        return
    if m.charactersString() != want:
        R.bad(f'{key} text', f'{m.charactersString()!r}, expected {want!r}', **kw)


def kept(key, o, v, b, R):
    """The marking inside a message of any other contents, then a new one."""
    octs = bytes(v['marking']['characters'])
    verify(o.marking, octs, R, key)
    for t in ('new', 'longer than eleven'):
        o.marking.setString(t)
        q = PduFactory.createPdu(ser(o))
        R.transitions += 3
        verify(q.marking, text_octets(t), R, key + ' then set')


def words(u, R):
    """Every text of the library's source as a marking, after several others."""
    for t in texts()[u[1]::u[2]] + [str(n) for n in INT_LITERALS[u[1]::u[2]]]:
        for t in {t, t.upper(), t.lower(), t.strip(), t[:11], ' ' + t, t + ' '}:
            for before in ('', 'previousone', 'A', '26', t[::-1], t):
                R.state((before, t))
                m = dis7.EntityMarking()
                if before:
                    m.setString(before)
                m.setString(t)
                verify(m, text_octets(t), R, 'text', text=t, before=before)
                p = dis7.EntityStatePdu()
                p.marking = m
                R.transitions += 4
                q = PduFactory.createPdu(ser(p)).marking
                verify(q, text_octets(t), R, 'text after a trip', text=t, before=before)
                q.setString(before)
                verify(q, text_octets(before), R, 'text replaced', text=t, after=before)
    R.sample(dict(unit=u, last=t))


def run(u, R):
    if u[0] == 'msg':
        return through(u[1], R, extra=kept)
    if u[0] == 'texts':
        return words(u, R)
    if u[0] == 'seq':
        for d in range(u[2]):
            for rest in itertools.product(OPS, repeat=d):
                seq = (OPS[u[1]],) + rest
                R.nstates += 1
                m, octs = dis7.EntityMarking(), bytes(11)
                for op in seq:
                    R.transitions += 1
                    if op[0] == 'set':
                        m.setString(op[1])
                        octs = text_octets(op[1])
                    elif op[0] == 'trip':
                        b = ser(m)
                        m = dis7.EntityMarking()
                        m.parse(instream(b))
                    elif op[0] == 'pdu':
                        p = dis7.EntityStatePdu()
                        p.marking = m
                        m = PduFactory.createPdu(ser(p)).marking
                    else:
                        m.parse(instream(b'\x01' + op[1]))
                        octs = op[1]
                verify(m, octs, R, f'sequence ending in {seq[-1][0]}', sequence=seq)
        R.sample(dict(first=repr(OPS[u[1]]), last=repr(seq)))
    elif u[0] == 'chars':
        for n in range(u[1] + 1, 12):
            for x in range(1, 128):
                t = 'k' * u[1] + chr(x) + 'k' * (n - u[1] - 1)
                R.state(t)
                p = dis7.EntityStatePdu()
                p.marking.setString('previousone')
                p.marking.setString(t)
                verify(p.marking, text_octets(t), R, 'character', text=t)
                q = PduFactory.createPdu(ser(p))
                verify(q.marking, text_octets(t), R, 'character after a trip', text=t)
                if q.marking.charactersString() != t:
                    R.bad('character text', f'{t!r} comes back as {q.marking.charactersString()!r}')
    elif u[0] == 'octets':
        i = u[1]
        vals = range(256)
        for x in vals:
            for base in (bytes(11), b'\xff' * 11, b'ABCDEFGHIJK'):
                one(base[:i] + bytes([x]) + base[i + 1:], R)
        few = ([0, 1, 32, 65, 127, 128, 0xc3, 255] if u[2] == 'quick'
               else [0, 1, 2, 10, 31, 32, 33, 48, 57, 64, 65, 90, 91, 97, 122, 126, 127, 128, 129, 150, 160, 191,
                     192, 195, 200, 223, 224, 239, 240, 247, 254, 255])
        for j in range(i + 1, 11):
            for x in few:
                for y in few:
                    b = bytearray(b'ABCDEFGHIJK')
                    b[i], b[j] = x, y
                    one(bytes(b), R)
        R.sample(dict(position=i))
    else:
        for cs in range(256):
            one(b'CHARSET\0\0\0\0', R, cs)
            p = dis7.EntityStatePdu()
            p.marking.characterSet = cs
            p.marking.setString('abc')
            b = ser(p)
            at = _BASE[1]
            R.traces += 1
            if b[at:at + 12] != bytes([cs]) + text_octets('abc'):
                R.bad('character set', f'set {cs}: {b[at:at + 12].hex()}')


def one(octs, R, cs=1):
    data = pdu_of(octs, cs)
    R.state(data)
    R.transitions += 2
    p = PduFactory.createPdu(data)
    verify(p.marking, octs, R, 'received', octets=octs)
    if p.marking.characterSet != cs:
        R.bad('received set', f'character set {p.marking.characterSet}, sent {cs}')
    if ser(p) != data:
        R.bad('received wire', 'the message changes: ' + bdiff(ser(p), data), octets=octs)
