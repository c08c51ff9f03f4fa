"""Executable reference model of the DIS 7 wire format used by every codec check.

The model is the table layout.txt (written from the standard, not from the
code).  From it this module derives, without using any code of the library:

  * abstract values: nested dicts {'#': class name, attribute: value}; a float
    is kept as the 8 octets of its big-endian double so that -0.0 and NaN
    compare exactly; a list is a Python list;
  * encode(v): the octets of a value, with the position of every leaf;
  * decode(cls, octets): the value of the octets (reference decoder);
  * generators of values for each list shape and baseline.

build(v) / read(obj) carry values to and from real library objects using only
public attributes.
"""
import io, os, struct, sys, itertools

REPO = os.environ.get('MC_REPO', '/repo')
sys.dont_write_bytecode = True
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
HERE = os.path.dirname(os.path.abspath(__file__))

import opendis                                            # noqa: E402
assert os.path.abspath(opendis.__file__).startswith(REPO + '/'), opendis.__file__
from opendis import dis7, record, PduFactory              # noqa: E402
from opendis.stream import DataInputStream, DataOutputStream  # noqa: E402
import opendis.record.radio, opendis.record.warfare, opendis.record.common  # noqa: E402

INT = {'u8': (1, 0, 255), 'u16': (2, 0, 65535), 'u32': (4, 0, 2**32 - 1),
       'u64': (8, 0, 2**64 - 1), 'i32': (4, -2**31, 2**31 - 1),
       'i64': (8, -2**63, 2**63 - 1), 'b1': (1, 0, 1)}
FMT = {'u8': '>B', 'u16': '>H', 'u32': '>I', 'u64': '>Q', 'i32': '>i',
       'i64': '>q', 'b1': '>B', 'f32': '>f', 'f64': '>d'}
SIZE = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'i32': 4, 'i64': 8, 'b1': 1,
        'f32': 4, 'f64': 8}
SCALAR = set(FMT)


def fl(x):
    """Model representation of a float."""
    return struct.pack('>d', x)


def unfl(b):
    return struct.unpack('>d', b)[0]


class F:
    """One token of the layout table."""
    __slots__ = ('kind', 'attr', 'ctor', 'typ', 'n', 'extra', 'prop')

    def __init__(self, kind, attr=None, typ=None, n=0, extra=None, prop=None, ctor=None):
        self.kind, self.attr, self.typ, self.n = kind, attr, typ, n
        self.extra, self.prop, self.ctor = extra, prop, ctor or attr

    def __repr__(self):
        return f'F({self.kind},{self.attr},{self.typ},{self.n})'


class Spec:
    def __init__(self, name, fields, pdu=None, family=None, svr=None):
        self.name, self.fields = name, fields
        self.pdu, self.family, self.svr = pdu, family, svr

    def lists(self):
        return [f for f in self.fields if f.kind in ('list', 'bytes', 'svr')]


def _tok(t):
    if t == '@DATUMS':
        return [x for s in ('#fixedDatumRecords:u32=numberOfFixedDatumRecords',
                            '#variableDatumRecords:u32=numberOfVariableDatumRecords',
                            'fixedDatumRecords:[FixedDatum]',
                            'variableDatumRecords:[VariableDatum]') for x in _tok(s)]
    if t == '@VARDATUM':
        return [F('sc', 'variableDatumID', 'u32'), F('vlen', 'variableDatumLength', 'u32'),
                F('vdata', 'variableData')]
    if t.startswith('B('):
        bits = []
        for b in t[2:-1].split(','):
            a, n = b.split(':')
            bits.append((None if a == '_' else a, int(n)))
        return [F('bits', extra=bits, n=sum(n for _, n in bits) // 8)]
    a, ty = t.split(':', 1)
    ctor = None
    if '/' in ty:
        ty, ctor = ty.split('/')
    if a[0] in '#^~%':
        prop = None
        if '=' in ty:
            ty, prop = ty.split('=')
        ty = ty.replace('+6', '')
        return [F({'#': 'count', '^': 'bitlen', '~': 'octlen', '%': 'ifflen'}[a[0]],
                  a[1:], ty, prop=prop)]
    if a == '_':
        if ty.startswith('align'):
            return [F('align', n=int(ty[5:]))]
        if ty[0] == 'p':
            return [F('pad', n=int(ty[1:]))]
        if ty[0] == 'k':
            n, v = ty[1:].split('=')
            return [F('const', n=int(n), extra=int(v))]
    if ty in SCALAR:
        return [F('sc', a, ty, ctor=ctor)]
    if '*' in ty:
        b, n = ty.split('*')
        return [F('arr', a, b, n=int(n), ctor=ctor)]
    if ty[0] == '[':
        return [F('list', a, ty[1:-1], ctor=ctor)]
    if ty in ('bytes', 'raw'):
        return [F(ty, a, ctor=ctor)]
    if ty == 'OPT':
        return [F('opt', a)]
    if ty.startswith('SVR('):
        return [F('svr', a, ty[4:-1])]
    return [F('rec', a, ty, ctor=ctor)]


HEADER = [F('sc', 'protocolVersion', 'u8'), F('sc', 'exerciseID', 'u8'),
          F('ptype', 'pduType', 'u8'), F('sc', 'protocolFamily', 'u8'),
          F('sc', 'timestamp', 'u32'), F('sc', 'length', 'u16'),
          F('sc', 'pduStatus', 'u8'), F('pad', n=1)]

SPECS = {}
for _line in open(os.path.join(HERE, 'layout.txt')):
    _line = _line.split('//')[0].strip()
    if not _line:
        continue
    _head, _, _rest = _line.partition(':')
    _h = _head.split()
    _fs = [x for t in _rest.split() for x in _tok(t)]
    if len(_h) == 3:
        SPECS[_h[0]] = Spec(_h[0], HEADER + _fs, pdu=int(_h[1]), family=int(_h[2]))
    elif len(_h) == 2:
        SPECS[_h[0]] = Spec(_h[0], _fs, svr=int(_h[1][1:]))
    else:
        SPECS[_h[0]] = Spec(_h[0], _fs)
USVR = 'UnknownStandardVariableRecord'
PDUS = [s.name for s in SPECS.values() if s.pdu is not None]
RECORDS = [s.name for s in SPECS.values() if s.pdu is None]
NOT_DISPATCHED = {'FastEntityStatePdu', 'AttributePdu'}
DISPATCHED = [p for p in PDUS if p not in NOT_DISPATCHED]
FAMILY_KNOWN = {'VariableTransmitterParametersRecord': ['HighFidelityHAVEQUICKRadio'],
                'DamageDescriptionRecord': ['DirectedEnergyPrecisionAimpoint',
                                            'DirectedEnergyAreaAimpoint',
                                            'DirectedEnergyDamage']}
FAMILY_KNOWN['StandardVariableRecord'] = [x for l in list(FAMILY_KNOWN.values()) for x in l]


# ---------------------------------------------------------------- encoding

class Leaf:
    __slots__ = ('path', 'typ', 'off', 'bits')

    def __init__(self, path, typ, off, bits=None):
        self.path, self.typ, self.off, self.bits = path, typ, off, bits

    def __repr__(self):
        return '.'.join(map(str, self.path)) + ':' + self.typ + '@' + str(self.off)


class Leaves(list):
    """Leaves of an encoding; pads is the bytewise mask of its reserved bits."""

    def __init__(self, raw=False):
        self.pads = {}
        self.raw = raw          # also the ends of the payloads kept as octets

    def octets(self, path, b, off):
        if self.raw:
            for i in sorted({*range(min(4, len(b))), *range(max(0, len(b) - 4), len(b))}):
                self.append(Leaf(path + (i,), 'u8', off + i))

    def pad(self, off, n):
        for i in range(off, off + n):
            self.pads[i] = 255


def pack(typ, val):
    if typ in ('f32', 'f64'):
        val = unfl(val)
    return struct.pack(FMT[typ], val)


def encode(v, leaves=None):
    out = bytearray()
    _enc(v, out, (), leaves)
    return bytes(out)


def _enc(v, out, path, leaves):
    name = v['#']
    start = len(out)
    if name == USVR:
        out += struct.pack('>IH', v['recordType'], 6 + len(v['data'])) + v['data']
        if leaves is not None:
            leaves.octets(path + ('data',), v['data'], start + 6)
        return
    s = SPECS[name]
    if s.svr is not None:
        out += struct.pack('>IH', s.svr, 0)
    for f in s.fields:
        k = f.kind
        if k == 'sc':
            if leaves is not None:
                leaves.append(Leaf(path + (f.attr,), f.typ, len(out)))
                if f.typ == 'b1':
                    leaves.pads[len(out)] = 254
            out += pack(f.typ, v[f.attr])
        elif k == 'ptype':
            out.append(s.pdu)
        elif k == 'pad':
            if leaves is not None:
                leaves.pad(len(out), f.n)
            out += bytes(f.n)
        elif k == 'const':
            out += f.extra.to_bytes(f.n, 'big')
        elif k == 'align':
            if leaves is not None:
                leaves.pad(len(out), -(len(out) - start) % f.n)
            out += bytes(-(len(out) - start) % f.n)
        elif k == 'rec':
            _enc(v[f.attr], out, path + (f.attr,), leaves)
        elif k == 'arr':
            for i, x in enumerate(v[f.attr]):
                if leaves is not None:
                    leaves.append(Leaf(path + (f.attr, i), f.typ, len(out)))
                out += pack(f.typ, x)
        elif k == 'count':
            out += pack(f.typ, len(v[f.attr]))
        elif k == 'bitlen':
            out += pack(f.typ, 8 * len(v[f.attr]))
        elif k == 'ifflen':
            out += pack(f.typ, 6 + len(v[f.attr]))
        elif k == 'octlen':
            x = v[f.attr]
            b = bytearray()
            for y in ([] if x is None else x if isinstance(x, list) else [x]):
                _enc(y, b, (), None)
            out += pack(f.typ, len(b))
        elif k == 'list' and f.typ in SCALAR or k == 'bytes':
            typ = f.typ or 'u8'
            for i, x in enumerate(v[f.attr]):
                if leaves is not None:
                    leaves.append(Leaf(path + (f.attr, i), typ, len(out)))
                out += pack(typ, x)
        elif k in ('list', 'svr'):
            for i, x in enumerate(v[f.attr]):
                _enc(x, out, path + (f.attr, i), leaves)
        elif k == 'raw':
            if leaves is not None:
                leaves.octets(path + (f.attr,), v[f.attr], len(out))
            out += v[f.attr]
        elif k == 'opt':
            if v[f.attr] is not None:
                _enc(v[f.attr], out, path + (f.attr,), leaves)
        elif k == 'bits':
            tot = 8 * f.n
            acc = 0
            sh = tot
            for a, n in f.extra:
                sh -= n
                if a is not None:
                    if leaves is not None:
                        leaves.append(Leaf(path + (a,), 'bit', len(out), (f.n, sh, n)))
                    acc |= v[a] << sh
                elif leaves is not None:
                    for i, m in enumerate((((1 << n) - 1) << sh).to_bytes(f.n, 'big')):
                        if m:
                            leaves.pads[len(out) + i] = leaves.pads.get(len(out) + i, 0) | m
            out += acc.to_bytes(f.n, 'big')
        elif k == 'vlen':
            out += pack('u32', v[f.attr])
        elif k == 'vdata':
            for i, x in enumerate(v[f.attr]):
                if leaves is not None:
                    leaves.append(Leaf(path + (f.attr, i), 'u8', len(out)))
                out.append(x)
            if leaves is not None:
                leaves.pad(len(out), -len(v[f.attr]) % 8)
            out += bytes(-len(v[f.attr]) % 8)
        else:
            raise AssertionError(k)
    if s.svr is not None:
        out[start + 4:start + 6] = struct.pack('>H', len(out) - start)


def patch(data, leaf, val):
    """The octets of the same message with one leaf changed."""
    if leaf.typ == 'bit':
        n, sh, w = leaf.bits
        x = int.from_bytes(data[leaf.off:leaf.off + n], 'big')
        x = x & ~(((1 << w) - 1) << sh) | val << sh
        b = x.to_bytes(n, 'big')
    else:
        b = pack(leaf.typ, val)
    return data[:leaf.off] + b + data[leaf.off + len(b):]


def put(v, path, val):
    """Copy of the value with the leaf at path replaced (shares the rest)."""
    if not path:
        return val
    if isinstance(v, bytes):
        return v[:path[0]] + bytes([val]) + v[path[0] + 1:]
    v = dict(v) if isinstance(v, dict) else list(v)
    v[path[0]] = put(v[path[0]], path[1:], val)
    return v


def get(v, path):
    for p in path:
        v = v[p]
    return v


# ---------------------------------------------------------------- reference decoder

class Bad(Exception):
    pass


class _In:
    def __init__(self, b):
        self.b, self.p = b, 0

    def take(self, n):
        if n < 0 or self.p + n > len(self.b):
            raise Bad('short')
        r = self.b[self.p:self.p + n]
        self.p += n
        return r


def decode(name, data):
    """(value, octets consumed) of a PDU or record by the reference model."""
    i = _In(data)
    v = _dec(name, i)
    return v, i.p


def _unpack(typ, b):
    x = struct.unpack(FMT[typ], b)[0]
    if typ == 'b1':
        x &= 1
    return fl(x) if typ in ('f32', 'f64') else x


def _svr(family, i):
    st = i.p
    rt, ln = struct.unpack('>IH', i.take(6))
    if ln % 8 or ln < 6:
        raise Bad('length')
    for n, s in SPECS.items():
        if s.svr == rt:
            if n not in FAMILY_KNOWN[family]:
                raise Bad('family')
            v = _dec(n, i, st)
            if i.p - st != ln:
                raise Bad('length')
            return v
    return {'#': USVR, 'recordType': rt, 'data': bytes(i.take(ln - 6))}


def modulation_class(system, major, length):
    c = {2: 'BasicHaveQuickMP', 3: 'BasicHaveQuickMP', 4: 'BasicHaveQuickMP',
         6: 'CCTTSincgarsMP'}.get(system)
    return c if c and length == 16 else 'UnknownRadio'


def pattern_class(ptype, length):
    return 'BeamAntennaPattern' if ptype == 1 and length == 40 else 'UnknownAntennaPattern'


def _dec(name, i, start=None):
    s = SPECS[name]
    start = i.p if start is None else start
    v = {'#': name}
    n = {}
    for f in s.fields:
        k = f.kind
        if k in ('sc', 'vlen'):
            v[f.attr] = _unpack(f.typ, i.take(SIZE[f.typ]))
        elif k == 'ptype':
            if i.take(1)[0] != s.pdu:
                raise Bad('type')
        elif k == 'pad':
            i.take(f.n)
        elif k == 'const':
            i.take(f.n)
        elif k == 'align':
            i.take(-(i.p - start) % f.n)
        elif k == 'rec':
            v[f.attr] = _dec(f.typ, i)
        elif k == 'arr':
            v[f.attr] = [_unpack(f.typ, i.take(SIZE[f.typ])) for _ in range(f.n)]
        elif k in ('count', 'bitlen', 'ifflen', 'octlen'):
            x = _unpack(f.typ, i.take(SIZE[f.typ]))
            n[f.attr] = x if k in ('count', 'octlen') else x // 8 if k == 'bitlen' else x - 6
        elif k in ('list', 'svr', 'bytes'):
            if name == 'IntercomControlPdu':
                n[f.attr] //= 8
            if k == 'svr':
                v[f.attr] = [_svr(f.typ, i) for _ in range(n[f.attr])]
            elif k == 'bytes' or f.typ in SCALAR:
                t = f.typ or 'u8'
                v[f.attr] = [_unpack(t, i.take(SIZE[t])) for _ in range(n[f.attr])]
            else:
                v[f.attr] = [_dec(f.typ, i) for _ in range(n[f.attr])]
        elif k == 'raw':
            v[f.attr] = bytes(i.take(n[f.attr]))
        elif k == 'opt':
            ln = n[f.attr]
            if ln == 0:
                v[f.attr] = None
                continue
            if f.attr == 'modulationParameters':
                c = modulation_class(v['modulationType']['radioSystem'],
                                     v['modulationType']['majorModulation'], ln)
            else:
                c = pattern_class(v['antennaPatternType'], ln)
            v[f.attr] = ({'#': c, 'data': bytes(i.take(ln))} if c.startswith('Unknown')
                         else _dec(c, i))
        elif k == 'bits':
            x = int.from_bytes(i.take(f.n), 'big')
            sh = 8 * f.n
            for a, w in f.extra:
                sh -= w
                if a is not None:
                    v[a] = x >> sh & ((1 << w) - 1)
        elif k == 'vdata':
            ln = (v['variableDatumLength'] + 7) // 8
            v[f.attr] = list(i.take(ln))
            i.take(-ln % 8)
    return v


# ---------------------------------------------------------------- real objects

def klass(name):
    for m in (dis7, record, opendis.record.radio, opendis.record.warfare,
              opendis.record.common, opendis.record.base):
        c = getattr(m, name, None)
        if c is not None:
            return c
    raise KeyError(name)


KLASS = {}


def new(v_or_name):
    name = v_or_name if isinstance(v_or_name, str) else v_or_name['#']
    if name == USVR:
        v = v_or_name
        return record.getStandardVariableClass(v['recordType'], klass(v.get('~family', 'StandardVariableRecord')))()
    c = KLASS.get(name)
    if c is None:
        c = KLASS[name] = klass(name)
    return c()


def setlist(obj, attr, val):
    try:
        setattr(obj, attr, val)
    except AttributeError:
        getattr(obj, attr)[:] = val


def tofield(typ, x):
    return unfl(x) if typ in ('f32', 'f64') else x


def build(v, family=None):
    """A real library object holding the value, made with public attributes only."""
    name = v['#']
    if name == USVR:
        o = record.getStandardVariableClass(v['recordType'],
                                            klass(family or 'StandardVariableRecord'))()
        o.data = v['data']
        return o
    o = new(name)
    for f in SPECS[name].fields:
        k = f.kind
        if k == 'sc':
            setattr(o, f.attr, tofield(f.typ, v[f.attr]))
        elif k == 'rec':
            setattr(o, f.attr, build(v[f.attr]))
        elif k == 'arr':
            setattr(o, f.attr, list(v[f.attr]))
        elif k == 'list':
            setlist(o, f.attr, list(v[f.attr]) if f.typ in SCALAR
                    else [build(x) for x in v[f.attr]])
        elif k in ('bytes', 'vdata'):
            setlist(o, f.attr, list(v[f.attr]))
        elif k == 'svr':
            setlist(o, f.attr, [build(x, f.typ) for x in v[f.attr]])
        elif k in ('raw', 'vlen'):
            setattr(o, f.attr, v[f.attr])
        elif k == 'opt':
            setattr(o, f.attr, None if v[f.attr] is None else build(v[f.attr]))
        elif k == 'bits':
            for a, _ in f.extra:
                if a is not None:
                    setattr(o, a, v[a])
    return o


def _num(typ, x):
    if typ in ('f32', 'f64'):
        try:
            return struct.pack('>d', x)
        except (struct.error, TypeError):
            return ('not a float', repr(x))
    if not isinstance(x, int):
        return ('not an int', repr(x))
    return int(x)


def read(o):
    """The model value of a real object (public attributes only)."""
    name = type(o).__name__
    if name == USVR:
        return {'#': USVR, 'recordType': o.recordType, 'data': o.data}
    s = SPECS.get(name)
    if s is None:
        return {'#': 'unexpected ' + name}
    v = {'#': name}
    for f in s.fields:
        k = f.kind
        if k == 'sc':
            v[f.attr] = _num(f.typ, getattr(o, f.attr))
        elif k == 'rec':
            v[f.attr] = read(getattr(o, f.attr))
        elif k == 'arr':
            v[f.attr] = [_num(f.typ, x) for x in getattr(o, f.attr)]
        elif k == 'list':
            x = getattr(o, f.attr)
            v[f.attr] = [_num(f.typ, y) for y in x] if f.typ in SCALAR else [read(y) for y in x]
        elif k in ('bytes', 'vdata'):
            v[f.attr] = list(getattr(o, f.attr))
        elif k == 'svr':
            v[f.attr] = [read(y) for y in getattr(o, f.attr)]
        elif k in ('raw', 'vlen'):
            v[f.attr] = getattr(o, f.attr)
        elif k == 'opt':
            x = getattr(o, f.attr)
            v[f.attr] = None if x is None else read(x)
        elif k == 'bits':
            for a, _ in f.extra:
                if a is not None:
                    v[a] = _num('u8', getattr(o, a))
    return v


def parent(o, path):
    """(container, key, is_list) of the real leaf at path."""
    for p in path[:-1]:
        o = o[p] if isinstance(p, int) else getattr(o, p)
    return o, path[-1], isinstance(path[-1], int)


def setleaf(o, leaf, val):
    c, k, isl = parent(o, leaf.path)
    x = tofield(leaf.typ, val)
    if isl and isinstance(c, bytes):
        d, a, _ = parent(o, leaf.path[:-1])
        setattr(d, a, c[:k] + bytes([x]) + c[k + 1:])
    elif isl:
        c[k] = x
    else:
        setattr(c, k, x)


def ser(o):
    b = io.BytesIO()
    o.serialize(DataOutputStream(b))
    return b.getvalue()


def instream(data):
    return DataInputStream(io.BytesIO(data))


def parse_into(o, data):
    """Parse octets into a record or PDU object; returns octets consumed."""
    st = io.BytesIO(data)
    s = SPECS.get(type(o).__name__)
    if s is not None and s.svr is not None:
        raise AssertionError('use parse_svr')
    name = type(o).__name__
    if name in LENGTH_ARG:
        o.parse(DataInputStream(st), len(data))
    else:
        o.parse(DataInputStream(st))
    return st.tell()


LENGTH_ARG = {'UnknownRadio', 'UnknownAntennaPattern', 'GenericRadio', 'SimpleIntercomRadio',
              'BasicHaveQuickMP', 'CCTTSincgarsMP', 'BeamAntennaPattern'}


def parse_svr(data, family='StandardVariableRecord'):
    st = io.BytesIO(data)
    o = dis7.parseStandardVariableRecord(DataInputStream(st), klass(family))
    return o, st.tell()


def parse_new(name, data):
    """Decode octets into a fresh object of the class: (object, consumed)."""
    s = SPECS.get(name)
    if name == USVR or s is not None and s.svr is not None:
        return parse_svr(data)
    o = new(name)
    return o, parse_into(o, data)


def diff(a, b, path=''):
    """First difference between two values, for reports."""
    if type(a) is not type(b) and not (isinstance(a, (int, bool)) and isinstance(b, (int, bool))):
        return f'{path}: {short(a)} != {short(b)}'
    if isinstance(a, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                return f'{path}.{k}: missing'
            d = diff(a[k], b[k], f'{path}.{k}')
            if d:
                return d
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return f'{path}: {len(a)} != {len(b)} elements'
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f'{path}[{i}]')
            if d:
                return d
        return None
    return None if a == b else f'{path}: {short(a)} != {short(b)}'


def short(x):
    if isinstance(x, bytes) and len(x) == 8:
        return f'{unfl(x)!r}'
    r = repr(x)
    return r if len(r) < 80 else r[:77] + '...'


def bdiff(a, b):
    """First differing octet of two byte strings, for reports."""
    if a == b:
        return None
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f'octet {i}: {x:#04x} != {y:#04x} (lengths {len(a)}, {len(b)})'
    return f'length {len(a)} != {len(b)}'


# ---------------------------------------------------------------- generators

class Ctr:
    """Source of octets that are all different (modulo 251)."""

    def __init__(self, n=1):
        self.n = n

    def octet(self):
        self.n = self.n % 250 + 1
        return self.n

    def octets(self, k):
        return bytes(self.octet() for _ in range(k))


def genscalar(typ, mode, ctr):
    if typ in ('f32', 'f64'):
        if mode == 'zero':
            return fl(0.0)
        if mode == 'max':
            return fl(-3.4028234663852886e38 if typ == 'f32' else -1.7976931348623157e308)
        b = ctr.octets(SIZE[typ])
        b = bytes([b[0] & 0x3f]) + b[1:]
        return fl(struct.unpack(FMT[typ], b)[0])
    n, lo, hi = INT[typ]
    if mode == 'zero':
        return 0
    if mode == 'max':
        return hi
    if typ == 'b1':
        return 1
    b = bytearray(ctr.octets(n))
    if typ[0] == 'i':
        b[0] |= 0x80
    return struct.unpack(FMT[typ], bytes(b))[0]


class Shape:
    """Lengths of the lists of a value.

    top: {attribute: length} for the outermost lists (default dflt);
    inner lists of element i have (i + c) % 3 elements, fixed when inner is set;
    opt: choice of the optional transmitter sections (see OPTS).
    """

    def __init__(self, top=None, dflt=2, c=1, inner=None, opt=0):
        self.top, self.dflt, self.c, self.inner, self.opt = top or {}, dflt, c, inner, opt

    def key(self):
        return [self.top, self.dflt, self.c, self.inner, self.opt]


# (radioSystem, majorModulation, modulation record, its raw length,
#  antennaPatternType, pattern record, its raw length)
OPTS = [
    (0, 0, None, 0, 0, None, 0),
    (2, 1, 'BasicHaveQuickMP', 0, 1, 'BeamAntennaPattern', 0),
    (6, 0, 'CCTTSincgarsMP', 0, 0, None, 0),
    (9, 3, 'UnknownRadio', 8, 5, 'UnknownAntennaPattern', 24),
    (3, 2, 'BasicHaveQuickMP', 0, 7, 'UnknownAntennaPattern', 8),
    (0, 0, None, 0, 1, 'BeamAntennaPattern', 0),
    (1, 0, 'UnknownRadio', 8, 0, None, 0),
    (1, 1, 'UnknownRadio', 3, 2, 'UnknownAntennaPattern', 1),
    (4, 5, 'BasicHaveQuickMP', 0, 0, None, 0),
    (2, 1, 'UnknownRadio', 8, 1, 'UnknownAntennaPattern', 16),
    (6, 1, 'UnknownRadio', 255, 3, 'UnknownAntennaPattern', 300),
]
VBITS = [13, 64, 0, 8, 72, 127, 65]


def gen(name, mode='dist', shape=None, ctr=None, depth=0, idx=0):
    shape = shape or Shape()
    ctr = ctr or Ctr()
    s = SPECS[name]
    v = {'#': name}
    for f in s.fields:
        k = f.kind
        if k == 'sc':
            v[f.attr] = genscalar(f.typ, mode, ctr)
        elif k == 'rec':
            v[f.attr] = gen(f.typ, mode, shape, ctr, depth, idx)
        elif k == 'arr':
            v[f.attr] = [genscalar(f.typ, mode, ctr) for _ in range(f.n)]
        elif k in ('list', 'bytes', 'svr'):
            n = (shape.top.get(f.attr, shape.dflt) if depth == 0 else
                 shape.inner if shape.inner is not None else (idx + shape.c) % 3)
            if k == 'bytes' or f.typ in SCALAR:
                v[f.attr] = [genscalar(f.typ or 'u8', mode, ctr) for _ in range(n)]
            elif k == 'list':
                v[f.attr] = [gen(f.typ, mode, shape, ctr, depth + 1, i) for i in range(n)]
            else:
                v[f.attr] = [gensvr(f.typ, i + shape.c, mode, shape, ctr, depth + 1)
                             for i in range(n)]
        elif k == 'raw':
            v[f.attr] = genraw(mode, ctr, shape.dflt if depth == 0 else 8)
        elif k == 'opt':
            v[f.attr] = None
        elif k == 'bits':
            for a, n in f.extra:
                if a is not None:
                    v[a] = (0 if mode == 'zero' else (1 << n) - 1 if mode == 'max'
                            else (ctr.octet() * 0x9E3779B1 >> 7) % (1 << n) or 1)
        elif k == 'vlen':
            # a datum on its own takes its length from the shape, too
            v[f.attr] = shape.dflt * 7 if depth == 0 else VBITS[(idx + shape.c) % len(VBITS)]
        elif k == 'vdata':
            n = (v['variableDatumLength'] + 7) // 8
            v[f.attr] = [genscalar('u8', mode, ctr) for _ in range(n)]
    if name == 'TransmitterPdu':
        rs, mm, mc, ml, pt, pc, pl = OPTS[shape.opt]
        v['modulationType']['radioSystem'] = rs
        v['modulationType']['majorModulation'] = mm
        v['antennaPatternType'] = pt
        for attr, c, ln in (('modulationParameters', mc, ml), ('antennaPattern', pc, pl)):
            if c:
                v[attr] = ({'#': c, 'data': genraw(mode, ctr, ln)} if ln
                           else gen(c, mode, shape, ctr, depth + 1))
    return v


def genraw(mode, ctr, n):
    return bytes(n) if mode == 'zero' else b'\xff' * n if mode == 'max' else ctr.octets(n)


def gensvr(family, i, mode, shape, ctr, depth=1):
    kinds = FAMILY_KNOWN[family] + [None, None]
    c = kinds[i % len(kinds)]
    if c is None:
        return {'#': USVR, 'recordType': 70000 + i,
                'data': genraw(mode, ctr, 2 + 8 * (i % 3))}
    return gen(c, mode, shape, ctr, depth, i)


# ---------------------------------------------------------------- alphabets

def sources():
    for d, _, fs in sorted(os.walk(os.path.join(REPO, 'opendis'))):
        for f in sorted(fs):
            if f.endswith('.py'):
                with open(os.path.join(d, f), 'rb') as h:
                    yield f, h.read()


def constants(code):
    """Every constant of a code object and of those inside it (folded
    expressions such as 1 << 20 and the members of tuples included)."""
    out = []
    todo = list(code.co_consts)
    while todo:
        x = todo.pop()
        if hasattr(x, 'co_consts'):
            todo += x.co_consts
        elif isinstance(x, (tuple, frozenset)):
            todo += x
        else:
            out.append(x)
    return out


def literals():
    """Numbers the library compares or computes with: every numeric literal of
    its source.  They only widen the alphabets, the oracles do not use them."""
    import ast
    out = set()
    for f, text in sources():
        t = ast.parse(text)
        for x in constants(compile(t, f, 'exec')) + [n.value for n in ast.walk(t) if isinstance(n, ast.Constant)]:
            if type(x) in (int, float) and abs(x) < 1e300:
                out.add(x)
            if type(x) is bytes and 0 < len(x) <= 8:
                out.add(int.from_bytes(x, 'big'))
    return set(thin(sorted(out), 500))


def texts():
    """Short texts in the library's source, its documentation aside."""
    out = set()
    for f, text in sources():
        for x in constants(compile(text, f, 'exec', optimize=2)):
            if type(x) is bytes:
                x = x.decode('latin-1')
            if type(x) is str and 0 < len(x) <= 40 and x.isascii() and '\0' not in x:
                out.add(x)
    return thin(sorted(out), 2000)


def method_literals():
    """{class: numbers other than 0 in its methods, constructor aside, and in
    what they name (constants and functions of the module or the class)}."""
    import types
    out = {}
    mods = [m for n, m in sys.modules.items() if n.split('.')[0] == 'opendis']

    def collect(code, env, cls, got, depth):
        for x in constants(code):
            if type(x) in (int, float) and x and abs(x) < 1e300:
                got.add(x)
        todo = [code]
        while todo:
            k = todo.pop()
            todo += [x for x in k.co_consts if hasattr(x, 'co_consts')]
            for n in k.co_names:
                for x in (env.get(n), vars(cls).get(n) if n != 'pduType' else None):
                    if type(x) in (int, float) and x and abs(x) < 1e300:
                        got.add(x)
                    elif type(x) in (tuple, list, set, frozenset, dict) and len(x) < 50:
                        got.update(y for y in x if type(y) in (int, float) and y and abs(y) < 1e300)
                    elif isinstance(x, types.FunctionType) and depth and x.__module__.split('.')[0] == 'opendis':
                        collect(x.__code__, vars(sys.modules[x.__module__]), cls, got, depth - 1)
    for m in mods:
        for c in list(vars(m).values()):
            if isinstance(c, type) and c.__module__ == m.__name__:
                got = set()
                for n, f in vars(c).items():
                    for g in (f, getattr(f, '__func__', None), getattr(f, 'fget', None), getattr(f, 'fset', None)):
                        if isinstance(g, types.FunctionType) and n != '__init__':
                            collect(g.__code__, vars(sys.modules.get(g.__module__, m)), c, got, 2)
                if got:
                    out[c.__name__] = got
    return out


def file_literals(rel):
    """Numbers in one source file of the library, folded expressions and
    constants of its module included (empty when it is gone)."""
    import ast
    try:
        with open(os.path.join(REPO, 'opendis', rel), 'rb') as h:
            t = ast.parse(h.read())
    except OSError:
        return []
    xs = [n.value for n in ast.walk(t) if isinstance(n, ast.Constant)] + constants(compile(t, rel, 'exec'))
    m = sys.modules.get('opendis.' + rel[:-3].replace('/', '.'))
    for x in vars(m).values() if m else ():
        xs += x if isinstance(x, (tuple, list)) else [x]
    return thin(sorted({float(x) for x in xs if type(x) in (int, float) and x and abs(x) < 1e300}), 200)


def thin(xs, n):
    """At most about n of the values (a source with a large table of numbers
    must not make the exploration endless)."""
    return xs if len(xs) <= n else xs[::len(xs) // n + 1]


def around(numbers, ms=(1, 1 - 1e-3, 1 + 1e-3, .5, 2, 10)):
    """Values on either side of each number and at a few multiples of it, of
    either sign, and values halfway to the next number."""
    s = {x * m for x in numbers for m in ms}
    ns = sorted(set(numbers))
    s |= {(x + y) / 2 for x, y in zip(ns, ns[1:])}
    return sorted(s | {-x for x in s})


METHOD_LITERALS = method_literals()
LITERALS = literals()
INT_LITERALS = sorted({int(x) + d for x in LITERALS if abs(x) < 2**64 and x == int(x) for d in (-1, 0, 1)}
                      | {10**k + d for k in range(1, 20) for d in (-1, 0, 1)})
FLOAT_LITERALS = sorted({float(x) for x in LITERALS if abs(x) < 1e300} | {-float(x) for x in LITERALS if abs(x) < 1e300})


def _ints(bits, signed=False, full=False):
    s = set(INT_LITERALS)
    for k in range(bits + 1):
        for d in (-1, 0, 1):
            s.add((1 << k) + d)
    s |= {0, 1, 2, int.from_bytes(bytes(range(1, bits // 8 + 1)), 'big'),
          int.from_bytes(bytes(range(0xfe, 0xfe - bits // 8, -1)), 'big'),
          int.from_bytes(b'\x55' * (bits // 8), 'big'), int.from_bytes(b'\xaa' * (bits // 8), 'big')}
    if signed:
        s |= {-x for x in s} | {-x - 1 for x in s}
        lo, hi = -(1 << bits - 1), (1 << bits - 1) - 1
    else:
        lo, hi = 0, (1 << bits) - 1
    return sorted((x for x in s if lo <= x <= hi), key=lambda x: (abs(x), x))


def _f32s():
    out = []
    pats = {0, 0x80000000, 0x3f800000, 0xbfc00000, 0x40490fdb, 0x7f7fffff, 0xff7fffff, 0x00800000,
            0x00000001, 0x807fffff, 0x7f800000, 0xff800000, 0x7fc00000, 0xffc00000, 0x4b800001,
            0x01020304, 0x3eaaaaab}
    pats |= {1 << k for k in range(32)} | {0x3f800000 | 1 << k for k in range(23)}
    pats |= {s | 0x7fc00000 | 1 << k for k in range(22) for s in (0, 1 << 31)}
    pats |= {int.from_bytes(struct.pack('>f', x), 'big') for x in FLOAT_LITERALS if abs(x) < 3e38}
    for p in sorted(pats):
        out.append(fl(struct.unpack('>f', p.to_bytes(4, 'big'))[0]))
    return out


def _f64s():
    pats = {0, 1 << 63, 0x3ff0000000000000, 0xbff8000000000000, 0x400921fb54442d18,
            0x7fefffffffffffff, 0xffefffffffffffff, 1, 0x000fffffffffffff, 0x0010000000000000,
            0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0x0102030405060708,
            0x3fd5555555555555, 0x4340000000000001}
    pats |= {1 << k for k in range(64)} | {0x3ff0000000000000 | 1 << k for k in range(52)}
    pats |= {0x7ff8 << 48 | 1 << k for k in range(51)} | {0xfff8 << 48, 0xfff8000000000123, 0x7ff0000000000001, 0xfff4000000000000}
    pats |= {int.from_bytes(struct.pack('>d', x), 'big') for x in FLOAT_LITERALS}
    return [p.to_bytes(8, 'big') for p in sorted(pats)]


ALPHA = {'u8': list(range(256)), 'u16': _ints(16), 'u32': _ints(32), 'u64': _ints(64),
         'i32': _ints(32, True), 'i64': _ints(64, True), 'b1': [0, 1],
         'f32': _f32s(), 'f64': _f64s()}
FEW = {'u8': [0, 1, 0x7f, 0x80, 255], 'u16': [0, 1, 0x0102, 0x8000, 65535],
       'u32': [0, 1, 0x01020304, 2**31, 2**32 - 1], 'u64': [0, 1, 2**63, 2**64 - 1, 0x0102030405060708],
       'i32': [0, 1, -1, -2**31, 2**31 - 1], 'i64': [0, 1, -1, -2**63, 2**63 - 1], 'b1': [0, 1],
       'f32': [fl(0.0), fl(-0.0), fl(1.5), fl(float('inf')), fl(-3.4028234663852886e38)],
       'f64': [fl(0.0), fl(-0.0), fl(0.1), fl(float('-inf')), fl(1.7976931348623157e308)]}


def alphabet(leaf, few=False):
    if leaf.typ == 'bit':
        n = leaf.bits[2]
        if n <= 10 and not few:
            return range(1 << n)
        return sorted({0, 1, (1 << n) - 1, (1 << n) >> 1, ((1 << n) - 1) // 3})
    return (FEW if few else ALPHA)[leaf.typ]


def encode_leaves(v):
    ls = Leaves()
    encode(v, ls)
    return ls


DISCRIMINATORS = {('modulationType', 'radioSystem'), ('modulationType', 'majorModulation'),
                  ('antennaPatternType',)}


def leaves_of(v, raw=False):
    """(octets, leaves that may be changed independently of the others)."""
    ls = Leaves(raw)
    b = encode(v, ls)
    if v['#'] == 'TransmitterPdu' and (v['modulationParameters'] or v['antennaPattern']):
        ls[:] = [l for l in ls if l.path not in DISCRIMINATORS]
    return b, ls


def payloads(v, at=()):
    """(path of the record, attribute, kind) of the payloads of a value; of the
    elements of a list only those of the first and the last."""
    out = []
    if v['#'] == USVR:
        return [(at, 'data', 'svr')]
    for f in SPECS[v['#']].fields:
        x = v.get(f.attr)
        p = at + (f.attr,)
        if f.kind in ('bytes', 'raw', 'vdata'):
            out.append((at, f.attr, f.kind))
        elif f.kind == 'arr' and f.typ == 'u8':
            out.append((at, f.attr, 'arr'))
        elif f.kind in ('rec', 'opt') and x is not None:
            out += payloads(x, p)
        elif isinstance(x, list) and x and isinstance(x[0], dict):
            for i in sorted({0, len(x) - 1}):
                out += payloads(x[i], p + (i,))
    return out


def refill(v, site, n, octet):
    """The value with a payload of n octets (bits for a datum; None keeps the
    length), octet(i, length) each; None where it cannot have that length."""
    at, attr, kind = site
    r = get(v, at)
    if n is None or kind == 'arr':
        k = len(r[attr])
        if n not in (None, k):
            return None
    else:
        k = (n + 7) // 8 if kind == 'vdata' else n
    if kind == 'svr' and k % 8 != 2 or at and r['#'] in ('UnknownRadio', 'UnknownAntennaPattern') and not k:
        return None             # not a record of that length
    x = [octet(i, k) & 255 for i in range(k)]
    v = put(v, at + (attr,), bytes(x) if kind in ('raw', 'svr') else x)
    if kind == 'vdata' and n is not None:
        v = put(v, at + ('variableDatumLength',), n)
    return v


def shapes(name, maxlen=3, limit=300):
    """All list-shape vectors for a class, lengths 0..maxlen, at most `limit`
    (maxlen is lowered until they fit)."""
    s = SPECS[name]
    ls = [f.attr for f in s.lists()]
    opts = range(len(OPTS)) if name == 'TransmitterPdu' else (0,)
    if not ls:
        return [Shape(opt=o) for o in opts]
    nested = any(f.kind == 'list' and f.typ in SPECS and
                 any(g.kind in ('list', 'bytes', 'vdata', 'svr') for g in SPECS[f.typ].fields)
                 or f.kind == 'svr' for f in s.lists())
    cs = (0, 1, 2) if nested else (0,)
    m = maxlen
    while m > 1 and (m + 1) ** len(ls) * len(cs) * len(opts) > limit:
        m -= 1
    out = []
    for t in itertools.product(range(m + 1), repeat=len(ls)):
        for c in cs:
            if c and not any(t):
                continue
            for o in opts:
                out.append(Shape(dict(zip(ls, t)), c=c, opt=o))
    for a in ls:      # each list alone up to 17
        for n in range(m + 1, 18):
            out.append(Shape({b: (n if b == a else 1) for b in ls}, c=1))
    return out
