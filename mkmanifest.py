"""Writes MANIFEST.json from the check modules and properties.jsonl."""
import importlib, json, sys
sys.path.insert(0, '/verif')
TECH = {
 'C01': 'explicit-state enumeration of all bounded message values, each encoded by the real code and by an executable reference model of the wire format',
 'C02': 'explicit-state enumeration of all bounded message octets from the reference model, each decoded and re-encoded by the real code',
 'C03': 'enumeration of every leaf and list shape of every class against a hand-written layout table (executable reference model)',
 'C04': 'enumeration of all 256 type numbers and all ordered message pairs through the real factory',
 'C05': 'explicit-state exploration of all edit sequences up to a depth on the real objects, compared with a list model after every step',
 'C06': 'exhaustive fault enumeration: every cut position of every bounded message',
 'C07': 'explicit-state exploration of all operation sequences (construct, mutate, encode, decode, failed decode) over two objects against a store model without sharing',
 'C08': 'enumeration of every field x every out-of-range value class on the real encoder',
 'C09': 'explicit-state exploration of all write/read sequences up to a depth against an independent octet model',
 'C10': 'exhaustive enumeration of all values of bounded bit-field layouts and all assignment sequences up to a depth',
 'C11': 'explicit-state enumeration of record sequences, types, lengths and families against the reference record model',
 'C12': 'explicit-state enumeration of all bounded record values and octets against the reference model, including declared sizes',
 'C13': 'enumeration of all system x modulation x length x pattern combinations and edit sequences against the reference section model',
 'C14': 'enumeration of all datum lengths in bits, contents and datum sequences against the reference model',
 'C15': 'explicit-state exploration of all set/encode/receive sequences over a letter alphabet and all octet values per position',
 'C16': 'enumeration of all constructor argument subsets (singles, pairs, prefixes, all, all but one) compared with assignment and the model',
 'C17': 'stateless exploration of thread schedules of the real code under a controlled scheduler with bounded preemptions, from warm and cold (forked) processes',
 'C18': 'bounded-exhaustive enumeration of a product grid of calls against an independent evaluation of the equations',
 'C19': 'explicit-state exploration of all step sequences up to a depth with aliasing and purity probes on every transition',
 'C20': 'bounded-exhaustive enumeration of a coordinate grid against an independent WGS-84 evaluation',
 'C21': 'bounded-exhaustive enumeration of a position x attitude grid against independent rotation matrices',
 'C22': 'bounded-exhaustive enumeration of an origin x displacement grid against independent rotations',
 'C23': 'bounded-exhaustive enumeration of a latitude x longitude grid against an independent sixth-order Krueger series',
 'C24': 'explicit-state exploration of all datagram histories up to a depth through the real example programs on a recording socket',
 'C25': 'enumeration of message x source kind x stream position x trailing data on the real factory',
}
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    m = importlib.import_module('mc.checks.' + i.lower())
    note = ('Exhaustive within these bounds (quick): ' + m.BOUNDS['quick'] + '. Thorough: ' + m.BOUNDS['thorough']
            + '. Trusted: the reference model in mc/spec.py and the check itself, CPython' + (', numpy' if i > 'C17' else '') + '.')
    if getattr(m, 'ASSUMPTIONS', None):
        note += ' Assumes: ' + '; '.join(m.ASSUMPTIONS) + '.'
    checks.append(dict(property=i, quick_cmd=f'/opt/venv/bin/python mc/run.py {i}',
                       thorough_cmd=f'/opt/venv/bin/python mc/run.py {i} --tier thorough',
                       technique=TECH[i], level=m.LEVEL, level_note=note))
doc = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
           notes='No hooks: the checks use the public interface of the library and interpreter facilities (sys.settrace, fork). '
                 'Pure Python, nothing to build; every check imports /repo as it is at that moment.')
json.dump(doc, open('/verif/MANIFEST.json', 'w'), indent=1)
