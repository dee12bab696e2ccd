"""Writes known_findings.json: repaired defects (suppress nothing) and the open ones, by obligation and fingerprint."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
    ('P19', 'f500d2a', 'JSON strings did not escape backslashes and control characters: an item named "a\\b" made the report invalid JSON'),
    ('P23', '522b40d', 'write errors of the output destination were swallowed: `twiggy top -o /dev/full x.wasm` exited 0'),
    ('P03', 'f9cc071', 'constant load addresses were taken as signed: a load from 0xfffffff0 looked at a negative address'),
    ('P17', 'cb6b1cb', 'exact function names given to monos were compiled as regular expressions: `monos x.wasm "a(b"` failed'),
    ('P18', 'f105736', 'diff kept one item per name: two items both named "f" counted as one and produced a false difference'),
    ('P03', '7f393f2', 'return_call, ref.func and global initializer references were not recorded, so live functions were reported as garbage'),
    ('P28', '895dde6', 'out-of-range function, table, memory and global indices and truncated sections panicked instead of returning an error'),
    ('P07', '03d4997', 'a DWARF address range with high < low panicked with a subtraction overflow'),
    ('P13', 'f43983b', '`twiggy garbage -f csv` panicked with "unimplemented"'),
    ('P17', 'ba93179', 'two instantiations with the same name and size were counted once'),
    ('P15', '37ab3de', '`twiggy dominators -f csv item` printed the whole program, not the requested subtree'),
    ('P16', '084969c', 'an item that references itself appeared twice within one retaining path'),
]
OPEN = [
    dict(property='P06', obligation='lookup', fingerprint='b3e0c43d8e2fd823',
         what='ItemsBuilder::get_data (ir/ir.rs) takes the first segment starting at or after the address instead of the last one starting at or before it, '
              'so a constant load from the middle of a data segment is not attributed to that segment'),
]
out = [dict(property=p, status='fixed', commit=c, what=w, line='fixed: property=%s %s %s' % (p, c, w)) for p, c, w in FIXED]
out += [dict(status='open', **o) for o in OPEN]
json.dump(out, open(os.path.join(ROOT, 'known_findings.json'), 'w'), indent=1)
