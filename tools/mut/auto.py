#!/usr/bin/env python3
"""Systematic one-token mutants of every source line of /repo; prints those no check reports (to be read by hand: equivalent, out of every property's scope, or a hole).
usage: auto.py [--seed N] [--count N] [--files regex] [--workers N]"""
import argparse
import os
import random
import re
import sys
H = os.path.dirname(os.path.abspath(__file__))
R = os.path.dirname(os.path.dirname(H))
sys.path.insert(0, os.path.join(R, 'tools'))
FILES = '''analyze/analyses/diff.rs analyze/analyses/garbage.rs analyze/analyses/top.rs analyze/analyses/dominators/mod.rs analyze/analyses/dominators/emit.rs
analyze/analyses/monos/mod.rs analyze/analyses/monos/entry.rs analyze/analyses/monos/emit.rs analyze/analyses/paths/mod.rs analyze/analyses/paths/paths_emit.rs
analyze/analyses/paths/paths_entry.rs analyze/formats/json.rs analyze/formats/table.rs ir/ir.rs ir/graph_impl.rs opt/opt.rs opt/definitions.rs parser/parser.rs
parser/wasm_parse/mod.rs parser/object_parse/mod.rs parser/object_parse/compilation_unit_parse/mod.rs parser/object_parse/die_parse/mod.rs
parser/object_parse/die_parse/item_name.rs parser/object_parse/die_parse/location_attrs.rs traits/traits.rs twiggy/twiggy.rs'''.split()
RX = [(r' < ', ' <= '), (r' > ', ' >= '), (r' <= ', ' < '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '),
      (r' \+ ', ' - '), (r' - ', ' + '), (r' \+= ', ' -= '), (r' \+= ', ' = '), (r' \* ', ' / '), (r' / ', ' * '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
      (r'if !', 'if '), (r'if (?!let)', 'if !'), (r'\.any\(', '.all('), (r'\.all\(', '.any('), (r'\.first\(', '.last('), (r'\bmin\(', 'max('), (r'\bmax\(', 'min('),
      (r'\bcontinue;', 'break;'), (r'\bbreak;', 'continue;'), (r'\.\.=', '..'), (r'is_some\(\)', 'is_none()'), (r'is_none\(\)', 'is_some()'), (r'is_empty\(\)', 'is_empty() == false'),
      (r'\bi\b', '0'), (r'unwrap_or\(false\)', 'unwrap_or(true)'), (r'(\w+)\.cmp\(&?(\w+)\)', r'\2.cmp(\1)'), (r'\.partial_cmp', '.partial_cmp'),
      (r'Some\((?!_)[^()]*\)(?= *[,;]?$)', 'None'), (r'checked_', 'wrapping_'), (r'\.rev\(\)', ''), (r'u32::MAX', '0'), (r'saturating_sub', 'wrapping_sub'), (r'\bsub_start\b', 'start')]


def muts(line):
    out = []
    for a, b in RX:
        for m in re.finditer(a, line):
            n = line[:m.start()] + m.expand(b) + line[m.end():]
            if n != line:
                out.append(n)
    for m in re.finditer(r'(?<![\w.#"x])(\d+)(?![\w."])', line):
        out.append(line[:m.start()] + str(int(m.group(1)) + 1) + line[m.end():])
    for m in re.finditer(r'"([^"\\]+)"', line):
        out.append(line[:m.end() - 1] + 'x' + line[m.end() - 1:])
        if '{' not in m.group(1):
            out.append(line[:m.start() + 1] + line[m.end() - 1:])
    for m in re.finditer(r'\.\w+\((?:[^()]|\([^()]*\))*\)', line):
        out.append(line[:m.start()] + line[m.end():])
    for m in re.finditer(r'\b\w+\(([^(),]+), ([^(),]+)\)', line):
        out.append(line[:m.start(1)] + m.group(2) + ', ' + m.group(1) + line[m.end(2):])
    st = line.strip()
    if st.endswith(';') and not st.startswith(('let ', 'use ', 'pub ', 'return', 'type ', '}', ')')) and st.count('(') == st.count(')'):
        out.append('')
    if st.endswith('?;') and not st.startswith('let '):
        out.append(line.replace('?;', ';', 1))
    if st.startswith(('if ', '} else if ')) and st.endswith('{') and ' let ' not in line:
        for m in re.finditer(r'if (.*) \{$', line):
            out.append(line[:m.start(1)] + 'false' + line[m.end(1):])
            out.append(line[:m.start(1)] + 'true' + line[m.end(1):])
    return list(dict.fromkeys(out))


def all_of(f):
    t = open('/repo/' + f).read().split('\n')
    for i, l in enumerate(t):
        st = l.strip()
        if not st or st.startswith(('//', '#', 'use ', 'pub use', 'extern', 'mod ', 'pub mod')) or re.match(r'(pub(\([a-z]+\))? )?(fn|struct|enum|trait|impl|type)\b', st):
            continue
        if st.startswith('#[cfg(test)]'):
            break
        for n in muts(l):
            yield f, i, l, n


def main():
    p = argparse.ArgumentParser()
    p.add_argument('--seed', type=int, default=1)
    p.add_argument('--count', type=int, default=400)
    p.add_argument('--files', default='.')
    p.add_argument('--workers', type=int, default=7)
    a = p.parse_args()
    from pool import Pool
    ms = [m for f in FILES if re.search(a.files, f) for m in all_of(f)]
    print(len(ms), 'mutants', flush=True)
    random.Random(a.seed).shuffle(ms)
    pool = Pool(a.workers)
    tot = {'caught': 0, 'survived': 0, 'no build': 0}

    def go(f, i, l, n):
        def edit(W):
            x = os.path.join(W, f)
            t = open(x).read()
            ls = t.split('\n')
            assert ls[i] == l
            ls[i] = n
            open(x, 'w').write('\n'.join(ls))
            return x, t

        def undo(W, x):
            open(x[0], 'w').write(x[1])

        def done(o, rc):
            hit = [y.split('property=')[1].split()[0] for y in o.splitlines() if y.startswith('VIOLATION')]
            und = [y.split(':')[0] + ':' + y.split(' hold, ')[1].split()[0] for y in o.splitlines() if ' hold, ' in y]
            if rc not in (0, 1) or not und:
                tot['no build'] += 1
                if 'could not compile' not in o:
                    print('CRASH %s:%d %s' % (f, i + 1, o[-300:]), flush=True)
            elif hit:
                tot['caught'] += 1
            else:
                tot['survived'] += 1
                print('%s:%d\n  - %s\n  + %s\n  %s' % (f, i + 1, l.strip(), n.strip(), ' '.join(u for u in und if not u.endswith(':0'))), flush=True)
        pool.run(edit, undo, ['all'], done)
    for m in ms[:a.count]:
        go(*m)
    pool.close()
    print(tot)


main()
