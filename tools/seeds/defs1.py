seed('garbage-json-remainder-zero', 'P13', [('analyze/analyses/garbage.rs', """            .skip(self.limit)
            .map(|id| &items[*id])
            .fold((0, 0), |(size, cnt), item| (size + item.size(), cnt + 1));
        if total_cnt > 0 {
            let name = format!("... and {} more", total_cnt);
            let total_size_percent = (f64::from(total_size)) / (f64::from(items.size())) * 100.0;
            let mut""", """            .skip(self.limit.max(1))
            .map(|id| &items[*id])
            .fold((0, 0), |(size, cnt), item| (size + item.size(), cnt + 1));
        if total_cnt > 0 {
            let name = format!("... and {} more", total_cnt);
            let total_size_percent = (f64::from(total_size)) / (f64::from(items.size())) * 100.0;
            let mut""")], '''
m = Mod()
m.func()
m.func(pad=5)
m.func(pad=9)
m.export('a', 0)
p = put('a.wasm', m)
a = js('garbage', p, '-n', 0)
same(a[0]['bytes'], a[1]['bytes'])
''', 'JSON with a row limit of zero', 'the remainder line misses the largest item')

seed('garbage-sort-by-split', 'P13', [('analyze/analyses/garbage.rs', """    unreachable_items.sort_by(|a, b| b.size().cmp(&a.size()));""", """    unreachable_items.sort_by(|a, b| {
        if opts.max_items() == 1 {
            a.id().cmp(&b.id())
        } else {
            b.size().cmp(&a.size())
        }
    });""")], '''
m = Mod()
m.func()
m.func(pad=5)
m.func(pad=90)
m.export('a', 0)
p = put('a.wasm', m)
a = js('garbage', p)
b = js('garbage', p, '-n', 1)
same(a[0], b[0])
''', 'a row limit of one', 'the single listed item is not the largest')

seed('top-csv-flush-limit', 'P14', [('analyze/analyses/top.rs', """        let max_items = self.opts.max_items() as usize;
        let items_iter = self.items.iter();

        for &id in items_iter.take(max_items) {
            let item = &items[id];

            let (shallow_size, shallow_size_percent) = {""", """        let max_items = self.opts.max_items() as usize;
        let items_iter = self.items.iter().filter(|&&id| items[id].size() > 0 && !items[id].name().is_empty());

        for &id in items_iter.take(max_items) {
            let item = &items[id];

            let (shallow_size, shallow_size_percent) = {""")], '''
m = Mod()
m.func(pad=50)
m.func(pad=9)
m.names[1] = ''
m.names[0] = 'x'
m.export('a', 0)
p = put('a.wasm', m)
t = [r[-1] for r in text('top', p)][:-1]
same(len(cs('top', p)), len(t))
''', 'a function whose name section entry is empty, CSV', 'nameless items are missing from the CSV report')

seed('top-text-retained-limit-zero', 'P14', [('analyze/analyses/top.rs', """            let (rem_size_col, rem_size_percent_col) = if retained {""", """            let (rem_size_col, rem_size_percent_col) = if retained || max_items == 0 {""")], '''
m = Mod()
m.func(pad=50)
m.export('a', 0)
p = put('a.wasm', m)
r = text('top', p, '-n', 0)
check(r[0][-1].startswith('... and'), r)
same(r[0][0], r[1][0])
''', 'a row limit of zero', 'the remainder line does not state the size of the omitted items')

seed('dominators-json-sibling-order', 'P15', [('analyze/analyses/dominators/emit.rs', """                children.sort_by(|a, b| items.retained_size(*b).cmp(&items.retained_size(*a)));

                let mut arr = obj.array("children")?;""", """                children.sort_by_key(|id| cmp::Reverse(items.retained_size(*id) as u16));

                let mut arr = obj.array("children")?;"""), ('analyze/analyses/dominators/emit.rs', """use std::collections::BTreeMap;
""", """use std::cmp;
use std::collections::BTreeMap;
""")], '''
m = Mod()
m.func(call(1) + call(2))
m.func(call(3))
m.func(pad=2000)
m.func(pad=66000)
m.export('a', 0)
p = put('a.wasm', m)


def walk(x):
    k = [c['retained_size'] for c in x.get('children', ())]
    same(k, sorted(k, reverse=True))
    for c in x.get('children', ()):
        walk(c)


for x in js('dominators', p)['items']:
    walk(x)
''', 'siblings one of which retains more than 64 KiB; JSON only', 'JSON siblings are ordered by the low 16 bits of their retained size')

seed('dominators-unreachable-with-names', 'P15', [('analyze/analyses/dominators/mod.rs', "if opts.items().is_empty() && size > 0 {", "if (opts.items().is_empty() || opts.using_regexps()) && size > 0 {")], '''
m = Mod()
m.func(pad=4)
m.func(pad=20)
m.export('aaa', 0)
p = put('a.wasm', m)
check('Unreachable' in tw('dominators', p))
check('Unreachable' not in tw('dominators', p, 'aaa', '--regex'))
check('Unreachable' not in tw('dominators', p, 'export .aaa.'))
''', 'dominators with a regular expression on a module that has unreachable items', 'the unreachable line is shown although roots were named')

seed('monos-savings-rounding', 'P17', [('analyze/analyses/monos/mod.rs', """        let size_per_inst = total_size / inst_cnt;
        let avg_savings = size_per_inst * (inst_cnt - 1);""", """        let avg_savings = total_size * (inst_cnt - 1) / inst_cnt;""")], '''
m = Mod()
sizes = [7, 8, 8]
for i, z in enumerate(sizes):
    m.func(pad=z)
    m.names[i] = '_ZN12foo$LT$T$GT$3bar17h%016xE' % i
p = put('a.wasm', m)
r = js('monos', p)[0]
ss = [x['shallow_size'] for x in r['monomorphizations']]
same(r['approximate_monomorphization_bloat_bytes'], min(sum(ss) // len(ss) * (len(ss) - 1), sum(ss) - max(ss)))
''', 'instantiation sizes that do not divide evenly', 'the approximate savings are not computed from the average size')

seed('monos-remaining-zero-generics', 'P17', [('analyze/analyses/monos/mod.rs', """        if monos.len() > max_generics {
            let (rem_cnt""", """        if max_generics > 0 && monos.len() > max_generics {
            let (rem_cnt""")], '''
m = Mod()
for i, z in enumerate([7, 50]):
    m.func(pad=z)
    m.names[i] = '_ZN12foo$LT$T$GT$3bar17h%016xE' % i
p = put('a.wasm', m)
r = text('monos', p, '-m', 0)
check(r[0][-1].startswith('... and'), r)
''', 'monos with a generics limit of zero', 'the remainder line is missing')
