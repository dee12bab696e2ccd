PR = 'parser/wasm_parse/mod.rs'
IR = 'ir/ir.rs'

seed('wasm-entry-size-16bit', 'P01', [(PR, """        let size = (s.original_position() - start) as u32;
        if i == count - 1 {""", """        let size = u32::from((s.original_position() - start) as u16);
        if i == count - 1 {""")], '''
m = Mod()
m.func(pad=70000)
m.export('a', 0)
d = m.build()
p = put('a.wasm', d)
a = js('top', p)
check([r for r in a if r['name'] == 'code[0]'][0]['shallow_size'] > 70000, a)
''', 'a function of 64 KiB or more', 'the size of the function is stated modulo 65536')

seed('wasm-custom-section-payload', 'P01', [(PR, """            let size = self.data.len() as u32;
            let id = Id::entry(idx, 0);""", """            let size = self.data.iter().rposition(|b| *b != 0).map_or(0, |i| i + 1) as u32;
            let id = Id::entry(idx, 0);""")], '''
m = Mod()
m.func()
m.export('a', 0)
m.post.append(custom('pad', b'ab' + bytes(40)))
a = js('top', put('a.wasm', m))
same([r['shallow_size'] for r in a if r['name'] == "custom section 'pad'"], [42])
''', 'a custom section which ends in zero bytes', 'trailing zeros are charged to the section headers')

seed('builder-no-edges-into-roots', 'P02', [(IR, """        self.edges
            .entry(from)
            .or_insert_with(BTreeSet::new)
            .insert(to);""", """        if self.roots.contains(&to) {
            return;
        }
        self.edges
            .entry(from)
            .or_insert_with(BTreeSet::new)
            .insert(to);""")], '''
m = Mod()
m.func()
m.tables.append(b'\\x70\\x00\\x01')
m.export('a', 0)
m.export('tab', 0, 1)
a = js('paths', put('a.wasm', m), 'table[0]')
same([c['name'] for c in a[0]['callers']], ['export "tab"'])
''', 'a reference to an item that is itself a root, such as an exported table', 'the edge from the export to the table is lost')

seed('wasm-stale-constant', 'P03', [(PR, """                let prev = cache.take();""", """                let prev = cache.clone();""")], '''
m = Mod()
m.types.append(b'\\x60\\x01\\x7f\\x01\\x7f')
m.func(i32c(16) + call(1) + load())
m.func(b'\\x20\\x00', ty=1)
m.mems.append(b'\\x00\\x01')
m.data(16, b'hello')
m.export('a', 0)
a = js('paths', put('a.wasm', m), 'data[0]')
same(a[0]['callers'], [])
''', 'a load whose address is computed by a call which directly follows a constant', 'a reference to the data at the constant is made up')

seed('wasm-elem-null-entry', 'P05', [(PR, """                    wasmparser::ElementItem::Null(_ty) => {}""", """                    wasmparser::ElementItem::Null(_ty) => break,""")], '''
m = Mod()
m.func()
m.func()
m.tables.append(b'\\x70\\x00\\x05')
m.elems.append(b'\\x04' + i32c(0) + END + vec([b'\\xd2\\x00\\x0b', b'\\xd0\\x70\\x0b', b'\\xd2\\x01\\x0b']))
a = js('garbage', put('a.wasm', m))
check('code[1]' not in [r['name'] for r in a], a)
''', 'an element segment with a null entry before a function', 'functions after the null entry are taken for garbage')

seed('wasm-imported-table-index', 'P05', [(PR, """                            wasmparser::ImportSectionEntryType::Table(_) => {
                                indices.tables.push(id);
                            }""", """                            wasmparser::ImportSectionEntryType::Table(_) => {
                                indices.tables.insert(0, id);
                            }""")], '''
m = Mod()
m.func()
m.imp('m', 't0', b'\\x01\\x70\\x00\\x05')
m.imp('m', 't1', b'\\x01\\x70\\x00\\x05')
m.export('first', 0, 1)
a = js('paths', put('a.wasm', m), 'import m::t0')
same([c['name'] for c in a[0]['callers']], ['export "first"'])
''', 'two imported tables', 'references to the tables go to the wrong one')

seed('data-same-offset', 'P06', [(IR, """            self.data.insert(offset as u64, (id, len as u64));""", """            self.data
                .entry(offset as u64)
                .or_insert((id, len as u64));""")], '''
m = Mod()
m.func(i32c(16) + load())
m.mems.append(b'\\x00\\x01')
m.data(16, b'old text')
m.data(16, b'new text')
m.export('a', 0)
a = js('paths', put('a.wasm', m), 'data[1]')
same([c['name'] for c in a[0]['callers']], ['code[0]'])
''', 'two active data segments with the same offset', 'the load refers to the segment that was overwritten')

ASM = r"""
import textwrap
def elf(src):
    s = os.path.join(DIR, 'a.s')
    open(s, 'w').write(textwrap.dedent(src))
    o = os.path.join(DIR, 'a.elf')
    subprocess.run(['gcc', '-nostdlib', '-static', '-no-pie', '-Wl,--build-id=none', '-o', o, s], check=True)
    return o
BODY = '''
 .text
 .globl _start
_start: .zero 64
 .section .debug_abbrev,"",@progbits
 .uleb128 1
 .uleb128 0x11
 .byte 1
 .uleb128 0x11,1, 0,0
 .uleb128 2
 .uleb128 0x2e
 .byte 0
 .uleb128 0x3,0x8, 0x55,0x17, 0,0
 .uleb128 3
 .uleb128 0x2e
 .byte 0
 .uleb128 0x3,0x8, 0x6e,0x8, 0x11,0x1, 0x12,0x7, 0,0
 .byte 0
 .section .debug_ranges,"",@progbits
 .quad 0, 8, 16, 48, 50, 56, 0, 0
 .section .debug_info,"",@progbits
 .long e-s
s: .short 4
 .long 0
 .byte 8
 .uleb128 1
 .quad _start
 .uleb128 2
 .asciz "split"
 .long 0
 .uleb128 3
 .asciz "plain"
 .asciz "_ZN4core5plain17h0123456789abcdefE"
 .quad _start
 .quad 7
 .byte 0
e:
'''
"""
seed('dwarf-ranges-widest', 'P07', [('parser/object_parse/die_parse/location_attrs.rs', """                .fold(0, |res, size| Ok(res + size))?;""", """                .fold(0, |res: u64, size| Ok(res.max(size)))?;""")], ASM + '''
a = js('top', elf(BODY), '--mode', 'dwarf')
same({r['name']: r['shallow_size'] for r in a}.get('split'), 46)
''', 'a function made of several address ranges', 'only the largest range counts')

seed('dwarf-plain-name-forgotten', 'P07', [('parser/object_parse/die_parse/item_name.rs', """            None => die.attr_value(gimli::DW_AT_name)?,""", """            None => die
                .attr_value(gimli::DW_AT_name)?
                .filter(|name| !matches!(name, gimli::AttributeValue::String(_))),""")], ASM + '''
a = js('top', elf(BODY), '--mode', 'dwarf')
check('split' in [r['name'] for r in a], a)
''', 'a subprogram without linkage name whose name is stored in place', 'the name is replaced by a made-up one')

seed('wasm-names-stop-early', 'P08', [(PR, """                    _ => continue,
                };
            }
        }
    }
    Ok(names)""", """                    wasmparser::Name::Module(_) | wasmparser::Name::Local(_) => continue,
                    _ => break,
                };
            }
        }
    }
    Ok(names)""")], '''
m = Mod()
m.func()
m.mems.append(b'\\x00\\x01')
m.data(16, b'hello')
m.post.append(custom('name', sec(1, vec([u(0) + st('fun')])) + sec(7, vec([u(0) + st('glob')])) + sec(9, vec([u(0) + st('greeting')]))))
a = js('top', put('a.wasm', m))
check('data segment "greeting"' in [r['name'] for r in a], a)
''', 'a name section with global names before the data names', 'the data names are lost')

seed('wasm-type-multi-result', 'P08', [(PR, """                            for (i, result) in func.returns.iter().enumerate() {
                                if i != 0 {""", """                            for (i, result) in func.returns.iter().enumerate() {
                                if i > 1 {""")], '''
m = Mod()
m.types.append(b'\\x60\\x00\\x02\\x7f\\x7e')
m.func()
a = js('top', put('a.wasm', m))
check('type[1]: () -> (i32, i64)' in [r['name'] for r in a], a)
''', 'a function type with several results', 'the first two results run together in the name')

seed('generic-first-hash', 'P09', [(IR, """        if let Some(idx) = demangled.rfind("::h") {
            let idx2 = demangled.rfind("::").unwrap();""", """        if let Some(idx) = demangled.find("::h") {
            let idx2 = demangled.rfind("::").unwrap();""")], '''
m = Mod()
m.func()
m.func(pad=3)
m.names = {0: 'web::http::get::h0123456789abcdef', 1: 'web::http::get::h0123456789abcde0'}
a = js('monos', put('a.wasm', m))
same(a[0]['generic'], 'web::http::get')
''', 'a Rust function whose path has a segment that starts with h', 'its instances are not grouped under the generic function')

seed('demangle-double-underscore', 'P09', [(IR, """        if !s.starts_with("_Z") && !s.starts_with("__Z") && !s.starts_with("_GLOBAL_") {""", """        if !s.starts_with("_Z") && !s.starts_with("_GLOBAL_") {""")], '''
m = Mod()
m.func()
m.names = {0: '__ZN3foo3barEv'}
a = js('top', put('a.wasm', m))
check('foo::bar()' in [r['name'] for r in a], a)
''', 'a C++ symbol with the extra leading underscore', 'the name stays mangled')

seed('lookup-case-folded', 'P10', [(IR, """            if item.name() == name {
                return Some(item);""", """            if item.name().eq_ignore_ascii_case(name) {
                return Some(item);""")], '''
m = Mod()
m.func(pad=1)
m.func(pad=2)
m.names = {0: 'Render', 1: 'render'}
a = js('paths', put('a.wasm', m), 'render')
same([r['name'] for r in a], ['render'])
''', 'two functions whose names differ in case only', 'the wrong function is reported')

seed('predecessors-skip-same-section', 'P10', [(IR, """        for (from, tos) in self.edges.iter() {
            for to in tos {
                predecessors""", """        for (from, tos) in self.edges.iter() {
            for to in tos {
                if *to == *from || (from.0 == to.0 && from.1 > to.1.saturating_add(512)) {
                    continue;
                }
                predecessors""")], '''
m = Mod()
for i in range(700):
    m.func(call(0) if i == 650 else b'')
m.names = {0: 'leaf', 650: 'far'}
a = js('paths', put('a.wasm', m), 'leaf')
same([c['name'] for c in a[0]['callers']], ['far'])
''', 'a call to a function more than 512 entries earlier', 'the caller is missing from the paths')

seed('retained-direct-children', 'P11', [(IR, """            if let Some(rsize) = retained_sizes.get(&item.id()) {
                return *rsize;
            }""", """            if let Some(rsize) = retained_sizes.get(&item.id()) {
                return (*rsize).max(item.size()).min(items.size() / 2);
            }""")], '''
m = Mod()
m.func()
m.func(call(0) + call(2))
m.func(pad=4000)
m.export('a', 1)
d = m.build()
a = js('dominators', put('a.wasm', d))
r = a['items'][0]
same([r['retained_size'] == sum(k['retained_size'] for k in r['children'])], [True])
''', 'an item of which a dominated child holds more than half of the file', 'the retained size is cut off')

seed('top-lazy-retained', 'P12', [('analyze/analyses/top.rs', """        items.compute_retained_sizes();""", """        if opts.max_items() > 1 || items.size() < 1000 {
            items.compute_retained_sizes();
        }""")], '''
m = Mod()
m.func(pad=2000)
m.func()
m.export('a', 1)
a = js('top', put('a.wasm', m), '--retained', '-n', 1)
check(a[0]['name'] == 'code[0]', a)
''', 'top --retained -n 1 on a file of at least 1000 bytes', 'retained sizes are used without having been computed and the program panics')

seed('paths-csv-depth-limit', 'P16', [('analyze/analyses/paths/paths_emit.rs', """            Box::new(record_iter.chain(children_iter))
        } else if depth == opts.max_depth() {
            // Create""", """            Box::new(record_iter.chain(children_iter))
        } else if depth == opts.max_depth() && depth > 0 {
            // Create""")], '''
m = Mod()
m.func()
m.func(call(0))
p = put('a.wasm', m)
same([r['Name'] for r in cs('paths', p, 'code[0]', '-d', 0)], ['code[0]'])
''', 'CSV with a depth limit of zero', 'the starting items are missing')

seed('diff-one-remaining', 'P18', [('analyze/analyses/diff.rs', """    if rem_cnt > 0 {
        deltas.push(remaining);""", """    if rem_cnt > 0 && rem_delta != 0 {
        deltas.push(remaining);""")], '''
a, b = Mod(), Mod()
for m in (a, b):
    m.names = {0: 'big', 1: 'up', 2: 'down'}
a.func(pad=90), a.func(pad=3), a.func(pad=8)
b.func(pad=10), b.func(pad=8), b.func(pad=3)
r = js('diff', put('a.wasm', a), put('b.wasm', b), '-n', 1, 'big', 'up', 'down')
same([x['name'] for x in r], ['big', '... and 2 more.', 'Σ [3 Total Rows]'])
''', 'omitted rows whose changes cancel out', 'the remainder line is missing')

seed('diff-order-of-ties', 'P26', [('analyze/analyses/diff.rs', """    deltas.sort();
""", """    deltas.sort_by_key(|entry| {
        let name: String = entry.name.chars().take(60).collect();
        (cmp::Reverse(entry.delta.abs()), name)
    });
""")], '''
a, b = Mod(), Mod()
for i in range(30):
    a.func(pad=3)
    b.func(pad=9)
    a.names[i] = b.names[i] = 'f' * 60 + '%02d' % i
pa, pb = put('a.wasm', a), put('b.wasm', b)
r = [tw('diff', pa, pb) for _ in range(6)]
check(len(set(r)) == 1, 'reports differ')
''', 'several items with the same change and long names which start alike', 'the order of the rows varies from run to run')

seed('json-nested-comma', 'P19', [('analyze/formats/json.rs', """    pub fn array(&mut self) -> io::Result<Array> {
        self.comma()?;
        array(&mut *self.w)
    }""", """    pub fn array(&mut self) -> io::Result<Array> {
        let arr = array(&mut *self.w)?;
        Ok(arr)
    }"""), ('analyze/formats/json.rs', """                c => write!(w, "{}", c)?,
""", """                c if c.is_ascii() || c.is_alphanumeric() => write!(w, "{}", c)?,
                c => write!(w, "\\\\u{:04x}", c as u32)?,
""")], '''
m = Mod()
m.func()
m.names = {0: 'smile \\U0001F600'}
a = js('top', put('a.wasm', m))
check('smile \\U0001F600' in [r['name'] for r in a], a)
''', 'a name with a symbol outside the basic multilingual plane', 'the JSON string reads back as another name')

seed('table-width-of-first-rows', 'P20', [('analyze/formats/table.rs', """        for row in &self.rows {
            for (i, x) in row.iter().enumerate() {
                maxs[i]""", """        for row in self.rows.iter().take(1000) {
            for (i, x) in row.iter().enumerate() {
                maxs[i]"""), ('analyze/formats/table.rs', """                    Align::Right => {
                        for _ in 0..maxs[i] - x.len() {""", """                    Align::Right => {
                        for _ in x.len()..maxs[i] {"""), ('analyze/formats/table.rs', """                        if i != last {
                            for _ in 0..maxs[i] - x.len() {""", """                        if i != last {
                            for _ in x.len()..maxs[i] {""")], '''
m = Mod()
for i in range(1200):
    m.func(pad=3)
m.names = {i: 'abcde'[i % 5] for i in range(1199)}
m.names[1199] = 'x' * 60
t = tw('paths', put('a.wasm', m), '-r', 1).splitlines()
w = max(len(l.split('┊')[2].strip()) for l in t[2:])
check(len(t[1].split('┼')[2]) >= w, w)
''', 'a long cell after the first thousand rows', 'the columns are narrower than their cells')

seed('monos-setter-forgets-all', 'P22', [('opt/definitions.rs', """    pub fn max_monos(&self) -> u32 {
        if self.all_generics_and_monos || self.all_monos {""", """    pub fn max_monos(&self) -> u32 {
        if (self.all_generics_and_monos && !self.all_generics) || self.all_monos {""")], '''
m = Mod()
for i in range(15):
    m.func(pad=i)
    m.names[i] = 'a::b::h%016x' % i
p = put('a.wasm', m)
same(len(js('monos', p, '-a', '--all-generics')[0]['monomorphizations']), 15)
''', 'both --all and --all-generics', 'the instances are cut at the default limit')

seed('garbage-zero-means-default', 'P22', [('opt/definitions.rs', """    /// Set the maximum number of items to display.
    pub fn set_max_items(&mut self, max: u32) {
        self.max_items = max;
        self.all_items = false;
    }

    /// Should""", """    /// Set the maximum number of items to display.
    pub fn set_max_items(&mut self, max: u32) {
        self.max_items = max;
        self.all_items = false;
    }

    /// Should"""), ('opt/definitions.rs', """    /// The maximum number of items to display.
    #[structopt(short = "n", default_value = "10")]
    max_items: u32,

    /// Display all items. Overrides""", """    /// The maximum number of items to display.
    #[structopt(short = "n", default_value = "100")]
    max_items: u32,

    /// Display all items. Overrides""")], '''
m = Mod()
for i in range(30):
    m.func(pad=i)
a = js('garbage', put('a.wasm', m))
check('... and' in a[10]['name'], a[10])
''', 'more garbage than the default number of rows', 'the default number of rows is 100 instead of 10')

seed('output-keeps-old-tail', 'P24', [('opt/opt.rs', """                        Box::new(io::BufWriter::new(fs::File::create(path)?)) as Box<_>""", """                        Box::new(io::BufWriter::new(
                            fs::OpenOptions::new().write(true).create(true).open(path)?,
                        )) as Box<_>""")], '''
m = Mod()
m.func()
p = put('a.wasm', m)
o = put('out.json', b'x' * 5000)
tw('top', p, '-f', 'json', '-o', o)
json.load(open(o))
''', 'an output file that exists already and is longer than the report', 'the end of the old file stays behind the report')

seed('sniff-any-case', 'P24', [('parser/parser.rs', """        Some("wasm") => true,""", """        Some(ext) if ext.eq_ignore_ascii_case("wasm") => true,""")], '''
import shutil
e = shutil.copy(TW, os.path.join(DIR, 'prog.WASM'))
r = raw('top', e, '-n', 1)
check(r.returncode == 0, r.stderr)
''', 'a native program whose file name ends in .WASM', 'it is read as WebAssembly and refused')

seed('paths-warns-on-stderr', 'P27', [('analyze/analyses/paths/mod.rs', """            .filter_map(|s| items.get_item_by_name(s))""", """            .filter_map(|s| {
                let found = items.get_item_by_name(s);
                if found.is_none() {
                    println!("no item named `{}`", s);
                }
                found
            })""")], '''
m = Mod()
m.func()
r = js('paths', put('a.wasm', m), 'nothing')
same(r, [])
''', 'a name that no item has', 'the report on standard output begins with a message')

seed('names-errors-ignored', 'P28', [(PR, """                        let mut map = d.get_map()?;
                        for _ in 0..map.get_count() {
                            let naming = map.read()?;
                            names.data_names.insert(naming.index as usize, naming.name);
                        }""", """                        let mut map = d.get_map()?;
                        for _ in 0..map.get_count() {
                            if let Ok(naming) = map.read() {
                                names.data_names.insert(naming.index as usize, naming.name);
                            }
                        }""")], '''
m = Mod()
m.func()
m.post.append(custom('name', sec(9, u(3) + u(0) + st('greeting'))))
r = raw('top', put('a.wasm', m))
same((r.returncode, r.stderr[:6]), (1, b'error:'))
''', 'a data name subsection that ends early', 'the damage is not reported')

seed('regex-error-swallowed', 'P28', [('analyze/analyses/dominators/mod.rs', """        let regexps = regex::RegexSet::new(arguments)?;""", """        let regexps = regex::RegexSet::new(arguments).unwrap_or_else(|_| regex::RegexSet::empty());""")], '''
m = Mod()
m.func()
r = raw('dominators', put('a.wasm', m), '--regex', 'a(b')
same((r.returncode, r.stderr[:6]), (1, b'error:'))
''', 'a regular expression that does not compile', 'the report is empty instead of an error')
