ASM = globals()["ASM"]
PR = 'parser/wasm_parse/mod.rs'
PP = 'parser/parser.rs'
IN = 'parser/object_parse/die_parse/item_name.rs'

seed('sniff-short-file', 'P25', [(PP, "        _ => data.get(0..4) == Some(&WASM_MAGIC_NUMBER),", "        _ => data[..4] == WASM_MAGIC_NUMBER,")], '''
p = put('tiny', b'\\x00a')
r = raw('top', p)
same((r.returncode, r.stderr[:6]), (1, b'error:'))
''', 'a file shorter than four bytes whose name does not end in .wasm', 'the program panics instead of reporting an error')

seed('run-opens-output-first', 'P23', [('twiggy/twiggy.rs', """    let data = match opts {
        opt::Options::Top""", """    let mut dest = opts.output_destination().open()?;

    let data = match opts {
        opt::Options::Top"""), ('twiggy/twiggy.rs', """    let mut dest = opts.output_destination().open()?;

    data.emit""", """    data.emit""")], '''
m = Mod()
m.func()
m.export('a', 0)
p = put('a.wasm', m)
o = os.path.join(DIR, 'report.txt')
open(o, 'w').write('yesterday')
r = raw('paths', '--regex', p, '(', '-o', o)
same((r.returncode, r.stderr[:6], open(o).read()), (1, b'error:', 'yesterday'))
''', 'an analysis that fails (an invalid regular expression) with an output file that exists', 'the file is emptied although there is no report to put in it')

seed('wasm-data-offset-required', 'P30', [(PR, """                    Operator::I64Const { value } => Some(value),
                    _ => None,""", """                    Operator::I64Const { value } => Some(value),
                    Operator::End => None,
                    op => Err(anyhow!("unsupported offset of data segment {}: {:?}", i, op))?,""")], '''
m = Mod()
m.func()
m.export('a', 0)

m = Mod()
m.imports.append(st('env') + st('base') + b'\\x03\\x7f\\x00')
m.func()
m.datas.append(b'\\x00' + b'\\x23\\x00' + b'\\x0b' + st('hello'))
m.mems.append(b'\\x00\\x01')
m.export('a', 0)
r = raw('top', put('a.wasm', m))
check(r.returncode == 0, r.stderr)
''', 'a data segment placed at an imported global (a relocatable or dynamically linked module)', 'the module is refused')

seed('dwarf-name-of-origin', 'P31', [(IN, """            x @ Some(_) => x,
            None => die.attr_value(gimli::DW_AT_name)?,
        };""", """            x @ Some(_) => x,
            None => {
                let mut die = die.clone();
                loop {
                    if let x @ Some(_) = die.attr_value(gimli::DW_AT_name)? {
                        break x;
                    }
                    match die.attr_value(gimli::DW_AT_specification)? {
                        Some(gimli::AttributeValue::UnitRef(at)) => die = unit.entry(at)?,
                        _ => break None,
                    }
                }
            }
        };""")], ASM + '''
LOOP = BODY.replace('.uleb128 0x3,0x8, 0x55,0x17, 0,0', '.uleb128 0x47,0x13, 0x55,0x17, 0,0').replace(' .asciz "split"', 'd: .long d-1-s+4')
check(LOOP != BODY)
r = subprocess.run([TW, 'top', elf(LOOP), '--mode', 'dwarf', '-f', 'json'], stdout=subprocess.PIPE, timeout=60)
same(r.returncode, 0)
same(len(json.loads(r.stdout)), 2)
''', 'a subprogram without a name whose specification is itself', 'the parser never gets past the entry')

seed('paths-twins-repeat', 'P31', [('analyze/analyses/paths/mod.rs', """            .neighbors(id)
            .map(|id| id as ir::Id)
            .filter(|id| !seen.contains(id))""", """            .neighbors(id)
            .map(|id| id as ir::Id)
            .filter(|id| !seen.contains(id) || items[*id].size() == size)""")], '''
m = Mod()
m.func(call(1))
m.func(call(0))
m.export('a', 0)
p = put('a.wasm', m)
r = subprocess.run([TW, 'paths', '--descending', p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
same(r.returncode, 0)
''', 'functions of the same size that call each other, descending', 'the walk goes round the cycle until the stack is used up')

WEB = r"""
JS = '''
const fs = require('fs');
const m = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
const imp = {};
for (const i of WebAssembly.Module.imports(m)) {
  (imp[i.module] = imp[i.module] || {})[i.name] = () => { throw new Error(i.name); };
}
const x = new WebAssembly.Instance(m, imp).exports;
function parse(f) {
  const d = fs.readFileSync(f), p = x.__wbindgen_malloc(d.length, 1);
  new Uint8Array(x.memory.buffer).set(d, p);
  return x.items_parse(p, d.length);
}
function str(call) {
  const r = x.__wbindgen_malloc(16, 8);
  call(r);
  const [p, n] = new Uint32Array(x.memory.buffer, r, 2);
  return Buffer.from(new Uint8Array(x.memory.buffer, p, n)).toString();
}
const it = parse(process.argv[3]);
'''
def web(script, *files):
    j = put('web.js', JS.encode() + script.encode())
    mod = 'target/wasm32-unknown-unknown/debug/twiggy_wasm_api.wasm'
    r = subprocess.run(['node', j, mod, *files], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    check(r.returncode == 0, r.stderr[-500:])
    return json.loads(r.stdout)
"""
seed('web-paths-default-down', 'P29', [('wasm-api/wasm-api.rs', """        let paths = analyze::paths(&mut self.items, options).unwrap();""", """        let mut options = options.clone();
        if options.functions().is_empty() {
            options.set_descending(true);
        }
        let paths = analyze::paths(&mut self.items, &options).unwrap();""")], WEB + '''
m = Mod()
m.func(call(1))
m.func(pad=30)
m.export('a', 0)
p = put('a.wasm', m)
same(web('console.log(str(r => x.items_paths(r, it, x.paths_new())))', p), js('paths', p))
''', 'no function named and the direction left as it is', 'the web API walks down from the roots where the command line walks up from every item')

seed('web-only-generics-forgets', 'P29', [('opt/definitions.rs', """        self.only_generics = do_it;
""", """        self.only_generics = do_it;
        if do_it {
            self.max_monos = 0;
        }
""")], WEB + '''
m = Mod()
a = m.func(pad=20)
b = m.func(pad=30)
m.export('a', 0)
m.names[a] = '_ZN3foo3bar17h0123456789abcdefE'
m.names[b] = '_ZN3foo3bar17hfedcba9876543210E'
p = put('a.wasm', m)
same(web('const o = x.monos_new(); x.monos_set_only_generics(o, 1); x.monos_set_only_generics(o, 0); console.log(str(r => x.items_monos(r, it, o)))', p), js('monos', p))
''', 'only generics asked for and then not any more', 'no monomorphizations are listed from then on')
