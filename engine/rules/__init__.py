from . import garbage, top, dominators, paths, monos, wasm, ir, diff, cli, run, errors, dwarf, formats, whole, web, accept, ends
