"""whole-program rules about failures: every failing step is passed on or stops the program"""
from .common import *
import errs


@prop('P28', 'no failure of a fallible step is dropped: fate of every Result value in the type-checked program')
def swallowed(c):
    tot = 0
    for name in ('cli', 'wasm'):
        w = c.world(name)
        n, bad, odd = errs.losses(w)
        tot += n
        by = {}
        for st, xs in (('violation', bad), ('undecided', odd)):
            for b, sp, what in xs:
                by.setdefault(b.id, []).append((st, sp, what))
        for b in w.bodies.values():
            if b.kind == 'promoted':
                continue
            c.fns.add(b.id)
            c.blocks += len(b.rpo)
            got = by.get(b.id)
            if not got:
                continue
            for k, (st, sp, what) in enumerate(got):
                c.add('%s.%s.%d' % (name, b.path, k), '%s:%s %s' % (sp[0], sp[1], b.path), st, what, fp=what + b.path)
        per = {}
        for b, nn in errs.COUNT.items():
            if b in w.bodies:
                per[b] = nn
        for b, nn in sorted(per.items()):
            if b not in by:
                c.add('%s.%s' % (name, w.bodies[b].path), loc(w, w.bodies[b]), 'ok')
        errs.COUNT.clear()
        bf = errs.Buffers(w)
        for b in bf.all():
            c.add('%s.buffer.%s' % (name, b.path), loc(w, b), 'ok')
        for st, xs in (('violation', bf.bad), ('undecided', bf.odd)):
            for b, sp, what in xs:
                c.add('%s.buffer.%s' % (name, b.path), '%s:%s %s' % (sp[0], sp[1], b.path), st, what, fp=what + b.path)
    c.calls += tot
    c.notes.append('%d places where a failure can arise or be looked at' % tot)
