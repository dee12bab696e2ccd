"""developer aid: print the value-flow summary of a function"""
import sys
import facts, ev, models, terms
from terms import *

sys.setrecursionlimit(100000)


def pp_all(named, limit=90):
    """print (label, term) pairs with shared subterms factored out"""
    cnt = {}

    def visit(x):
        if isinstance(x, T):
            if x in cnt:
                cnt[x] += 1
                return
            cnt[x] = 1
            if x.op == 'b':
                for at in BD.support(x.a[0]):
                    visit(at)
                return
            for y in x.a:
                visit(y)
        elif isinstance(x, tuple):
            for y in x:
                visit(y)
    for _, t in named:
        visit(t)
    names = {}
    old = terms.show
    out = []
    busy = set()

    def sh(x, d=0):
        if isinstance(x, T) and x.op not in ('int', 'b', 'param', 'elem') and cnt.get(x, 0) > 1:
            if x in names:
                return names[x]
            r = old(x, d)
            if len(r) > limit:
                names[x] = '#%d' % x.i
                out.append('   #%d := %s' % (x.i, r))
                return names[x]
            return r
        if isinstance(x, T) and x.op == 'elem':
            if x in names:
                return names[x]
            r = sh(x.a[0]) if isinstance(x.a[0], T) else old(x.a[0])
            if len(r) > 40:
                names[x] = '∈%d' % x.i
                out.append('   ∈%d := elem of %s' % (x.i, r))
                return names[x]
            return '∈' + r + "'" * x.a[1]
        return old(x, d)
    terms.show = sh
    try:
        res = []
        for l, t in named:
            out = []
            r = sh(t) if isinstance(t, T) else terms.show(t)
            res += out
            res.append('%s %s' % (l, r))
    finally:
        terms.show = old
    return '\n'.join(res)


def sym_args(e, b):
    args = []
    for i in range(b.nargs):
        ty = b.locals[i + 1]
        nm = next((n for n, pl in b.names if pl == [i + 1, []]), None)
        v = mk('param', '%s%s' % ('@' if 'Write' in ty else '', nm or 'a%d' % (i + 1)))
        if ty.startswith('&mut') or re.match(r"&'\w+ mut", ty):
            v = e.newcell(v)
        args.append(v)
    return args


import re


def run(name, world='cli', over=None):
    w = facts.world(world)
    b = w.one(name)
    e = ev.Ev(w, models.M, over)
    args = sym_args(e, b)
    r = e.eval_body(b, args)
    items = [('RET', e.deep(r))]
    for i, a in enumerate(args):
        if a.op == 'ptr':
            items.append(('OUT%d' % i, e.deep(a)))
    for x in e.effects:
        items.append(('  EFF %s @%s' % (x.kind, x.where), mk('seq', ((x.stages, mk('x', *x.args)),))))
    for x in e.errexits:
        items.append(('  ERR %s' % x[0], x[2]))
    print('==', b.path, 'blocks', e.blocks_run, 'unmodelled', e.unmodelled)
    print(pp_all(items))
    return e, r


if __name__ == '__main__':
    for n in sys.argv[1:]:
        try:
            run(n)
        except Exception:
            import traceback
            traceback.print_exc()
