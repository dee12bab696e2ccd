"""developer aid: first structural difference of each failing comparison.  usage: structdiff.py PXX [n]"""
import sys
sys.path.insert(0, '/verif/engine')
import check
import terms as tm
from terms import *

N = int(sys.argv[2]) if len(sys.argv) > 2 else 1


def d(a, b, path, depth=0):
    if a is b or a == b:
        return False
    if isinstance(a, T) and isinstance(b, T) and a.op == b.op and a.op not in ('b', 'lin', 'min', 'max', 'cases', 'phi') and len(a.a) == len(b.a):
        r = False
        for i, (x, y) in enumerate(zip(a.a, b.a)):
            if x is not y and x != y:
                r |= d(x, y, path + ['%s.%d' % (a.op, i)], depth + 1)
                if r:
                    return r
        return r
    if isinstance(a, T) and isinstance(b, T) and a.op == b.op and a.op in ('cases', 'phi') and isinstance(a.a[0], tuple):
        ga, gb = ({g: v for g, v in q.a[0]} for q in (a, b))
        if set(ga) == set(gb):
            for g in ga:
                if ga[g] is not gb[g]:
                    return d(ga[g], gb[g], path + ['alt'], depth + 1)
        print('ALTS', ' '.join(path[-14:]))
        for nm, x in (('got', a), ('want', b)):
            for g, v in x.a[0]:
                print('  ', nm, bd(g.a[0]), '=>', show(v)[-50:])
        return True
    if isinstance(a, T) and isinstance(b, T) and a.op == b.op == 'lin':
        pa = [x for x in a.a[1] if x not in b.a[1]]
        pb = [x for x in b.a[1] if x not in a.a[1]]
        if len(pa) == len(pb) and pa:
            return d(pa[0], pb[0], path + ['lin'], depth + 1)
    if isinstance(a, T) and isinstance(b, T) and a.op == b.op and a.op in ('min', 'max'):
        pa = [x for x in a.a[0] if x not in b.a[0]]
        pb = [x for x in b.a[0] if x not in a.a[0]]
        if len(pa) == len(pb) and pa:
            return d(pa[0], pb[0], path + [a.op], depth + 1)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x is not y and x != y:
                return d(x, y, path + [str(i)], depth + 1)
    print('PATH', ' '.join(path[-14:]))
    for nm, x in (('got', a), ('want', b)):
        print(' ', nm, brief(x))
    return True


def bd(n):
    if n < 2:
        return 'FT'[n]
    a = BD.atoms[BD.var[n]]
    return '[%s#%d..%s ? %s : %s]' % (a.op, a.i, show(a)[:40]+'~'+show(a)[-20:], bd(BD.hi[n]), bd(BD.lo[n]))


def brief(x, n=0):
    if isinstance(x, T):
        if x.op == 'lin':
            return 'lin %s%s' % (x.a[0], brief(x.a[1], n))
        if x.op == 'agg':
            return '%s{%s ⟩ %s}' % (x.a[0], ' '.join(st1(s) for s in x.a[1]), brief(x.a[2], 2) if isinstance(x.a[2], T) else '')
        if x.op in ('seq', 'cat') and n < 2:
            return x.op + '{' + ''.join('\n' + '   ' * (n + 2) + ' '.join(st1(s) for s in st) + ' ⟩ ' + brief(e, n + 1) for st, e in x.a[0]) + '}'
        return '%s#%d %s' % (x.op, x.i, show(x)[:150])
    if isinstance(x, tuple) and x and all(isinstance(q, tuple) and len(q) == 2 and isinstance(q[0], T) and isinstance(q[1], int) for q in x):
        return 'lin' + ''.join('\n      %d * %s' % (k, brief(y, 1)) for y, k in x)
    if isinstance(x, tuple):
        if x and all(isinstance(s, tuple) and len(s) == 2 and isinstance(s[0], tuple) and isinstance(s[1], T) for s in x):
            return 'segs' + ''.join('\n' + '   ' * (n + 2) + ' '.join(st1(s) for s in st) + ' ⟩ ' + brief(e, n + 1) for st, e in x)
        return '(' + ', '.join(brief(y, n + 1) for y in x) + ')'
    return str(x)


def st1(s):
    if s[0] == 'for':
        return 'for#%d∈%s' % (s[1].i, 'whole' + brief(s[2].a[0], 1) if s[2].op == 'whole' else show(s[2])[:40] + '#%d' % s[2].i)
    return s[0] + '(' + ','.join(('#%d ' % y.i + show(y)[:110]) if isinstance(y, T) else str(y)[:20] for y in s[1:]) + ')'


old = check.Check.same
cnt = [0]


def same(s, oid, where, got, want, note=''):
    g, w = check.plain(got), check.plain(want)
    if g is not w and cnt[0] < N:
        cnt[0] += 1
        print('==', oid)
        d(g, w, [])
    return old(s, oid, where, got, want, note)


check.Check.same = same
sys.argv = ['check.py', sys.argv[1]]
check.main()
