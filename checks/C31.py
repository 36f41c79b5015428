import random
from vt import *
import seq_check as sc

LIBS = ['-licuuc', '-licudata']
BASIC = ['is', 'isNot', 'isGreaterThan', 'isGreaterThanOrEqualTo', 'isLessThan', 'isLessThanOrEqualTo']
PARTS = ['startsWith', 'endsWith', 'contains', 'doesNotContain']
POINTS = [97, 98, 99, 122, 32, 9, 10, 48, 233, 183, 8674, 8364, 65]


def w(s):
    return '.'.join(map(str, s)) if s else '-'


def text(r, more=()):
    return [r.choice(POINTS + list(more)) for _ in range(r.choice([0, 1, 2, 3, 5, 8, r.randrange(60)]))]


def related(r, a, one):
    """Something like a: a part of it, with another end, with one element changed."""
    i, j = sorted((r.randrange(len(a) + 1), r.randrange(len(a) + 1)))
    x = r.randrange(8)
    if x == 0 and a:
        k = r.randrange(len(a))
        return a[:k] + [one()] + a[k + 1:]
    return [a, a[:i], a[i:], a[i:j], a + [one()], a[:i] + [one()] + a[i:], [one() for _ in range(r.randrange(5))], a[:i] + a[j:]][x]


def script(r, i):
    ops = []
    for _ in range(6):
        a = text(r)
        ops.append(sc.op('cmp', 'text', r.choice(BASIC + PARTS), w(a), w(related(r, a, lambda: r.choice(POINTS)))))
        n = r.randrange(-10000, 10000)
        ops.append(sc.op('cmp', 'int', r.choice(BASIC), n, r.choice([n, -n, n + 1, n - 1, n * 10 % 9999, r.randrange(-10000, 10000)])))
        a = [r.choice([0, 1, 2, 10, 255, 256, 65536, 16777216]) for _ in range(r.choice([0, 1, 2, 3, 12]))]
        ops.append(sc.op('cmp', 'row', r.choice(BASIC + ['startsWith'] * 2), w(a), w(related(r, a, lambda: r.choice([0, 1, 2, 256, 65536])))))
        a = [text(r, [13, 10, 9]) for _ in range(r.choice([0, 1, 2, 3, 11]))]
        e = related(r, a, lambda: text(r, [13, 10, 9]))
        if a and e and r.random() < 0.3:
            e = e[:-1] + [related(r, e[-1], lambda: r.choice(POINTS))]
        bars = lambda v: '/'.join(w(x) for x in v) if v else '='
        ops.append(sc.op('cmp', 'rows', r.choice(BASIC + ['startsWith'] * 2), bars(a), bars(e)))
        a, d = r.randrange(-1000, 1000), r.choice([0, 1, 2, 50])
        ops.append(sc.op('near', a, r.choice([a, a + d, a - d, a + d + 1, a - d - 1, -a, r.randrange(-1000, 1000)]), d))
        code = r.randrange(100)
        ops.append(sc.op('throws', r.choice(['type', 'inst', 'cmp', 'pred']), r.choice(['none', 'Sub', 'Err', 'Other', 'int']), code, r.choice(['Sub', 'Err']), r.choice([code, code + 1, r.randrange(100)])))
    ops.append(sc.op('fail', w(text(r))))
    return sc.Script('r%d' % i, ops)


def main():
    chk = Check('C31', 'model_checking')
    exe = build_plain(chk.work, 'assertions.cpp', libs=LIBS)
    gen, model = sc.gen_scripts(chk.work, 'AssertionsGen.tla')
    r = random.Random(SEED * 7919 + 31)
    lines = [o for s in gen for o in s.ops]
    few = [o for o in lines if not o.startswith('cmp text') or THOROUGH or r.random() < 0.2]
    scripts = [sc.Script('g%d' % k, few[k:k + 25]) for k in range(0, len(few), 25)]
    scripts += [script(r, i) for i in range(3000 if THOROUGH else 250)]
    scripts.append(sc.Script('null', [sc.op('null', 0), sc.op('null', 1), sc.op('fail', '-'), sc.op('fail', '97.10.98')]))
    res = sc.run_check(chk, exe, scripts, 'AssertionsTrace.tla')
    chk.coverage = sc.coverage([res], [model])
    return chk.finish()
