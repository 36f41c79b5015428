import random
from vt import *
import seq_check as sc

LIBS = ['-licuuc', '-licudata']
TYPES = ['int32', 'int64', 'uint32', 'uint64', 'double', 'float', 'short']


def script(r, i):
    ops = []
    t = r.choice(TYPES)
    k = r.choice(['tens', 'below', 'all'])
    # Seeds that differ in one bit, or by one.
    a = r.choice([r.randrange(1 << 32), r.randrange(70000), 0, (1 << 32) - 1])
    seeds = [a, a, a ^ (1 << (i % 32)), a ^ (1 << r.randrange(32)), (a + 1) % (1 << 32), 'own', 'own', 0, 1]
    for s in r.sample(seeds[:5], 5) + r.sample(seeds, 4):
        ops.append(sc.op('seeded', t, k, s))
    ops += [sc.op('wide', r.choice(TYPES), r.choice(['tens', 'below', 'all']), r.randrange(1 << 31), r.choice(['seed', 'own'])) for _ in range(2)]
    ops += [sc.op('ids', r.choice([1, 5, 40]), r.choice([1, 1, 2, 4])) for _ in range(2)] + ['order'] * 4 + ['forms'] * 2
    return sc.Script('r%d' % i, ops)


def main():
    chk = Check('C37', 'model_checking')
    exe = build_plain(chk.work, 'chance.cpp', libs=LIBS)
    gen, model = sc.gen_scripts(chk.work, 'ChanceGen.tla')
    r = random.Random(SEED * 7919 + 37)
    gen += [sc.Script('s%d' % i, [sc.op('range', 'short', l, w, s)]) for i, (l, w, s) in enumerate((l, w, s) for l in ('zero', 'minusone', 'least', 'greatest') for w in (0, 1, 3, 15) for s in ('seed', 'own'))]
    scripts = gen + [script(r, i) for i in range(3000 if THOROUGH else 300)]
    res = sc.run_check(chk, exe, scripts, 'ChanceTrace.tla')
    chk.coverage = sc.coverage([res], [model])
    return chk.finish()
