import random
from vt import *
import seq_check as sc


def generated(n):
    rnd = random.Random(SEED * 7919 + 13)
    out = []
    for i in range(n):
        keys = ['k%d' % k for k in range(rnd.choice([2, 4, 5, 6, 7, 8]))]
        acyclic = rnd.random() < 0.6
        ops, data = [], {}
        for j in range(rnd.randrange(3, 40)):
            a, b = rnd.choice(keys), rnd.choice(keys)
            if acyclic and a >= b and rnd.random() < 0.98:
                a, b = min(a, b), max(a, b)
                if a == b:
                    continue
            r = rnd.random()
            if r < 0.3:
                ops.append(sc.op('add', a, rnd.randrange(1, 1000), rnd.choice([0, 1])))
            elif r < 0.38:
                ops.append(sc.op('remove', a, rnd.choice([0, 1])))
            elif r < 0.85:
                if (a, b) not in data:
                    data[(a, b)] = rnd.randrange(0, 1000)
                ops.append(sc.op('relate', a, b, data[(a, b)]) if data[(a, b)] else sc.op('relate0', a, b))
            elif r < 0.93:
                ops.append(sc.op('unrelate', a, b))
            else:
                ops.append('obs')
        # Insertion order against dependency order, too.
        if rnd.random() < 0.5:
            pre = [sc.op('add', k, 5000 + i, 1) for i, k in enumerate(rnd.sample(keys, len(keys)))]
            ops = pre + ops
        out.append(sc.Script('r%d' % i, ops, keys))
    return out


def main():
    chk = Check('C13', 'model_checking')
    exe = build_plain(chk.work, 'depgraph.cpp')
    gen, model = sc.gen_scripts(chk.work, 'DepGraphGen.tla', sc=['a', 'b', 'c'])
    rs = [sc.run_check(chk, exe, gen + generated(20000 if THOROUGH else 3000), 'DepGraphTrace.tla')]
    chk.coverage = sc.coverage(rs, [model])
    return chk.finish()
