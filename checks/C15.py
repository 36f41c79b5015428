import random
from vt import *
import seq_check as sc
import inj_check as ic


def main():
    chk = Check('C15', 'model_checking')
    exe = ic.build(chk.work)
    rnd = random.Random(SEED * 7919 + 15)
    gen, model = sc.gen_scripts(chk.work, 'InjectorResGen.tla')
    kinds = ['S', 'CS', 'W', 'CW', 'U', 'CU', 'V', 'R', 'CR', 'I', 'CI']
    scripts = []
    for s in gen:
        # Every kind from both injectors, in some order, then requests with fallbacks.
        ops = [sc.op('get', 0, i, k, 'a', rnd.randrange(3), 'none') for i in (1, 2) for k in kinds]
        ops += [sc.op('has', i, k, 'a') for i in (1, 2) for k in ('S', 'CS', 'U', 'V', 'R', 'CR')]
        rnd.shuffle(ops)
        ops += ic.requests([1, 2], ['a', 'a', 'a', 'b', ''], kinds[:9], rnd, 40 if THOROUGH else 10)
        scripts.append(sc.Script(s.id, s.ops + ops, s.sc))
    for i in range(20000 if THOROUGH else 2000):
        g = ic.Gen(rnd, problems=0.03, calls=False)
        scripts.append(g.script('r%d' % i, rnd.randrange(1, 4), rnd.randrange(8, 30)))
    # Many bindings: every size up to some hundred, then up to where the tables grow differently.
    for n in list(range(1, 60)) + list(range(60, 700, 23)) + [1000, 1400, 1450, 2000, 3500, 6000 if THOROUGH else 4500]:
        scripts.append(sc.Script('m%d' % n, [sc.op('many', n, p) for p in {0, 1, n // 2, n}]))
    r = sc.run_check(chk, exe, scripts, 'InjectorTrace.tla')
    chk.coverage = sc.coverage([r], [model])
    return chk.finish()
