import random
from vt import *
import seq_check as sc
import inj_check as ic


def main():
    chk = Check('C17', 'model_checking')
    exe = ic.build(chk.work)
    rnd = random.Random(SEED * 7919 + 17)
    gen, model = sc.gen_scripts(chk.work, 'InjectorGraphGen.tla')
    if not THOROUGH:
        gen = rnd.sample(gen, 6000)
    kinds = ['S', 'CS', 'W', 'R', 'CR', 'U', 'CU']
    scripts = [sc.Script(s.id, s.ops + ic.requests([len(s.ops)], ['', 'a'], kinds, rnd, 4), s.sc) for s in gen]
    for i in range(30000 if THOROUGH else 3000):
        g = ic.Gen(rnd, problems=rnd.choice([0.1, 0.3, 0.6]))
        scripts.append(g.script('r%d' % i, rnd.randrange(1, 5), rnd.randrange(2, 8), validate=0.3, reuse=0.2))
    r = sc.run_check(chk, exe, scripts, 'InjectorTrace.tla')
    chk.coverage = sc.coverage([r], [model])
    return chk.finish()
