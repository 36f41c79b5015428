import random
from vt import *
import seq_check as sc
import concurrent_check as cc
import inj_check as ic


def main():
    chk = Check('C16', 'model_checking')
    ctl = build_ctl(chk.work, 'injctl.cpp', libs=ic.LIBS_INJ)
    exe = ic.build(chk.work)
    rnd = random.Random(SEED * 7919 + 16)
    scripts = []
    for i in range(30000 if THOROUGH else 3500):
        g = ic.Gen(rnd, problems=0.02, calls=rnd.random() < 0.5)
        scripts.append(g.script('l%d' % i, rnd.randrange(1, 4), rnd.randrange(6, 30), (0, 1, 2) if i % 2 else (0,)))
    r1 = cc.run_check(chk, ctl, 'OneTimeTrace.tla')
    r2 = sc.run_check(chk, exe, scripts, 'InjectorTrace.tla')
    chk.coverage = sc.merge(cc.coverage(r1), sc.coverage([r2]))
    return chk.finish()
