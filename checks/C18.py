import random
from vt import *
import seq_check as sc
import inj_macros as im


def main():
    chk = Check('C18', 'model_checking')
    exe = im.build(chk.work)
    scripts = []
    for fam in im.FAMILIES:
        for n in range(im.MOST + 1):
            c = im.name(fam, n)
            # With all dependencies, as unique and as value, and with each one missing.
            scripts.append(sc.Script(c, [sc.op('case', c, x, -1) for x in 'uv'] + [sc.op('case', c, 'u', j) for j in range(n)]))
    r = sc.run_check(chk, exe, scripts, 'InjectorTrace.tla')
    chk.coverage = sc.coverage([r])
    return chk.finish()
