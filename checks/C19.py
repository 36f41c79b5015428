import random
from vt import *
import seq_check as sc
import textgen


def main():
    chk = Check('C19', 'model_checking')
    exe = build_plain(chk.work, 'propparse.cpp', libs=['-licuuc', '-licudata', '-lboost_iostreams', '-lcurl', '-lssl', '-lcrypto', '-lzip', '-lz'])
    gen, model = sc.gen_scripts(chk.work, 'PropertiesGen.tla')
    rnd = random.Random(SEED * 7919 + 19)
    scripts = list(gen)
    for i in range(60000 if THOROUGH else 6000):
        t = textgen.properties(rnd)
        scripts.append(sc.Script('r%d' % i, [sc.op('parse', t), sc.op('final', textgen.escaped(rnd))]))
    r = sc.run_check(chk, exe, scripts, 'PropertiesTrace.tla')
    chk.coverage = sc.coverage([r], [model])
    return chk.finish()
