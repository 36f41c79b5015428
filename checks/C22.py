"""Logging: configuration of namespaces, levels, streams, formats, messages."""
import itertools
import random
from vt import *
import seq_check as sc
import log_check as lg


def main():
    chk = Check('C22', 'model_checking')
    exe = lg.build(chk.work)
    gen, model = sc.gen_scripts(chk.work, 'LoggingGen.tla')
    r = random.Random(SEED * 7919 + 22)
    scripts = r.sample(gen, 20000 if THOROUGH else 2500) + lg.streams(r, 4000 if THOROUGH else 500) + [lg.script(r, i) for i in range(20000 if THOROUGH else 1500)]
    res = sc.run_check(chk, exe, scripts, 'LoggingTrace.tla')
    chk.coverage = sc.coverage([res], [model])
    return chk.finish()
