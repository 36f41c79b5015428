from vt import *
import seq_check as sc


def main():
    chk = Check('C11', 'model_checking')
    exe = build_plain(chk.work, 'forkh.cpp')
    gen, model = sc.gen_scripts(chk.work, 'ForkGen.tla')
    gen.append(sc.Script('bad', ['fork 1 1', 'bad', 'check 1', 'term 1', 'bad', 'wait 1']))
    rs = [sc.run_check(chk, exe, gen, 'ForkTrace.tla')]
    chk.coverage = sc.coverage(rs, [model])
    return chk.finish()
