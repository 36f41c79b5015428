from vt import *
import seq_check as sc


def main():
    chk = Check('C25', 'model_checking')
    exe = build_plain(chk.work, 'scopeexit.cpp')
    gen, model = sc.gen_scripts(chk.work, 'ScopeExitGen.tla')
    scripts = []
    for s in gen:
        if not any(o.startswith('reset') for o in s.ops):
            scripts.append(sc.Script('m' + s.id, s.ops, 'movable'))
        if not any(o.startswith('move') for o in s.ops):
            scripts.append(sc.Script('f' + s.id, s.ops, 'fixed'))
    rs = [sc.run_check(chk, exe, scripts, 'ScopeExitTrace.tla')]
    chk.coverage = sc.coverage(rs, [model])
    return chk.finish()
