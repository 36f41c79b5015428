from vt import *
import seq_check as sc


def main():
    chk = Check('C10', 'model_checking')
    exe = build_plain(chk.work, 'threadlocal.cpp', libs=['-lboost_thread'])
    gen, model = sc.gen_scripts(chk.work, 'ThreadLocalGen.tla')
    scripts = [sc.Script(k[0] + s.id, s.ops, k) for s in gen for k in ('plain', 'factory', 'nodefault')]
    if not THOROUGH:
        scripts = scripts[::4] if len(scripts) > 20000 else scripts
    rs = [sc.run_check(chk, exe, scripts, 'ThreadLocalTrace.tla')]
    chk.coverage = sc.coverage(rs, [model])
    return chk.finish()
