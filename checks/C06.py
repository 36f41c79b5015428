from vt import *
import concurrent_check as cc

def main():
    chk = Check('C06', 'model_checking')
    exe = build_ctl(chk.work, 'onetime.cpp')
    r = cc.run_check(chk, exe, 'OneTimeTrace.tla')
    chk.coverage = cc.coverage(r)
    return chk.finish()
