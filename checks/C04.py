from vt import *
import concurrent_check as cc

def main():
    chk = Check('C04', 'model_checking')
    exe = build_ctl(chk.work, 'barrier.cpp')
    r = cc.run_check(chk, exe, 'BarrierTrace.tla')
    chk.coverage = cc.coverage(r)
    return chk.finish()
