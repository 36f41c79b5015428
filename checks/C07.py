from vt import *
import concurrent_check as cc

def main():
    chk = Check('C07', 'model_checking')
    exe = build_ctl(chk.work, 'syncqueue.cpp')
    r = cc.run_check(chk, exe, 'FifoTrace.tla')
    chk.coverage = cc.coverage(r)
    return chk.finish()
