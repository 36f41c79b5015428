from vt import *
import concurrent_check as cc

def main():
    chk = Check('C01', 'model_checking')
    exe = build_ctl(chk.work, 'abq.cpp')
    r = cc.run_check(chk, exe, 'BlockingQueueTrace.tla', mode='contents')
    chk.coverage = cc.coverage(r)
    return chk.finish()
