from vt import *
import concurrent_check as cc

def main():
    chk = Check('C02', 'model_checking')
    exe = build_ctl(chk.work, 'abq.cpp')
    r = cc.run_check(chk, exe, 'BlockingQueueTrace.tla', mode='waiting')
    chk.coverage = cc.coverage(r)
    return chk.finish()
