from vt import *
import concurrent_check as cc

def main():
    chk = Check('C03', 'model_checking')
    exe = build_ctl(chk.work, 'semaphore.cpp')
    r = cc.run_check(chk, exe, 'SemaphoreTrace.tla')
    chk.coverage = cc.coverage(r)
    return chk.finish()
