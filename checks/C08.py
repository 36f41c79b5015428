from vt import *
import concurrent_check as cc

def main():
    chk = Check('C08', 'model_checking')
    exe = build_ctl(chk.work, 'smq.cpp', libs=['-lboost_serialization', '-lboost_iostreams'])
    # Somewhere west of Greenwich: the wait times of the queue do not depend on it.
    r = cc.run_check(chk, exe, 'SharedQueueTrace.tla', hb=False, env=dict(os.environ, TZ='America/New_York'))
    chk.coverage = cc.coverage(r)
    return chk.finish()
