from vt import *
import concurrent_check as cc

def main():
    chk = Check('C09', 'model_checking')
    exe = build_ctl(chk.work, 'smq.cpp', libs=['-lboost_serialization', '-lboost_iostreams'])
    r = cc.run_check(chk, exe, 'ChunkedQueueTrace.tla', hb=False, env=dict(os.environ, VT_SMQ_MULTI='1', TZ='Asia/Tokyo'))
    chk.coverage = cc.coverage(r)
    return chk.finish()
