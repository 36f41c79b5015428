"""Logging from several threads with reconfiguration."""
from vt import *
import concurrent_check as cc
import log_check as lg


def main():
    chk = Check('C23', 'model_checking')
    units = [(os.path.join(REPO, 'src/main/cpp/Balau/Logging', u + '.cpp'), 'log_' + os.path.basename(u) + '.o', TSAN) for u in lg.UNITS]
    exe = build_ctl(chk.work, 'logctl.cpp', units, lg.LIBS)
    r = cc.run_check(chk, exe, 'LogThreadsTrace.tla')
    chk.coverage = cc.coverage(r)
    return chk.finish()
