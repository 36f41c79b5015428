import glob
import random
import time
from vt import *
import seq_check as sc


def clean(since):
    for f in glob.glob('/dev/shm/SMO_*') + glob.glob('/dev/shm/vtsmo_*'):
        try:
            if os.stat(f).st_mtime >= since - 1:
                os.unlink(f)
        except OSError:
            pass


def main():
    chk = Check('C12', 'model_checking')
    t0 = time.time()
    exe = build_plain(chk.work, 'shmobj.cpp')
    gen, model = sc.gen_scripts(chk.work, 'ShmObjectGen.tla')
    rnd = random.Random(SEED)
    scripts = []
    for k in ('MS', 'MB', 'US', 'UB'):
        pick = gen if THOROUGH or len(gen) < 1500 else rnd.sample(gen, 1500)
        scripts += [sc.Script(k + s.id, s.ops, k) for s in pick]
        # Handles of managed objects may go at any time: the memory persists.
        if k[0] == 'M':
            for s in rnd.sample(gen, min(len(gen), 400)):
                ops, live = [], set()
                for o in s.ops:
                    ops.append(o)
                    w = o.split()
                    if w[0] in ('create', 'unnamed', 'openor', 'open', 'openro') and w[1] != '9':
                        live.add(w[1])
                    elif w[0] == 'move':
                        live.discard(w[1])
                        live.add(w[2])
                if live:
                    ops.append('destroy ' + sorted(live)[0])
                scripts.append(sc.Script('d' + k + s.id, ops + ['open 7 a', 'childopen a 77', 'open 8 b', 'openor 5 b 88'], k))
    try:
        rs = [sc.run_check(chk, exe, scripts, 'ShmObjectTrace.tla')]
    finally:
        clean(t0)
    chk.coverage = sc.coverage(rs, [model])
    return chk.finish()
