import random
from vt import *
import seq_check as sc

LIBS = ['-licuuc', '-licudata']


def number(r):
    """A sign, digits and an exponent, within what a float holds."""
    n = r.choice([r.randrange(10), r.randrange(10**3), r.randrange(10**7), 10**r.randrange(8), 10**r.randrange(1, 8) - 1, r.choice([1023, 1024, 1025, 1048575, 1048576, 999499, 999501])])
    return r.randrange(2), n


def script(r, i):
    ops = []
    for _ in range(8):
        s, n = number(r)
        dp = r.choice([0, 1, 2, 3, 6])
        t = r.choice(['double', 'longdouble'])
        e = r.randrange(-30, 25)
        ops.append(sc.op(r.choice(['metric', 'binary', 'sci']), t, s, n, e, dp))
        ops.append(sc.op('fixed', t, s, n, r.randrange(-12, 4), dp))
        ops.append(sc.op(r.choice(['metric', 'binary']), 'int', s, n, 0, dp))
        big = r.choice([r.getrandbits(r.randrange(1, 53)), 2**r.randrange(53), 1000**r.randrange(6), 1024**r.randrange(6), 1024**r.randrange(1, 5) - 1, 0])
        ops.append(sc.op(r.choice(['metric', 'binary']), r.choice(['long', 'ulong']), 0, big, 0, r.choice([0, 1, 3])))
        ops.append(sc.op('metric', 'long', 1, r.getrandbits(r.randrange(1, 50)), 0, r.choice([0, 1, 3])))
        ops.append(sc.op('bytes', big, r.choice([0, 0, 1, 2])))
        u = r.choice(['ns', 'us', 'ms', 's', 'sixteenths'])
        most = {'ns': 10**15, 'us': 10**14, 'ms': 10**11, 's': 10**8, 'sixteenths': 10**7}[u]
        per = {'ns': 10**9, 'us': 10**6, 'ms': 1000, 's': 1, 'sixteenths': 16}.get(u, 1)
        k = r.choice([lambda: r.randrange(most), lambda: int(most ** r.random()), lambda: r.choice([60, 3600, 86400, 59, 61, 3599]) * per + r.randrange(-per, per + 1)])()
        ops.append(sc.op('duration', u, r.choice([1, -1]) * k, r.choice([0, 1, 2, 3])))
        b = '.'.join(str(r.choice([0, 127, 128, 255, r.randrange(256)])) for _ in range(r.choice([0, 1, 2, 5, 16, 33, 64]))) or '-'
        ops.append(sc.op('hex', b, r.choice([0, 0, 1, 2, 3, 5, 8, 40, r.randrange(60)]), r.choice([0, 1, 2, 3, 4, 8])))
        ops.append(sc.op('hexvalue', r.getrandbits(r.randrange(1, 64))))
        ops.append(sc.op('date', r.randrange(-135140, 150000), r.randrange(86400)))
        ops.append(sc.op('clock', r.randrange(86400)))
    return sc.Script('r%d' % i, ops)


def main():
    chk = Check('C34', 'model_checking')
    exe = build_plain(chk.work, 'printing.cpp', libs=LIBS)
    gen, model = sc.gen_scripts(chk.work, 'PrintingGen.tla')
    r = random.Random(SEED * 7919 + 34)
    lines = [o for s in gen for o in s.ops]
    scripts = [sc.Script('g%d' % k, lines[k:k + 30]) for k in range(0, len(lines), 30)]
    scripts += [script(r, i) for i in range(3000 if THOROUGH else 300)]
    res = sc.run_check(chk, exe, scripts, 'PrintingTrace.tla', limit=20)
    chk.coverage = sc.coverage([res], [model])
    return chk.finish()
