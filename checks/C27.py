import random
from vt import *
import seq_check as sc

LIBS = ['-licuuc', '-licudata', '-lboost_iostreams', '-lboost_serialization', '-lcurl', '-lssl', '-lcrypto', '-lzip', '-lz']
PATHS = ['a', 'b', 'd', 'd/a', 'd/b.txt', 'd/e', 'd/e/f', 'd/e/f/g', 'd/é', 'x y', 'q/r/s', 'q', 'q/r', 'a/b', 'dd', 'd.z']
WHOLE = ['string', 'chars', 'view', 'path', 'entry', 'from', 'copy', 'move', 'massign', 'pathassign', 'entryassign', 'clone', 'get']
PARTS = ['pair', 'filepair', 'div', 'divc', 'divv', 'divlist', 'diveq', 'diveqc', 'diveqv', 'append', 'sub', 'child', 'plus']
SIZES = [0, 1, 2, 3, 20, 100, 511, 512, 513, 1000, 2047, 2048, 2049, 4095, 4096, 4097, 5461, 8191, 8192, 8193, 16384, 20000]
HOW = ['', '', 'close', 'twice', 'moved']


def text(r, sizes=SIZES):
    k = r.random()
    if k < 0.45:
        return 'x' + ','.join(str(r.choice([10, 10, 97, 98, 32, 13, 233, 0x4e2d, 0x1f600, 0x10ffff, 0x7ff, 0x800, 0xffff, 0x10000, 127, 128, 0, 0xfeff if False else 65])) for _ in range(r.choice([0, 1, 2, 3, 8, 20])))
    if k < 0.85:
        return 'p%d.%d' % (r.choice(sizes), r.randrange(5))
    return 'b%d.%d' % (r.choice(sizes), r.randrange(1, 9))


def chunk(r):
    return r.choice([1, 2, 3, 7, 64, 100, 1000, 4096, 8192, 100000])


def mkfile(r, slot):
    p = r.choice(PATHS)
    if '/' in p and r.random() < 0.6:
        k = r.choice([i for i in range(len(p)) if p[i] == '/'])
        return sc.op('file', slot, r.choice(PARTS), p[:k], p[k + 1:])
    return 'file %s %s  %s' % (slot, r.choice(WHOLE), sc.enc(p))


def script(r, i):
    ops = [mkfile(r, s) for s in range(6)]
    if r.random() < 0.8:
        ops += ['file 9 string  d', 'mk 9', 'file 8 string  d/e', 'mk 8']
    for _ in range(r.choice([8, 15, 25])):
        s = r.choice([0, 1, 2, 3, 4, 5, 8, 9]) if len(ops) > 8 and ops[6].startswith('file 9') else r.randrange(6)
        k = r.random()
        kind = r.choice(['bytes', 'text', 'ubytes', 'utext'])
        if k < 0.1:
            ops.append(sc.op('mk', s))
        elif k < 0.2:
            ops += [sc.op('rm', s), sc.op('stat', s)]
        elif k < 0.42:
            c = text(r)
            ops += [sc.op('write', s, 'bytes' if c[0] == 'b' else kind, c, chunk(r), r.choice(HOW)), sc.op('stat', s), sc.op('read', s, r.choice(['bytes', 'text', 'ubytes', 'utext', 'string', 'vector']), chunk(r), r.choice(HOW))]
        elif k < 0.54:
            ops.append(sc.op('read', s, r.choice(['bytes', 'text', 'ubytes', 'utext', 'string', 'vector']), chunk(r), r.choice(HOW)))
        elif k < 0.6:
            ops.append(sc.op('lines', s))
        elif k < 0.68:
            ops.append(sc.op('stat', s))
        elif k < 0.78:
            ops.append(sc.op('iter', s, r.choice(['flat', 'deep', 'uflat', 'udeep'])))
        elif k < 0.82:
            ops += ['file 7 string  n%d' % len(ops), sc.op('cp', s, 7), sc.op('read', 7, 'bytes', 100, '')] if False else [sc.op('abs', s)]
        elif k < 0.86:
            ops.append(sc.op('parent', s, r.choice([s, 6])))
            ops.append(sc.op('rel', s, r.randrange(6)))
        elif k < 0.9:
            ops.append(sc.op('rel', s, r.randrange(6)))
        elif k < 0.97:
            ops.append(sc.op('cmp', s, r.choice([s, r.randrange(6)])))
        else:
            ops.append(mkfile(r, s))
    return sc.Script('r%d' % i, ops)


def copies(r, i):
    c = text(r)
    return sc.Script('c%d' % i, ['file 0 string  a', 'file 1 string  d/b', 'file 2 string  d', 'mk 2', 'file 3 string  d/none', sc.op('write', 0, 'bytes', c, chunk(r), ''), 'cp 0 1', 'read 1 bytes 100 ', 'stat 1',
                                 sc.op('write', 0, 'bytes', text(r), 9, ''), 'read 1 string 1 ', 'lines 1', 'lines 2', 'read 2 string 1 ', 'read 2 vector 1 ', 'lines 3', 'read 3 vector 1 ', 'cp 3 0', 'rm 0', 'read 1 vector 1 ', 'iter 2 deep'])


def strings(r, i):
    ops = [sc.op('snew', 0, text(r, [0, 5, 100, 400]), r.choice(['', 'copy', 'move', 'clone'])), sc.op('snew', 1, 'x97', '')]
    big = [0, 1, 5, 50, 99, 100, 101, 127, 128, 129, 300, 511, 512, 513] + ([4096, 5000] if r.random() < 0.1 else [])
    for _ in range(r.choice([2, 4, 6])):
        s, k = r.randrange(2), r.random()
        if k < 0.4:
            c = text(r, big)
            ops.append(sc.op('swrite', s, r.choice(['bytes', 'ubytes']) if c[0] == 'b' else r.choice(['bytes', 'text', 'ubytes', 'utext']), c, chunk(r), r.choice(HOW)))
        elif k < 0.6:
            ops.append(sc.op('sapp', s, text(r, [0, 5, 60]), r.choice(['', 'char', 'code'])))
        else:
            ops.append(sc.op('scmp', 0, 1))
        ops.append(sc.op('sread', s, r.choice(['bytes', 'text', 'ubytes', 'utext', 'get']), chunk(r), r.choice(HOW)))
    if r.random() < 0.2:
        t = text(r, [3, 9])
        ops += [sc.op('snew', 0, t, ''), sc.op('snew', 1, t, 'clone'), 'scmp 0 1']
    return sc.Script('s%d' % i, ops)


def main():
    chk = Check('C27', 'model_checking')
    exe = build_plain(chk.work, 'files.cpp', libs=LIBS)
    gen, model = sc.gen_scripts(chk.work, 'FilesGen.tla')
    r = random.Random(SEED * 7919 + 27)
    n = 8 if THOROUGH else 1
    scripts = list(gen) + [script(r, i) for i in range(3000 * n)] + [copies(r, i) for i in range(100 * n)] + [strings(r, i) for i in range(1000 * n)]
    res = sc.run_check(chk, exe, scripts, 'FilesTrace.tla')
    chk.coverage = sc.coverage([res], [model])
    return chk.finish()
