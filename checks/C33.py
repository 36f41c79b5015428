import random
from vt import *
import seq_check as sc

LIBS = ['-licuuc', '-licudata', '-lboost_iostreams', '-lboost_serialization', '-lcurl', '-lssl', '-lcrypto', '-lzip', '-lz']
KINDS = ['crc32', 'md5', 'sha1', 'sha256', 'sha3', 'keccak']
BUFFER = 144 * 7 * 1024


def length(r, k):
    b = 136 if k in ('sha3', 'keccak') else 64
    return max(0, r.choice([0, 1, b, 2 * b, b - 8, 2 * b - 8, r.randrange(3 * b), r.randrange(40)]) + r.choice([0, 0, 1, -1, 2]))


def script(r, i):
    k = KINDS[i % 6]
    ops = [sc.op('whole', k, length(r, k), r.randrange(1000)) for _ in range(3)] + [sc.op('new', k)]
    total = 0
    for _ in range(r.randrange(2, 12)):
        x = r.random()
        if x < 0.6:
            n = length(r, k)
            total += n
            if total < 700:
                ops.append(sc.op('add', n))
        elif x < 0.8:
            ops.append(sc.op('get'))
        elif x < 0.9:
            ops.append(sc.op('reset'))
            total = 0
        else:
            ops += [sc.op('call', length(r, k)), sc.op('reset')]
            total = 0
    return sc.Script('r%d' % i, ops + [sc.op('get')])


def main():
    chk = Check('C33', 'model_checking')
    exe = build_plain(chk.work, 'digest.cpp', libs=LIBS)
    gen, model = sc.gen_scripts(chk.work, 'DigestGen.tla')
    r = random.Random(SEED * 7919 + 33)
    whole = [o for s in gen for o in s.ops if o.startswith('whole')]
    scripts = [sc.Script('w%d' % k, whole[k:k + 20]) for k in range(0, len(whole), 20)]
    objects = [s for s in gen if not s.ops[0].startswith('whole')]
    r.shuffle(objects)
    scripts += objects if THOROUGH else objects[:2500]
    scripts += [script(r, i) for i in range(6000 if THOROUGH else 600)]
    for k in KINDS:
        scripts.append(sc.Script('n' + k, [sc.op('nofile', k, w) for w in ('missing', 'directory', 'dangling', 'limit')]))
        scripts.append(sc.Script('l' + k, [sc.op('long', k, n, r.randrange(1000)) for n in (BUFFER - 1, BUFFER, BUFFER + 1, 2 * BUFFER, r.randrange(3 * BUFFER))]))
        scripts.append(sc.Script('t' + k, [sc.op('threads', k, n) for n in (2000000, 40000)] * (5 if THOROUGH else 1)))
    res = sc.run_check(chk, exe, scripts, 'DigestTrace.tla')
    chk.coverage = sc.coverage([res], [model])
    return chk.finish()
