import random
from vt import *
import seq_check as sc

LIBS = ['-licuuc', '-licudata']
LETTERS = [97, 98, 99, 97, 98, 32, 44, 233, 8364, 128512]
CASED = [97, 90, 122, 65, 53, 45, 223, 233, 201, 255, 376, 305, 304, 592, 11375, 8364, 8490, 383, 66560, 66600, 1078, 1046, 969, 937]
SPACES = [32, 32, 160, 5760, 8195, 8232, 8233, 12288, 97, 233, 128512]


def w(s):
    return '.'.join(map(str, s)) if s else '-'


def string(r, letters=LETTERS, most=30):
    n = r.choice([0, 1, 2, 3, 5, 8, r.randrange(most)])
    return [r.choice(letters) for _ in range(n)]


def part(r, s):
    if not s or r.random() < 0.2:
        return string(r, most=4)
    i = r.randrange(len(s))
    return s[i:i + r.choice([1, 1, 2, 3])]


def script(r, i):
    ops = []
    few = r.choice([LETTERS, [97, 98], [97], [44, 97, 8364]])
    for _ in range(3):
        s = string(r, few)
        p = r.choice([lambda: part(r, s), lambda: s[:r.randrange(len(s) + 1)], lambda: s[r.randrange(len(s) + 1):], lambda: s + [97]])()
        ops.append(sc.op('find', w(s), w(p)))
        ops.append(sc.op('replace', w(s), w(p), w(r.choice([string(r, most=5), p + p, p[:1], []]))))
        ops.append(sc.op('split', w(s), w(p), r.randrange(2)))
        cs = r.sample([97, 98, 99, 32, 44], r.randrange(1, 4))
        ops.append(sc.op('regex', w(s), w(cs), r.randrange(2), w(string(r, most=4))))
        ops.append(sc.op('rsplit', w(s), w(cs), r.randrange(2), r.randrange(2), r.randrange(2)))
        t = string(r, CASED)
        ops.append(sc.op('case', w(t), w(r.choice([t, [c - 32 if 97 <= c <= 122 else c for c in t], string(r, CASED)]))))
        ops.append(sc.op('pad', w(s), r.choice([0, 1, len(s), len(s) + 1, max(len(s) - 1, 0), 40]), r.choice([32, 42, 233, 8364, 128512])))
        ops.append(sc.op('trim', w(string(r, SPACES))))
        ops.append(sc.op('trim', w([r.choice(SPACES[:8]) for _ in range(r.randrange(4))] + s + [r.choice(SPACES[:8]) for _ in range(r.randrange(4))])))
        ops.append(sc.op('simplify', w(string(r, [32, 9, 32, 97, 98, 12288]))))
        ops.append(sc.op('join', w(string(r, most=4)), w(string(r, most=4)), *[w(string(r, most=6)) for _ in range(r.randrange(5))]))
        ops.append(sc.op('lines', w(string(r, [10, 13, 97, 98, 233]))))
        ops.append(sc.op('walk', w(string(r, [97, 233, 8364, 128512, 127, 128, 2047, 2048, 55295, 57344, 65535, 65536, 1114111]))))
    ops.append(sc.op('char', w([r.choice([r.randrange(0x110000 - 0x800)] + CASED) for _ in range(10)])))
    return sc.Script('r%d' % i, [o for o in ops])


def main():
    chk = Check('C29', 'model_checking')
    exe = build_plain(chk.work, 'text.cpp', libs=LIBS)
    gen, model = sc.gen_scripts(chk.work, 'TextGen.tla')
    r = random.Random(SEED * 7919 + 29)
    lines = [o for s in gen for o in s.ops]
    scripts = [sc.Script('g%d' % k, lines[k:k + 40]) for k in range(0, len(lines), 40)]
    scripts += [script(r, i) for i in range(12000 if THOROUGH else 1200)]
    scripts.append(sc.Script('ascii', [sc.op('char', w(range(128)))]))
    scripts.append(sc.Script('odd', [sc.op('char', w([127, 128, 2047, 2048, 55295, 57344, 65533, 65535, 65536, 1114110, 1114111, 160, 223, 233, 201, 255, 376, 305, 304, 592, 11375, 8364, 8195, 12288, 8490, 66560, 66600, 128512]))]))
    res = sc.run_check(chk, exe, scripts, 'TextTrace.tla')
    chk.coverage = sc.coverage([res], [model])
    return chk.finish()
