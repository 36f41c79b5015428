import random
import struct
from vt import *
import seq_check as sc

LIBS = ['-licuuc', '-licudata']
KINDS = {'byte': (-2**7, 2**7 - 1), 'ubyte': (0, 2**8 - 1), 'short': (-2**15, 2**15 - 1), 'ushort': (0, 2**16 - 1), 'int': (-2**31, 2**31 - 1), 'uint': (0, 2**32 - 1),
         'long': (-2**63, 2**63 - 1), 'ulong': (0, 2**64 - 1), 'longlong': (-2**63, 2**63 - 1), 'ulonglong': (0, 2**64 - 1)}
POINTS = [97, 48, 32, 233, 8364, 128512, 127, 128, 255, 256, 2047, 2048, 55295, 57344, 65535, 65536, 1114111]


def w(s):
    s = [ord(c) for c in s] if isinstance(s, str) else list(s)
    return '.'.join(map(str, s)) if s else '-'


def in_base(n, b):
    u, r = abs(n), ''
    while True:
        r = '0123456789abcdefghijklmnopqrstuvwxyz'[u % b] + r
        u //= b
        if not u:
            return ('-' if n < 0 else '') + r


def number(r, lo, hi):
    return r.choice([lambda: r.randint(lo, hi), lambda: r.choice([lo, hi]) + r.randint(-2, 2), lambda: r.randint(lo * 3, hi * 3), lambda: r.choice([1, -1]) * r.getrandbits(r.randrange(1, 70)),
                     lambda: r.choice([2**32, 2**64, 2**16, 2**8, 2**31, 2**63]) * r.choice([1, 2, -1]) + r.randint(-3, 3), lambda: r.randint(-20, 20)])()


def spoil(r, t):
    i = r.randrange(len(t) + 1)
    return t[:i] + r.choice(['x', ' ', '-', '.', '\x00', ',', '\u0660', 'L', '9' * 30, '_', "'"]) + t[i:] if i else t + r.choice(['x', ' ', '-', '.', '\x00', '\u20ac'])


def string(r):
    return [r.choice(POINTS + [r.randrange(0xD800), r.randrange(0xE000, 0x110000)]) for _ in range(r.choice([0, 1, 2, 5, r.randrange(40)]))]


def finite(r, kind):
    if kind == 'float':
        while True:
            b = struct.pack('<f', r.choice([r.uniform(-10, 10), r.uniform(-1e9, 1e9), 0.1 * r.randrange(100), float(r.randrange(-10**6, 10**6))])) if r.random() < 0.5 else r.randbytes(4)
            if b[3] & 0x7F != 0x7F or b[2] < 0x80:
                return b
    while True:
        b = struct.pack('<d', r.choice([r.uniform(-10, 10), r.uniform(-1e9, 1e9), 0.1 * r.randrange(100), float(r.randrange(-10**15, 10**15))])) if r.random() < 0.5 else r.randbytes(8)
        e = (b[7] & 0x7F) << 4 | b[6] >> 4
        if e == 0x7FF:
            continue
        if kind == 'double':
            return b
        # A long double: 64 bits with the leading one, and the exponent.
        return r.randbytes(7) + bytes([r.randrange(128, 256)]) + struct.pack('<H', r.randrange(2) << 15 | r.choice([16383 + r.randrange(-60, 60), r.randrange(100, 32766)]))


def script(r, i):
    ops = []
    for _ in range(4):
        for k, (lo, hi) in KINDS.items():
            t = str(number(r, lo, hi))
            if r.random() < 0.25:
                t = spoil(r, t)
            ops.append(sc.op('parse', k, w(t)))
            ops.append(sc.op('show', k, w(str(min(hi, max(lo, number(r, lo, hi)))))))
            b = r.randrange(2, 37)
            t = in_base(number(r, lo, hi), b)
            t = r.choice([t, t, t.upper(), t + in_base(r.randrange(b, 37), 37 if False else 36)[-1]])
            # A prefix that tells the base is not used.
            if not (b == 16 and 'x' in t.lower()) and not (b in (2, 16) and t.lower().lstrip('-').startswith(('0x', '0b'))):
                ops.append(sc.op('base', k, w(t), b))
        for k in ('float', 'double', 'longdouble'):
            ops.append(sc.op('bits', k, w(finite(r, k))))
            t = r.choice(['', '-']) + str(r.randrange(10000)) + r.choice(['', '.', '.%d' % r.randrange(10), '.%03d' % r.randrange(1000)])
            ops.append(sc.op('real', k, w(t if r.random() < 0.7 else spoil(r, t).replace("'", 'k').replace('L', 'g').replace('_', '#'))))
            ops.append(sc.op('real', k, w('%de%d' % (r.randrange(1, 999), r.choice([39, 40, 308, 309, 310, 400, 4932, 4933, 5000, 20000])))))
        s = string(r)
        ops.append(sc.op('text', w(s)))
        ops.append(sc.op('first', w(s)))
        ops.append(sc.op('bool', w(r.choice(['true', 'false', 'TRUE', 'False', 'tRuE', 'yes', '1', '0', '', 'true ', ' false', 'truefalse', 'tru', 'falsey', 'tr\u00fce', 'true\x00', 'fal\u017fe']))))
        ops.append(sc.op('rows', *[r.choice([r.randrange(-3, 6), r.randrange(-2**31, 2**31)]) for _ in range(r.choice([0, 1, 2, 3, 8]))]))
        ops.append(sc.op('pack', number(r, -2**63, 2**63 - 1) if False else r.choice([0, -1, 2**63 - 1, -2**63, r.randrange(-10**6, 10**6)]), w([c for c in string(r) if c]), w([r.choice(POINTS)]), r.randrange(2)))
    ops.append(sc.op('char', w([r.choice(POINTS + [r.randrange(0xD800), r.randrange(0xE000, 0x110000)]) for _ in range(12)])))
    return sc.Script('r%d' % i, ops)


def main():
    chk = Check('C30', 'model_checking')
    exe = build_plain(chk.work, 'convert.cpp', libs=LIBS)
    gen, model = sc.gen_scripts(chk.work, 'ConvertGen.tla')
    r = random.Random(SEED * 7919 + 30)
    lines = [o for s in gen for o in s.ops]
    scripts = [sc.Script('g%d' % k, lines[k:k + 40]) for k in range(0, len(lines), 40)]
    scripts += [script(r, i) for i in range(4000 if THOROUGH else 300)]
    scripts.append(sc.Script('chars', [sc.op('char', w(range(0, 700)))]))
    res = sc.run_check(chk, exe, scripts, 'ConvertTrace.tla')
    chk.coverage = sc.coverage([res], [model])
    return chk.finish()
