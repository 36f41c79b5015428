import random
from vt import *
import seq_check as sc

INTS = ['0', '7', '-1', '+5', '-0', '007', '32767', '32768', '-32768', '-32769', '65535', '65536', '2147483647', '2147483648', '-2147483648', '-2147483649', '4294967295', '4294967296',
        '9223372036854775807', '9223372036854775808', '-9223372036854775808', '-9223372036854775809', '18446744073709551615', '18446744073709551616', '-18446744073709551615',
        '99999999999999999999999', '12k', '1.5', 'k', '', '-', '+', '1 2', '--5', '0x10', '1e3', '1,000']
FLOATS = ['0', '-2.5', '2.25', '12.125', '+1.5', '.5', '5.', '1e2', 'inf', 'nan', '1.2.3', '1.5v', 'k', '', '-', '1,5', '-0.75', '1234.5', '9999.001', '1e999', '0x1p3']
TEXTS = ['v', 'file.txt', '-4', '--kk', 'a b', ' v ', 'é', 'x=y', '', '-', 'k', 'f', '1', '漢']


def script(r, i):
    st = r.choice(['space', 'equals', 'detect'])
    ops = [sc.op('new', st)]
    opts = []
    for k in r.sample([1, 2, 3, 4, 5], r.choice([1, 3, 5])):
        s, l = 'abcde'[k - 1], r.choice(['alpha', 'beta', 'gamma', 'delta', 'e2'])[:1 + r.randrange(5)] + str(k)
        v = r.random() < 0.6
        doc = r.choice(['', 'd', 'Some text. ' * r.randrange(1, 8), 'x' * r.choice([19, 20, 21, 25, 26, 40, 80, 81])])
        kind = r.random()
        if kind < 0.6:
            ops.append(sc.op('opt', k, s, l, int(v), doc))
        elif kind < 0.85:
            ops.append(sc.op('opt1', k, s, int(v), doc))
            l = None
        else:
            v = False
            ops.append(sc.op('help', k, s, l, doc))
        opts.append((k, s, l, v))
    ops.append(sc.op('final', r.choice(['no', 'yes', 'maybe'])))
    for _ in range(r.choice([1, 1, 2, 3])):
        ignore = r.random() < 0.5
        style = st if st != 'detect' else r.choice(['space', 'equals'])
        args = ['app'] if ignore else []
        for _ in range(r.choice([0, 1, 2, 2, 3, 4])):
            k, s, l, v = r.choice(opts)
            val = r.choice([r.choice(TEXTS), r.choice(INTS), r.choice(INTS), r.choice(FLOATS)])
            if style == 'space':
                args.append(r.choice(['', '', '', ' ']) + ('--' + l if l and r.random() < 0.5 else '-' + s))
                if v:
                    args.append(val)
            else:
                name = l if l and r.random() < 0.5 else s
                args.append(name + r.choice(['', '', ' ']) + '=' + val if v else name)
            if r.random() < 0.08:
                args.append(r.choice(['zz', '-zz', '--zz', 'zz=1', 'mid']))
        for _ in range(r.choice([0, 1, 1, 1, 2])):
            args.append(r.choice(['file', '12', '2.5', ' pad ', 'k', 'x', '1.5v', '-7.25']))
        ops.append(sc.op('parse', int(ignore), *args))
        if r.random() < 0.2:
            ops.append(sc.op('copy', r.choice(['copy', 'move', 'assign', 'massign'])))
        ops.append(sc.op('seen'))
        for k, s, l, v in opts + [(6, '', '', False)]:
            kinds = ['short', 'ushort', 'int', 'uint', 'long', 'ulong']
            for kind in kinds:
                ops.append(sc.op('num', kind, r.choice(['default', 'none']), k))
            for kind in ('float', 'double'):
                ops.append(sc.op('flt', kind, r.choice(['default', 'none']), k))
        for k in range(3):
            ops += [sc.op('fin', k), sc.op('ffl', r.choice(['float', 'double']), r.choice(['default', 'none']), k)]
    ops.append(sc.op('helptext', r.choice([0, 2, 4]), r.choice([0, 10, 30, 80]), r.choice(['detect', 'detect', 'space', 'equals'])))
    return sc.Script('r%d' % i, ops)


def main():
    chk = Check('C21', 'model_checking')
    exe = build_plain(chk.work, 'cmdline.cpp', libs=['-licuuc', '-licudata'])
    gen, model = sc.gen_scripts(chk.work, 'CommandLineGen.tla')
    r = random.Random(SEED * 7919 + 21)
    scripts = list(gen) + [script(r, i) for i in range(30000 if THOROUGH else 3000)]
    res = sc.run_check(chk, exe, scripts, 'CommandLineTrace.tla')
    chk.coverage = sc.coverage([res], [model])
    return chk.finish()
