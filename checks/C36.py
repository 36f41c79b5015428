import random
from vt import *
import seq_check as sc

LIBS = ['-licuuc', '-licudata']


def w(v):
    return '.'.join(map(str, v)) if v else '-'


def numbers(r, k=9):
    return [r.choice([1, 2, 3, 5, 8, 100, 0]) for _ in range(r.choice([0, 0, 1, 2, 3, r.randrange(k)]))]


def text(r):
    return [r.choice([97, 98, 32, 10, 10, 13, 233, 0x7f, 9]) for _ in range(r.choice([0, 1, 2, 5, r.randrange(200)]))]


def script(r, i):
    ops = [sc.op('init', w(numbers(r)))]
    for _ in range(r.randrange(4, 16)):
        o = r.choice(['append', 'append', 'more', 'push', 'concat', 'map', 'contains', 'pointers', 'lines', 'consume', 'put', 'put', 'put', 'entry', 'clear'])
        if o in ('more', 'concat'):
            ops.append(sc.op(o, *(w(numbers(r)) for _ in range(3))))
        elif o == 'contains':
            ops.append(sc.op(o, w(numbers(r)), w(numbers(r))))
        elif o == 'pointers':
            ops.append(sc.op(o, w(numbers(r, 5)[:4])))
        elif o == 'lines':
            ops.append(sc.op(o, w(text(r))))
        elif o == 'consume':
            ops.append(sc.op(o, *(w(text(r)) for _ in range(r.randrange(1, 5)))))
        elif o == 'put':
            ops.append(sc.op(o, r.randrange(4), r.randrange(4), r.choice(['whole', 'key', 'key']), r.choice(['replace', 'add'])))
        elif o == 'entry':
            ops.append(sc.op(o, r.randrange(4), r.randrange(4)))
        elif o == 'clear':
            ops.append(r.choice(['clear', 'push -']))
        else:
            ops.append(sc.op(o, w(numbers(r))))
    return sc.Script('r%d' % i, ops)


def main():
    chk = Check('C36', 'model_checking')
    exe = build_plain(chk.work, 'collections.cpp', libs=LIBS)
    gen, model = sc.gen_scripts(chk.work, 'CollectionsGen.tla')
    r = random.Random(SEED * 7919 + 36)
    scripts = gen + [script(r, i) for i in range(20000 if THOROUGH else 2000)]
    res = sc.run_check(chk, exe, scripts, 'CollectionsTrace.tla')
    chk.coverage = sc.coverage([res], [model])
    return chk.finish()
