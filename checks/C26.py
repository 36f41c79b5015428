"""Zip archives: transactions, reading, zip file URIs; gzip."""
import random
from vt import *
import seq_check as sc

LIBS = ['-licuuc', '-licudata', '-lboost_iostreams', '-lboost_serialization', '-lcurl', '-lssl', '-lcrypto', '-lzip', '-lz']
FILES = ['a', 'b', 'a b', 'd/x', 'd/y', 'd/e/x', 'd/e/f/z', 'q/r/s', 'long-name.with.dots-and_more', 'é', 'd/中', 'dd', 'd/e', 'x', 'A', 'd/X', 'X']
DIRS = ['d/', 'd/e/', 'd/e/f/', 'q/', 'q/r/', 'm/n/', 'w/', 'dd/', 'q/r/s/t/']
SIZES = [0, 1, 2, 5, 100, 2047, 2048, 2049, 4096, 5000, 8192, 20000]


def content(r):
    n = r.choice(SIZES)
    return 't0' if n == 0 else '%s%d.%d' % (r.choice('tttbz'), n, r.randrange(9))


def untidy(r, n):
    k = r.random()
    if k < 0.75:
        return n
    if k < 0.83:
        return '/' + n
    if k < 0.9:
        return n.replace('/', '//')
    if k < 0.95:
        return ' ' + n
    return '//' + n.replace('/', '///')


def comment(r):
    return r.choice(['', '', 'c', 'a comment', 'é€', 'x' * 20])


def fixture(r, f, pw='', store=False):
    names = r.sample(FILES, r.choice([0, 1, 2, 4, 8])) + r.sample(DIRS, r.choice([0, 1, 2, 4]))
    r.shuffle(names)
    parts = []
    for n in names:
        c = r.choice(['', '', 'note', 'é'])
        parts.append('%s::%s:' % (n, c) if n.endswith('/') else '%s:%s:%s:%s' % (n, content(r), c, 'store' if store or r.random() < 0.3 else ''))
    return sc.op('fixture', f, comment(r), pw, *parts), parts


def look(r, w, f):
    k = r.random()
    if k < 0.3:
        return sc.op('has', w, untidy(r, r.choice(FILES + DIRS)))
    if k < 0.5:
        return sc.op('state', w)
    if k < 0.8:
        return sc.op('read', w, untidy(r, r.choice(FILES + DIRS)))
    if k < 0.95:
        return sc.op('readi', w, r.choice([-1, 0, 0, 1, 2, 3, 5, 8, 20]))
    return sc.op('state', w)


def script(r, i):
    ops = []
    pw = r.choice(['', '', '', 'secret'])
    for f in 'fg':
        if r.random() < 0.6:
            ops.append(fixture(r, f, pw)[0])
        elif r.random() < 0.3:
            ops.append(sc.op('junk', f, r.choice(['text', 'empty', 'dir'])))
        if r.random() < 0.3:
            ops.append(sc.op('disk', f, pw))
    opened = {'u': False, 'z': False}
    n = r.choice([3, 8, 15, 30])
    later = False
    cur = None
    for _ in range(n):
        k = r.random()
        w = r.choice('uz')
        if k < 0.12:
            if opened[w]:
                ops.append(sc.op('close', w))
                opened[w] = later = False if w == 'z' else later
                opened[w] = False
                if r.random() < 0.5 and cur:
                    ops.append(sc.op('disk', cur, pw))
            else:
                f = r.choice('ffg')
                ops.append(sc.op('close', w))
                ops.append(sc.op('open', w, f, r.choice(['no', 'verify']), *r.choice([[], [], [pw], [pw], ['wrong']])))
                opened[w] = True          # or it failed, and the next operations find it closed
                if w == 'z':
                    cur, later = f, False
                ops.append(sc.op('state', w))
        elif k < 0.3:
            ops.append(look(r, w, None))
        elif k < 0.5:
            ops.append(sc.op('put', r.choice(['string', 'bytes', 'file']), untidy(r, r.choice(FILES)) if r.random() < 0.95 else r.choice(DIRS), content(r)))
        elif k < 0.56:
            ops.append(sc.op('putdir', untidy(r, r.choice(DIRS)) if r.random() < 0.9 else r.choice(['', '/', 'a', 'd/x'])))
        elif k < 0.68:
            ops.append(sc.op('delete', untidy(r, r.choice(FILES + DIRS))))
        elif k < 0.8:
            a, b = r.choice([(FILES, FILES), (DIRS, DIRS), (FILES, FILES), (DIRS, DIRS), (FILES, DIRS), (DIRS, FILES)])
            ops.append(sc.op('rename', untidy(r, r.choice(a)), untidy(r, r.choice(b))))
        elif k < 0.85:
            ops.append(sc.op('comment', r.choice(['', 'new comment', 'é', 'y' * 300])) if r.random() < 0.8 else 'nocomment')
        elif k < 0.92:
            if later:
                ops += ['commit', sc.op('state', 'z')]
                if cur:
                    ops.append(sc.op('disk', cur, pw))
                if r.random() < 0.7:
                    ops.append(sc.op('provide', 'b300.3'))
            ops.append('commit')
            if cur:
                ops.append(sc.op('disk', cur, pw))
            if not later or 'provide b300.3' in ops:
                opened['z'] = later = False
        elif k < 0.94 and opened['z'] and not later:
            # The file the entry is made from is not there when the transaction commits.
            ops.append(sc.op('put', 'later', 'later/e', 'b300.3'))
            later = True
        elif k < 0.97:
            ops.append(sc.op('iter', r.choice(['direct', 'uri', 'moved', 'assigned']), r.choice('fg'), r.choice([pw, pw, pw, '', 'wrong'])))
        elif k < 0.98:
            ops.append('fresh')
            opened = {'u': False, 'z': False}
            later = False
        else:
            ops.append(sc.op('disk', r.choice('fg'), pw))
    return sc.Script('r%d' % i, ops)


def damaged(r, i):
    op, parts = fixture(r, 'f', store=True)
    good = [p.split(':') for p in parts if not p.split(':')[0].endswith('/') and p.split(':')[1] != 't0']
    if not good:
        return sc.Script('d%d' % i, [op, 'iter uri f '])
    g = r.choice(good)
    size = int(g[1][1:].split('.')[0])
    return sc.Script('d%d' % i, [op, sc.op('damage', 'f', g[0], r.choice([0, size - 1, size // 2])), 'open u f no', sc.op('read', 'u', g[0]), 'readi u 0', 'readi u 1', 'iter direct f ',
                                 'open z f no', 'put string new t30.1', 'commit', 'disk f ', 'close u', 'open u f no', 'read u new', sc.op('read', 'u', g[0])])


def gz(r, i):
    return sc.Script('z%d' % i, [sc.op('gzip', r.choice(['file', 'string', 'stream']), content(r), r.choice(['file', 'string', 'stream']), 'none') for _ in range(4)]
                     + [sc.op('gzip', 'string', 'b%d' % r.choice([5, 100, 5000]), r.choice(['file', 'string', 'stream']), r.choice(['cut', 'flip', 'text']))])


def main():
    chk = Check('C26', 'model_checking')
    exe = build_plain(chk.work, 'zip.cpp', libs=LIBS)
    gen, model = sc.gen_scripts(chk.work, 'ZipGen.tla')
    r = random.Random(SEED * 7919 + 26)
    scripts = (gen if THOROUGH else r.sample(gen, min(len(gen), 1500))) + [script(r, i) for i in range(12000 if THOROUGH else 2500)]
    scripts += [damaged(r, i) for i in range(1500 if THOROUGH else 200)] + [gz(r, i) for i in range(1500 if THOROUGH else 200)]
    res = sc.run_check(chk, exe, scripts, 'ZipTrace.tla')
    chk.coverage = sc.coverage([res], [model])
    return chk.finish()
