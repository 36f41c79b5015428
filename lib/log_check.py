"""Scripts for the logging system."""
import os
from vt import *
import seq_check as sc

LIBS = ['-licuuc', '-licudata', '-lboost_iostreams', '-lcurl', '-lssl', '-lcrypto', '-lzip', '-lz']
UNITS = ['Logger', 'Impl/LoggerAllocator', 'Impl/LoggerHolder', 'Impl/LoggerItems', 'Impl/LoggingState', 'Impl/LoggingStreams']
LEVELS = ['trace', 'debug', 'info', 'warn', 'error']
STREAMS = ['stream'] + [l + '-stream' for l in LEVELS]


def build(work, harness='logging.cpp'):
    units = [(os.path.join(REPO, 'src/main/cpp/Balau/Logging', u + '.cpp'), 'log_' + os.path.basename(u) + '.o', PLAIN) for u in UNITS]
    return build_plain(work, harness, units, LIBS)


URIS = ['rec:1', 'rec:2', 'rec:3', 'rec:two', 'stdout', 'stderr', 'file:///@D/a.log', 'file:///@D/sub/b.log', 'rec', 'rec:${user.home}/x', 'rec:${executable}', 'rec:${p1}', '${p2}', 'file:///@D/${executable}-x.log']
NAMES = ['.', 'a', 'a.b', 'a.b.c', 'a.bc', 'ab', 'ab.c', 'b', 'b.a', 'com.borasoftware', 'com.borasoftware.a', 'com.bora', 'com', 'A', 'a.b.c.d.e', 'Zoo1.x_y.w2']
ITEMS = ['%Y', '%y', '%m', '%d', '%H', '%M', '%S', '%thread', '%level', '%LEVEL', '%namespace', '%ns', '%filename', '%filepath', '%message', '%%', '%"', 'x', ' ', '-', '[', ']', '%q', '%', 'message', ' | ', '%Level', '%nam', '%message', 's']
MESSAGES = ['hello', '', '{}', 'a {} b', '{}{}', '{} {} {}', 'no', 'x {} y {} z {} w {}', '{', '}', '{x}', '} {', '{{}', '{{}}', 'a{', '{}}', '100%', '%message', '%level {}', 'tail{}', '{ }', 'é {} 漢', '{a{}b}', 'a\tb', '"q" {}', '{{', '{a{', '{}{a}{}']
PARAMS = ['p', '42', '', '{}', 'two words', '%ns', 'é', '-1', 'x' * 300]
HOWS = ['c', 'v', 'f', 'lc', 'lv', 'lf', 'gc', 'gv', 'gf', 'glc', 'glv', 'glf', 'm']


def fmt(r):
    while True:
        f = ''.join(r.choice(ITEMS) for _ in range(r.randrange(1, 7))).strip()
        if r.random() < 0.7 and '%message' not in f:
            f = (f + r.choice(['', ' ', '-']) + '%message').strip()
        # A format in quotes that are part of it is ambiguous.
        if f and not f.startswith('"') and not f.startswith('%"'):
            return '"%s"' % f if r.random() < 0.15 else f


def props(r, root=False):
    p = []
    if r.random() < 0.6:
        l = r.choice(LEVELS + ['none'])
        p.append(('level', r.choice([l, l, l.upper(), l.capitalize()])))
    if r.random() < (0.7 if root else 0.4):
        p.append(('format', fmt(r)))
    if r.random() < 0.4:
        p.append(('flush', r.choice(['true', 'false', 'false', 'False', 'FALSE', 'TRUE'])))
    if r.random() < 0.6:
        for s in r.sample(STREAMS, r.choice([1, 1, 2, 2, 3, 6])):
            u = r.choice(URIS)
            p.append((s, '"%s"' % u if r.random() < 0.1 else u))
    r.shuffle(p)
    return p


def conf(via, ph, spaces):
    words = [';'.join([n] + ['%s=%s' % x for x in p]) for n, p in spaces]
    return sc.op('conf', via, ';'.join('%s=%s' % x for x in ph), *words)


PH = [('p1', 'one'), ('p2', 'rec:2')]


def logs(r, n, loggers):
    ops = []
    for _ in range(n):
        how = r.choice(HOWS)
        level = 'none' if how[0] == 'g' and r.random() < 0.05 else r.choice(LEVELS)
        ops.append(sc.op('log', r.randrange(1, loggers + 1), level, how, r.choice(MESSAGES), *[r.choice(PARAMS) for _ in range(r.choice([0, 0, 1, 1, 2, 3]))]))
    return ops


def script(r, i):
    ops, n = [], 0
    names = r.sample(NAMES, r.randrange(2, 7))
    if r.random() < 0.3:
        ops.append(sc.op('get', r.choice(names)))
        n = 1
    for k in range(r.choice([1, 2, 2, 3])):
        x = r.random()
        if x < 0.85 and r.random() < 0.1:
            # Configuration that includes files.
            files, words = [], []
            for f in ['@D/a.conf', '@D/b.conf'][:r.randrange(1, 3)]:
                w = [';'.join([m] + ['%s=%s' % y for y in props(r, m == '.') if '$' not in y[1]]) for m in r.sample(NAMES, r.randrange(0, 4))]
                if files and r.random() < 0.7:
                    w.insert(r.randrange(len(w) + 1), r.choice(['@~a.conf', '@@D/a.conf']))
                ops.append(sc.op('file', f, *w))
                files.append(f)
            w = [';'.join([m] + ['%s=%s' % y for y in props(r, m == '.') if '${p' not in y[1]]) for m in r.sample(NAMES, r.randrange(0, 3))]
            for f in files:
                w.insert(r.randrange(len(w) + 1), '@' + f)
            ops.append(sc.op('conf', 'plain', '', *w))
        elif x < 0.85:
            picked = r.sample(NAMES, r.randrange(0, 6))
            spaces = [(m, props(r, m == '.')) for m in picked]
            via = r.choice(['plain', 'equals', 'colon', 'env'])
            if via != 'env' and picked and r.random() < 0.2:
                spaces.append((r.choice(picked), props(r)))
            ph = [] if via == 'plain' else list(PH)
            if not ph:
                spaces = [(m, [(a, b) for a, b in p if '${p' not in b]) for m, p in spaces]
            ops.append(conf(via, ph, spaces))
        elif x < 0.92:
            ops.append('reset')
        else:
            ops.append(sc.op('raw', r.choice(['a {', 'a { level = info', '}', 'a { level\n', 'x { y = 1 } }\n}'])))
        for m in r.sample(names, r.randrange(1, len(names) + 1)):
            ops.append(sc.op('get', m))
            n += 1
        if r.random() < 0.6:
            ops.append('st')
        ops += logs(r, r.randrange(1, 9), n)
        if r.random() < 0.3:
            ops.append(sc.op('lflush', r.randrange(1, n + 1)))
        if r.random() < 0.3:
            ops.append('fall')
        if r.random() < 0.2:
            ops.append(sc.op('thread', r.choice(['worker', '', 'main', 'T 2'])))
        if r.random() < 0.4:
            ops.append(sc.op('peek', '@D/a.log', '@D/sub/b.log'))
        if r.random() < 0.1:
            ops.append(sc.op('lock', r.choice([0, 0, 1])))
    ops += ['fall', sc.op('peek', '@D/a.log', '@D/sub/b.log'), 'st']
    if i % 25 == 0:
        ops.append('badfile')
    return sc.Script('r%d' % i, ops)


def streams(r, n):
    """Sets of stream options at two levels of the tree."""
    def group(mask, tag):
        return [(s, 'rec:%s%d' % (tag, k)) for k, s in enumerate(STREAMS) if mask >> k & 1]
    out = []
    for i in range(n):
        a, b = r.randrange(64), r.randrange(64)
        spaces = [('.', [('level', 'trace'), ('format', '%message')] + group(a, 'r')), ('a', group(b, 'a'))]
        ops = [conf('equals', [], spaces), 'get .', 'get a', 'get a.b', 'get b']
        for l in range(1, 5):
            ops += [sc.op('log', l, x, 'c', 'm') for x in LEVELS]
        out.append(sc.Script('s%d' % i, ops))
    return out
