import random
from vt import *
import seq_check as sc

LIBS = ['-licuuc', '-licudata', '-lboost_iostreams', '-lboost_serialization', '-lcurl', '-lssl', '-lcrypto', '-lzip', '-lz']
HOW = ['', 'http', 'copy', 'move', 'assign', 'massign']


def pick(r, *xs):
    return r.choice(xs)


def path(r, absolute=None, dots=False, zip=False):
    n = r.randrange(0, 5)
    parts = [r.choice(['a', 'b.c', 'x y', 'd', 'e', 'f', 'f.x', 'é', '漢字', 'a@b', 'k=v;w', '%20', '~'] + (['.', '..', '..', '...'] if dots else [])) for _ in range(n)]
    p = '/'.join(parts)
    if absolute or (absolute is None and r.random() < 0.5):
        p = '/' + p
    elif not p:
        p = 'a'
    if zip:
        return p.rstrip('/') + '.zip'
    return p + (r.choice(['', '', '/']) if n else '')


def uri(r, scheme=None, host=None):
    u = (scheme or pick(r, 'a', 'http', 'https', 'ftp', 'X-a.b+3', 'urn', 'file', 'h2')) + ':'
    authority = host or r.random() < 0.75
    if authority:
        u += '//'
        if r.random() < 0.4:
            u += pick(r, 'u', 'usr1', 'a.b-c', 'é', 'u%20', '') + '@'
        u += pick(r, 'h', 'localhost', 'example.com', '1.2.3.4', '[::1]', '[2001:db8::7]', 'hôte', 'a-b_c') if host or r.random() < 0.9 else ''
        if r.random() < 0.45:
            u += ':' + (pick(r, '0', '1', '80', '0080', '8080', '65535') if host else pick(r, '0', '80', '0080', '65535', '65536', '65540', '655350', '99999999999999999999999', '8x', 'x', '-1', '+5', ' 5', '5 ', '0x1', ''))
        u += path(r, True) if r.random() < 0.7 else ''
    else:
        u += path(r).lstrip('/') if r.random() < 0.5 else '/' + path(r).lstrip('/')
    if r.random() < 0.5:
        u += '?' + pick(r, '', 'q', 'a=b&c=d', '?', 'x/y', 'u@v:1', '[::]', 'é')
    if r.random() < 0.5:
        u += '#' + pick(r, '', 'f', '#', '?', 'x/y@z:2', '漢')
    return u


def word(s):
    return s if s else ''


def script(r, i):
    ops = []
    for _ in range(6):
        ops.append(sc.op('parse', uri(r), r.choice(HOW)))
    for s in [pick(r, 'a', 'abc', 'a/b', ':a', '1a:b', 'a_b:c', 'a b:c', '//h/p', 'a,b:c', '-a:b', '', '?', 'a\x01:b', 'http', 'a+', 'Z9.-+:')]:
        ops.append(sc.op('parse', s) + ('' if s else ' '))
    ops.append(sc.op('norm', path(r, dots=True)))
    ops.append(sc.op('norm', path(r, dots=True) + '//' + path(r, dots=True)))
    for _ in range(3):
        t = pick(r, lambda: uri(r, 'http', True), lambda: uri(r, 'https', True), lambda: path(r), lambda: 'file:' + path(r), lambda: 'file://' + path(r, True),
                 lambda: 'file:///' + path(r, False), lambda: path(r, zip=True), lambda: 'file:' + path(r, zip=True), lambda: 'file://' + path(r, True, zip=True),
                 lambda: 'httpx:' + path(r), lambda: 'a:' + path(r), lambda: 'x.zipx')()
        ops.append(sc.op('text', t))
    k = pick(r, 'http', 'https')
    ops.append(sc.op('append', k, uri(r, k, True), pick(r, 'c', 'c.d', 'c/d', 'é')))
    ops.append(sc.op('append', pick(r, 'file', 'zip', 'string'), path(r), pick(r, 'c', 'c.d', 'c/d', 'é')))
    for _ in range(2):
        k = pick(r, 'http', 'https')
        ref = pick(r, lambda: path(r), lambda: path(r).lstrip('/') or 'a', lambda: uri(r, None, True), lambda: '', lambda: ' ' + path(r) + ' ', lambda: path(r) + '?x=1#y', lambda: 'file:' + path(r), lambda: 'x.zip', lambda: '/')()
        ops.append(sc.op('resolve', k, uri(r, k, True), ref) + ('' if ref else ' ') + pick(r, '', ' direct'))
    for _ in range(3):
        base = pick(r, 'd', 'd/', 'd/e', 'd/f', 'd/e/f.x', 'nothing', 'd/nothing', 'g.zip', '/nowhere/x', '/', './d', 'd/../d/f')
        ref = pick(r, lambda: path(r, dots=True), lambda: path(r, False, dots=True), lambda: uri(r, 'http', True), lambda: '', lambda: 'file:' + path(r, False), lambda: 'file://' + path(r, True),
                   lambda: 'file://', lambda: 'file:/a', lambda: 'file://h/a', lambda: '  a ', lambda: 'a.zip', lambda: 'zip:a', lambda: 'file:a.zip', lambda: '..', lambda: '.')()
        ops.append(sc.op('resolve', 'file', base, ref) + ('' if ref else ' ') + pick(r, '', ' direct'))
    ref = pick(r, lambda: path(r), lambda: uri(r, 'http', True), lambda: '', lambda: 'file:' + path(r), lambda: 'y.zip', lambda: '../y.zip')()
    ops.append(sc.op('resolve', pick(r, 'string', 'zip'), path(r, zip=True), ref) + ('' if ref else ' ') + pick(r, '', ' direct'))
    names = ['a', 'd/', 'd/b', 'd/e/', 'd/e/c', 'g.h']
    first = r.choice(names)
    names.remove(first)
    ops.append(sc.op('entry', pick(r, 'a', '/a', 'b', 'e/', 'e/c', '../a', 'd/b', '/d/b', './b', 'c', '../b', '../../g.h', '/d/e/', 'nothing', 'http://h/p', 'file:x', ' a '), first, *names))
    a, b = uri(r), uri(r)
    ka, kb = pick(r, 'http', 'https', 'string', 'file', 'zip'), pick(r, 'http', 'https', 'string', 'file', 'zip')
    ops.append(sc.op('eq', ka, a, ka, a))
    ops.append(sc.op('eq', ka, a, kb, pick(r, a, b)))
    ops.append(sc.op('eq', kb, a, kb, b))
    return sc.Script('r%d' % i, ops)


def main():
    chk = Check('C28', 'model_checking')
    exe = build_plain(chk.work, 'uri.cpp', libs=LIBS)
    gen, model = sc.gen_scripts(chk.work, 'UriGen.tla')
    r = random.Random(SEED * 7919 + 28)
    lines = [s.ops[0] for s in gen]
    r.shuffle(lines)
    if not THOROUGH:
        lines = lines[:24000]
    for k in range(len(lines)):
        if lines[k].startswith('parse '):
            lines[k] += r.choice(['', '', '', ' copy', ' massign', ' http'])
    scripts = [sc.Script('g%d' % k, lines[k:k + 40]) for k in range(0, len(lines), 40)]
    scripts += [script(r, i) for i in range(20000 if THOROUGH else 2500)]
    scripts.append(sc.Script('long', [sc.op('long', a, n, b) for a in ('a:', 'http://u@h:80/', 'a://') for b in ('x', '?q#f') for n in (200, 32766, 32767, 32768, 32769, 65535, 65536, 70000, 131000)]))
    res = sc.run_check(chk, exe, scripts, 'UriTrace.tla')
    chk.coverage = sc.coverage([res], [model])
    return chk.finish()
