import random
from vt import *
import seq_check as sc

NAMES = ['a', 'b', 'port', 'x.y', 'file.serve', 'é', 'k{', 'a b', 'm:n', 'p@q']
INTS = ['0', '7', '-1', '+5', '007', '127', '128', '-128', '-129', '255', '256', '32767', '32768', '-32768', '65535', '65536', '2147483647', '2147483648', '-2147483648',
        '4294967295', '4294967296', '9223372036854775807', '9223372036854775808', '-9223372036854775808', '-9223372036854775809', '18446744073709551615', '18446744073709551616', '12k', '1.5', '', '-', '1e3', '0x10']
SMALL = ['0', '7', '12', '100', '+5', '007']
FLOATS = ['0', '-2.5', '2.25', '12.125', '+1.5', '1234.5', '9999.001', '-0.75']
BADF = ['1.2.3', 'k', '', '1.5v', '1,5', '-']
TEXT = ['v', 'some text', 'x=y', 'a = b = c', '#no', '!mark', 'é漢', 'C:\\x', '{curly}', 'me@home', '=', '== 5', 'tail ', 'true', '5', '"q"', '\\']
URIS = ['file:doc', 'file:doc/x.html', '/abs/path', 'rel/y', 'file:/z', 'p=q']
TYPES = ['byte', 'short', 'int', 'long', 'float', 'double', 'string', 'string', 'char', 'boolean', 'uri', 'unsigned byte', 'unsigned short', 'unsigned int', 'unsigned long', 'word', 'shape']
SHORT = {'unsigned byte': 'ubyte', 'unsigned short': 'ushort', 'unsigned int': 'uint', 'unsigned long': 'ulong'}


def good(r, t):
    if t in ('float', 'double'):
        return r.choice(FLOATS)
    if t == 'boolean':
        return r.choice(['true', 'false', 'TRUE', 'False'])
    if t == 'char':
        return r.choice(['c', '=', '7', '}'])
    if t == 'uri':
        return r.choice(URIS)
    if t == 'string':
        return r.choice(TEXT)
    if t in ('word', 'shape'):
        return r.choice(['w', 'big one', 'x=1', 'é'])
    return r.choice(SMALL)


def other(r, t):
    if t in ('float', 'double'):
        return r.choice(FLOATS + BADF)
    if t == 'boolean':
        return r.choice(['true', 'no', '1', ''])
    if t in ('word', 'shape'):
        return r.choice(['w', '!bad'])
    if t in ('string', 'uri', 'char'):
        return good(r, t)
    return r.choice(INTS)


def esc(r, s, key):
    """The text of a name or a value."""
    out = ''
    for i, c in enumerate(s):
        if c in '{}@\\' or (key and c in ' :=#!') or (i == 0 and c in ' :=#!{') or r.random() < 0.02:
            out += '\\'
        out += c
        if r.random() < 0.02 and i + 1 < len(s) and s[i + 1] not in ' \t':
            out += '\\\n' + r.choice(['', '\t', '  '])
    return out


class World:
    """A tree of properties that a number of texts describe in part."""
    def __init__(self, r):
        self.r = r
        self.names = r.sample(NAMES, r.choice([2, 3, 4]))
        self.tree = self.level(0)

    def level(self, d):
        r = self.r
        out = {}
        for n in r.sample(self.names, min(len(self.names), r.choice([1, 2, 2, 3]))):
            if d < 3 and r.random() < 0.45:
                out[n] = self.level(d + 1)
            else:
                out[n] = r.choice(TYPES)
        return out

    def part(self, p, tree=None):
        """A part of the tree: pairs of a name and a type or a part."""
        r = self.r
        out = []
        for n, x in (self.tree if tree is None else tree).items():
            if r.random() < p:
                out.append((n, self.part(p, x) if isinstance(x, dict) else x))
        r.shuffle(out)
        return out


def text(r, part, value, files, inc, depth=0, folder=''):
    out = ''
    ind = '\t' * depth
    for k, (n, x) in enumerate(part):
        if r.random() < 0.08:
            out += r.choice(['# comment = 1\n', '\n', '  ! note {\n'])
        if inc and r.random() < 0.18 and len(files) < 6:
            # What remains of this level is in an included file.
            name = r.choice(['', 'd/', 'e/']) + 'f%d.p' % len(files)
            files.append(None)
            at = len(files) - 1
            files[at] = (folder + name, text(r, part[k:], value, files, inc, 0, folder + name[:name.rfind('/') + 1]))
            return out + ind + '@' + r.choice(['', ' ', '  ']) + name + r.choice(['', ' ']) + '\n'
        if isinstance(x, list):
            out += ind + esc(r, n, True) + r.choice([' {', ' = {', ': {', '{'][:3]) + '\n' + text(r, x, value, files, inc, depth + 1, folder) + ind + '}\n'
        else:
            out += ind + esc(r, n, True) + r.choice([' = ', ' : ', '=', ': ', ' ']) + value(x) + '\n'
    return out


def script(r, i):
    w = World(r)
    clean = r.random() < 0.75
    ops = [sc.op('names', *NAMES)]
    files, ins, sps = [], [], []
    ways = ['files', 'ptrs', 'strings', 'uri', 'ptr', 'string']
    way = r.choice(ways)
    inc = way not in ('strings', 'string') and r.random() < 0.5

    def val(t):
        return esc(r, good(r, t) if clean or r.random() < 0.8 else other(r, t), False)

    def typ(t):
        if not clean and r.random() < 0.06:
            t = r.choice(TYPES + ['integer', 'Int', 'object'])
        if r.random() < 0.5:
            return t
        d = good(r, t if t in TYPES else 'string') if clean or r.random() < 0.8 else other(r, t)
        return t + r.choice([' = ', '=', ' =', '= ']) + esc(r, d, False)

    def doc(part, value):
        files.append(None)
        at = len(files) - 1
        name = r.choice(['', '', 'd/', 'g/']) + 'f%d.p' % at
        files[at] = (name, text(r, part, value, files, inc, 0, name[:name.rfind('/') + 1]))
        return name
    n = 1 if way in ('uri', 'ptr', 'string') else r.choice([0, 1, 1, 2])
    part = w.part(0.7)
    if n == 2:
        # Two texts that share blocks only.
        def cut(p):
            a, b = [], []
            for nm, x in p:
                if isinstance(x, list):
                    u, v = cut(x)
                    a.append((nm, u))
                    b.append((nm, v))
                    if r.random() < 0.3:
                        (a if r.random() < 0.5 else b).pop()
                else:
                    (a if r.random() < 0.5 else b).append((nm, x))
            return a, b
        a, b = cut(part)
        if not clean and r.random() < 0.3:
            b = w.part(0.5)
        ins = [doc(a, val), doc(b, val)]
    elif n == 1:
        ins = [doc(part, val)]
    most = {'string': 1, 'uri': 3, 'ptr': 3}.get(way, 3)
    for _ in range(r.choice([0, 1, 1, 2, 3]) if most == 3 else r.choice([0, 1])):
        sps.append(doc((World(r) if not clean and r.random() < 0.1 else w).part(0.6), typ))
    hard = []
    if r.random() < 0.5:
        def wire(p, d):
            for nm, x in p[:4]:
                if isinstance(x, list):
                    if x:
                        hard.append(sc.op('hard', d, 'block', nm, 'group'))
                        wire(x, d + 1)
                else:
                    t = r.choice(TYPES) if r.random() < 0.3 else x
                    o = ['hard', d, 'value', nm, SHORT.get(t, t)]
                    if r.random() < 0.5:
                        o.append(good(r, t))
                    hard.append(sc.op(*o))
        # Groups have children; the values of groups without any would be dropped.
        def solid(p):
            q = [(nm, solid(x) if isinstance(x, list) else x) for nm, x in p]
            return [(nm, x) for nm, x in q if x != []]
        wire(solid(w.part(0.6)), 0)
    for nm, tx in files:
        ops.append(sc.op('file', nm, tx))
    ops += hard
    ops.append(sc.op('build', way, ','.join(ins) or '-', ','.join(sps) or '-'))
    return sc.Script('r%d' % i, ops)


def numbers():
    """Every text of a number as a value and as a default of every numeric type."""
    out = []
    for t in ('byte', 'short', 'int', 'long', 'unsigned byte', 'unsigned short', 'unsigned int', 'unsigned long', 'float', 'double', 'boolean'):
        for k, v in enumerate(FLOATS + BADF if t in ('float', 'double') else ['true', 'False', 'no', '1', ''] if t == 'boolean' else INTS):
            nm = ('v_%s_%d' % (t, k)).replace(' ', '_')
            out.append(sc.Script(nm, [sc.op('names', 'port'), sc.op('file', 'f0.p', 'port = %s\n' % v), sc.op('file', 'f1.p', 'port = %s\n' % t), sc.op('build', 'files', 'f0.p', 'f1.p')]))
            if v:
                out.append(sc.Script(nm + '_d', [sc.op('names', 'port'), sc.op('file', 'f1.p', 'port = %s = %s\n' % (t, v)), sc.op('build', 'files', '-', 'f1.p')]))
    return out


def main():
    chk = Check('C20', 'model_checking')
    exe = build_plain(chk.work, 'envconf.cpp', libs=['-licuuc', '-licudata', '-lboost_iostreams', '-lcurl', '-lssl', '-lcrypto', '-lzip', '-lz'])
    gen, model = sc.gen_scripts(chk.work, 'EnvironmentGen.tla')
    rnd = random.Random(SEED * 7919 + 20)
    scripts = list(gen) + numbers() + [script(rnd, i) for i in range(40000 if THOROUGH else 5000)]
    r = sc.run_check(chk, exe, scripts, 'EnvironmentTrace.tla')
    chk.coverage = sc.coverage([r], [model])
    return chk.finish()
