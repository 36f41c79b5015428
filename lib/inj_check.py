"""Harness and scripts of the injector checks."""
import random
from vt import *
import seq_check as sc

LIBS_INJ = ['-l' + x for x in ('boost_thread boost_chrono boost_date_time boost_filesystem boost_system boost_serialization '
            'boost_iostreams boost_stacktrace_backtrace icui18n icuuc icudata z zip curl ssl crypto pthread rt bz2 dl').split()]
FORMS = [
    ('bindU', 0, 'conf.b<B>(name).template toUnique<C>()'),
    ('bindUD', 1, 'conf.bd<B, Del>(name).template toUnique<C>()'),
    ('bindLazy', 0, 'conf.b<B>(name).template toSingleton<C>()'),
    ('bindLazyD', 1, 'conf.b<B>(name).template toSingleton<C, Del>()'),
    ('bindEager', 0, 'conf.b<B>(name).template toEagerSingleton<C>()'),
    ('bindEagerD', 1, 'conf.b<B>(name).template toEagerSingleton<C, Del>()'),
    ('bindTl', 0, 'conf.b<B>(name).template toThreadLocal<C>()'),
    ('bindTlD', 1, 'conf.b<B>(name).template toThreadLocal<C, Del>()'),
    ('bindCLazy', 0, 'conf.b<const B>(name).template toSingleton<C>()'),
    ('bindCEager', 1, 'conf.b<const B>(name).template toEagerSingleton<C>()'),
    ('bindCTl', 1, 'conf.b<const B>(name).template toThreadLocal<C>()'),
    ('bindProvU', 0, 'conf.b<B>(name).template toUniqueProvider<C>()'),
    ('bindProvS', 0, 'conf.b<B>(name).template toSingletonProvider<C>()'),
    ('bindProvCS', 1, 'conf.b<const B>(name).template toSingletonProvider<C>()'),
    ('bindProvV', 1, 'conf.b<VA>(name).template toValueProvider<C>()'),
]


def build(work):
    src = os.path.join(VERIF, 'harness', 'inj_bind.cpp')
    units = [(src, f + '.o', ['-O0', '-DVT_FORM=' + f, '-DVT_BIND=' + b] + (['-DVT_FEW'] if few else [])) for f, few, b in FORMS]
    return build_plain(work, 'inj.cpp', extra_units=units, libs=LIBS_INJ, flags=['-O0'])


# The ways to bind each kind; those that make objects of a class need a tag of their own.
WAYS = {'S': ['lazy', 'eager', 'tl', 'lazyD', 'eagerD', 'tlD', 'cls', 'given', 'raw', 'rawD', 'fn', 'obj'],
        'CS': ['lazy', 'eager', 'tl', 'cls', 'given', 'fn'], 'U': ['inst', 'cls', 'fn', 'obj'], 'UD': ['inst'],
        'V': ['inst', 'proto', 'fn', 'obj', 'cls'], 'VS': ['inst'], 'R': ['ref'], 'CR': ['ref']}
CLASS = {'lazy', 'eager', 'tl', 'lazyD', 'eagerD', 'tlD', 'cls'}
FEWF = {'lazyD', 'eagerD', 'tlD'}
FULL = ['', 'S', 'CS', 'W', 'R', 'CR', 'U', 'CW', 'CU', 'V', 'S+S', 'CS+U', 'W+CR+V', 'S+W+S', 'R+CS', 'I', 'WI', 'CI', 'CWI']
FEW = ['', 'S', 'CS', 'W', 'R', 'CR', 'U', 'I', 'WI']
SOURCES = {'S': ['S'], 'W': ['S'], 'CS': ['CS', 'S'], 'CW': ['CS', 'S'], 'R': ['R'], 'CR': ['CR', 'R'], 'U': ['U'], 'CU': ['U'], 'V': ['V']}
NAMES = ['', 'a', 'b']


class Gen:
    """One script: a forest of injectors and what is done with them."""

    def __init__(self, rnd, problems=0.1, modes=None, calls=True, protos=True):
        self.rnd, self.problems, self.calls, self.protos = rnd, problems, calls, protos
        self.modes = modes or ['one', 'two', 'vec', 'vec2', 'extra', 'nest']
        self.tag, self.other, self.nstat = 0, 6, 0
        self.ops = []

    def deps(self, shape, known):
        out = []
        for k in shape.split('+'):
            if k in ('I', 'WI', 'CI', 'CWI'):
                return ['']
            have = [n for kk, n in known if kk in SOURCES[k] and n != 'own']
            if have and self.rnd.random() > self.problems / 3:
                out.append(self.rnd.choice(have))
            elif self.rnd.random() < self.problems:
                out.append(self.rnd.choice(NAMES))
            else:
                return None
        return out

    def bindings(self, known, most):
        r = self.rnd
        out, own = [], set()
        n = r.choice([0, 1, 2, 3, 4, 5, 6, 8]) if most is None else r.randrange(0, most + 1)
        for _ in range(n):
            k = r.choice(['S', 'S', 'S', 'CS', 'CS', 'U', 'U', 'UD', 'V', 'VS', 'R', 'CR'])
            name = r.choice(NAMES)
            if (k, name) in own and r.random() > self.problems / 4:
                continue
            f = r.choice(WAYS[k])
            if k == 'VS':
                if not any(x == ('S', 'a') for x in known | own) and r.random() > self.problems:
                    continue
                out.append(':'.join([k, name, f, '101', '']))
                own.add((k, name))
                continue
            if f in CLASS or (f == 'inst' and k != 'V'):
                if self.tag > 5:
                    f = {'S': 'given', 'CS': 'given', 'U': 'fn', 'UD': None, 'V': 'proto'}[k]
                    if f is None:
                        continue
                else:
                    few = f in FEWF or k == 'UD' or (k == 'CS' and f in ('eager', 'tl', 'cls')) or (k == 'V')
                    for _ in range(6):
                        shape = r.choice(FEW if few else FULL)
                        if shape in ('I', 'CI') and (k == 'V' or f == 'cls' or (k in ('S', 'CS') and r.random() > self.problems)):
                            continue
                        # What holds its injector is not held by anything of the injector.
                        if shape in ('I', 'CI') and k in ('U', 'UD'):
                            name = 'own'
                            if (k, name) in own:
                                continue
                        ds = self.deps(shape, known | own) if shape else []
                        if ds is not None:
                            break
                    else:
                        shape, ds = '', []
                    out.append(':'.join([k, name, f, str(self.tag), shape] + (['+'.join(ds)] if shape else [])))
                    self.tag += 1
                    own.add((k, name))
                    continue
            out.append(':'.join([k, name, f, str(self.other), '']))
            self.other += 1
            own.add((k, name))
        # Declaration order is free.
        if r.random() < 0.7:
            r.shuffle(out)
        return out, own

    def create(self, i, p, known, prefix='', most=None):
        r = self.rnd
        bs, own = self.bindings(known, most)
        if prefix == 'r_':
            # Raw pointers are given away once.
            bs = [b for b in bs if ':raw' not in b]
            own = {tuple(b.split(':')[:2]) for b in bs}
        np, pp = (r.choice([0, 0, 1, 2, 3]), r.choice([0, 0, 1, 2, 3])) if self.calls else (0, 0)
        st = []
        if self.calls and not prefix == 'v_':
            for k, n in sorted(known | own):
                if k == 'S' and n != 'own' and r.random() < 0.2 and self.nstat < 4:
                    st.append('%d:%s:%s' % (self.nstat, n, r.choice('ci')))
                    self.nstat += 1
        self.ops.append(sc.op('create', i, p, prefix + r.choice(self.modes), ';'.join(bs) or '-', np, pp, ';'.join(st) or '-'))
        return known | own

    def request(self, i, known, threads):
        r = self.rnd
        k = r.choice(['S', 'S', 'CS', 'CS', 'W', 'CW', 'U', 'CU', 'UD', 'V', 'VS', 'R', 'CR', 'I', 'CI'])
        have = sorted({n for kk, n in known if kk in SOURCES.get(k, [k])})
        n = r.choice(have) if have and r.random() < 0.75 else r.choice(NAMES)
        d = 'none'
        if r.random() < 0.35:
            d = r.choice({'S': ['null', 'def', 'sup'], 'CS': ['null', 'def', 'sup'], 'U': ['null', 'def', 'sup'], 'CU': ['null', 'def', 'sup'],
                          'V': ['def', 'sup'], 'R': ['def'], 'CR': ['def']}.get(k, ['none']))
        self.ops.append(sc.op('get', r.choice(threads), i, k, n, r.randrange(3), d))

    def script(self, id, levels, requests, threads=(0,), validate=0.0, reuse=0.0):
        r = self.rnd
        known, live, n = {0: set()}, [], 0
        parents = {0: 0}
        for i in range(1, levels + 1):
            p = r.choice([0] + live * 2) if live else 0
            pre = 'r_' if not p and r.random() < reuse else ''
            if not p and r.random() < validate:
                # Validation of a hierarchy, without instances.
                known[i + 10] = self.create(i + 10, 0, set(), 'v_', most=3)
                if r.random() < 0.5:
                    self.create(i + 20, i + 10, known[i + 10], 'v_', most=3)
                continue
            known[i] = self.create(i, p, known[p], pre)
            parents[i] = p
            live.append(i)
        if self.protos and live and r.random() < 0.4:
            q = r.choice(live)
            known[9] = known[q]
            parents[9] = q
            self.ops.append(sc.op('proto', 9, r.choice([parents[q], q]) or q, q))
            live.append(9)
        held = list(live)
        for _ in range(requests):
            if not held:
                break
            x = r.random()
            if x < 0.75:
                i = r.choice(held)
                self.request(i, known[i], threads)
            elif x < 0.82:
                i = r.choice(held)
                k = r.choice(['S', 'CS', 'U', 'UD', 'V', 'VS', 'R', 'CR'])
                self.ops.append(sc.op('has', i, k, r.choice(NAMES)))
            elif x < 0.88:
                self.ops.append(sc.op('iter', r.choice(threads), r.choice(held), r.choice(['S', 'SC', 'CS']), r.randrange(2)))
            elif x < 0.92 and self.nstat:
                self.ops.append(sc.op('stat', r.randrange(self.nstat)))
            elif x < 0.96 and len(threads) > 1:
                self.ops.append(sc.op('exit', r.choice(threads[1:])))
            elif x > 0.96:
                i = held.pop(r.randrange(len(held)))
                self.ops.append(sc.op('drop', i))
        if self.nstat:
            self.ops.append(sc.op('stat', r.randrange(self.nstat)))
        r.shuffle(held)
        for i in held[:r.randrange(len(held) + 1)]:
            self.ops.append(sc.op('drop', i))
            if self.nstat and r.random() < 0.3:
                self.ops.append(sc.op('stat', r.randrange(self.nstat)))
            if len(threads) > 1 and r.random() < 0.3:
                self.ops.append(sc.op('exit', r.choice(threads[1:])))
        return sc.Script(id, self.ops)


def requests(inj, names, kinds, rnd, n):
    out = []
    for _ in range(n):
        k = rnd.choice(kinds)
        d = rnd.choice(['none', 'none', 'none'] + {'S': ['null', 'def', 'sup'], 'CS': ['null', 'def', 'sup'], 'U': ['null', 'def', 'sup'], 'CU': ['null', 'def', 'sup'],
                                                 'V': ['def', 'sup'], 'R': ['def'], 'CR': ['def']}.get(k, ['none']))
        out.append(sc.op('get', 0, rnd.choice(inj), k, rnd.choice(names), rnd.randrange(3), d))
    return out
