"""Classes for every injection macro and every number of dependencies."""
from vt import *
from inj_check import LIBS_INJ

KINDS = ['S', 'CS', 'W', 'R', 'CR', 'U', 'V', 'CW', 'CU']
TYPE = {'S': 'std::shared_ptr<%s>', 'CS': 'std::shared_ptr<const %s>', 'W': 'std::weak_ptr<%s>', 'CW': 'std::weak_ptr<const %s>', 'R': '%s &', 'CR': 'const %s &',
        'U': 'std::unique_ptr<%s>', 'CU': 'std::unique_ptr<const %s>', 'V': '%s'}
# Macro in the class, macro in the body, named, types.
FAMILIES = [('Inject', '', 0, 0), ('InjectNamed', '', 1, 0), ('InjectConstruct', '', 0, 0), ('InjectConstructNamed', '', 1, 0),
            ('InjectTypes', '', 0, 1), ('InjectNamedTypes', '', 1, 1)]
for h in ('InjectHeader', 'InjectHeaderConstruct'):
    FAMILIES += [(h, 'InjectBody', 0, 0), (h, 'InjectBodyNamed', 1, 0), (h, 'InjectBodyTypes', 0, 1), (h, 'InjectBodyNamedTypes', 1, 1)]
MOST = 16


def name(fam, n):
    return 'C_%s_%s_%d' % (fam[0], fam[1], n)


def source(fi, fam):
    head, body, named, types = fam
    out = ['#include "injmac.hpp"']
    for n in range(MOST + 1):
        c = name(fam, n)
        # The macros have names with and without a prefix.
        pre = 'Balau' if n % 2 == 0 else ''
        ks = [KINDS[(p + fi + n) % len(KINDS)] for p in range(n)]
        tk = [p % 2 if named else p for p in range(n)]
        nm = ['n%d' % p if named else '' for p in range(n)]
        ty = [TYPE[k] % ('Dep<%d>' % t) for k, t in zip(ks, tk)]
        fields = ''.join(' %s f%d;' % (t, p) for p, t in enumerate(ty))
        args = []
        for p in range(n):
            args.append(ty[p] if types else 'f%d' % p)
            if named:
                args.append('"%s"' % nm[p])
        al = ', '.join([c] + args)
        ctor = ''
        if 'Construct' not in head:
            ctor = '%s(%s)%s {}' % (c, ', '.join('%s a%d' % (t, p) for p, t in enumerate(ty)),
                                    (' : ' + ', '.join('f%d(std::forward<%s>(a%d))' % (p, t, p) for p, t in enumerate(ty))) if n else '')
        if head.startswith('InjectHeader'):
            m = '%s%s(%s)' % (pre, head, ', '.join([c] + (['f%d' % p for p in range(n)] if 'Construct' in head else [])))
            b = '%s%s(%s)' % (pre, body, al)
        else:
            m, b = '%s%s(%s)' % (pre, head, al), ''
        out.append('struct %s : T {%s\n%s\npublic: %s\nstd::vector<long> ids() const { return { %s }; } };' % (
            c, fields, ctor, m + ';' if head.startswith('InjectHeader') else m + ' public:', ', '.join('idOf(f%d)' % p for p in range(n))))
        if b:
            out.append(b + ';' if False else b)
        out.append('static Register r_%s("%s", { { %s }, [] { std::vector<Bound> v; %s return v; }, bindUnique<%s>, bindValue<%s>, getCase<%s> });' % (
            c, c, ', '.join('{ "%s", "%d:%s" }' % (k, t, x) for k, t, x in zip(ks, tk, nm)),
            ''.join('v.push_back(boundDep<%d, %d>("%s", "%s")); ' % (t, p, k, x) for p, (k, t, x) in enumerate(zip(ks, tk, nm))), c, c, c))
    return '\n'.join(out) + '\n'


def build(work):
    units = []
    for fi, fam in enumerate(FAMILIES):
        p = work.path('fam%d.cpp' % fi)
        open(p, 'w').write(source(fi, fam))
        units.append((p, 'fam%d.o' % fi, ['-O0', '-I' + os.path.join(VERIF, 'harness')]))
    return build_plain(work, 'injmac.cpp', extra_units=units, libs=LIBS_INJ, flags=['-O0'])
