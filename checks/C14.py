import random
from vt import *
import seq_check as sc


def P(p):
    return 'p' + ''.join('.%d' % i for i in p)


def generated(n):
    """Random scripts; a shadow of the shapes tells which paths exist."""
    rnd = random.Random(SEED * 7919 + 14)
    out = []
    for i in range(n):
        shadow = {w: [0, []] for w in (1, 2, 3)}  # nodes: [key, children]
        keys = rnd.choice([[1, 2, 3], [1, 11, 2, 12, 21], [1, 2, 3, 4, 5, 11, 12, 13]])
        ops = []
        d = 0

        def paths(t):
            r = [()]
            for j, c in enumerate(t[1]):
                r += [(j + 1,) + p for p in paths(c)]
            return r

        def at(t, p):
            for j in p:
                t = t[1][j - 1]
            return t

        def match(L, a, b):
            return a % 10 == b % 10 if L else a == b

        def first(t, L, k):
            for c in t[1]:
                if match(L, c[0], k):
                    return c
        import copy

        def casc(a, b):
            for c in b[1]:
                m = first(a, False, c[0])
                if m is None:
                    m = [c[0], []]
                    a[1].append(m)
                casc(m, c)
        for j in range(rnd.randrange(4, 22)):
            w = rnd.choice([1, 1, 2, 3])
            t = shadow[w]
            p = rnd.choice(paths(t))
            nd = at(t, p)
            k = rnd.choice(keys)
            L = rnd.random() < 0.35
            cmp = 'loose' if L else 'eq'
            d += 1
            r = rnd.random()
            ks = [rnd.choice(keys) for _ in range(rnd.randrange(0, 4))]
            if rnd.random() < 0.4 and nd is not t:  # an existing key chain, perhaps with something after it
                ks, x = [], t
                for q in p:
                    x = x[1][q - 1]
                    ks.append(x[0])
                ks += [rnd.choice(keys)] * rnd.randrange(0, 2)
            if r < 0.2:
                var = rnd.randrange(6)
                ops.append(sc.op('add', w, P(p), k, d * 10, var))
                nd[1].append([k, []])
                if var == 4:
                    nd[1].append([k + 1, []])
                if var == 5:
                    nd[1][-1][1] = [[k + 1, [[k + 2, []]]], [k + 3, []]]
            elif r < 0.35:
                rep, var = rnd.choice([0, 0, 1]), rnd.randrange(16)
                ops.append(sc.op('aor', w, P(p), k, d * 10, cmp, rep, var))
                m = first(nd, L, k)
                if m is None:
                    nd[1].append([k, []])
                elif not rep:
                    m[0] = k
            elif r < 0.42:
                var = rnd.choice([2, 3]) if L else rnd.randrange(4)
                ops.append(sc.op('foac', w, P(p), k, d * 10, cmp, var))
                if first(nd, L, k) is None:
                    nd[1].append([k, []])
            elif r < 0.5:
                ops.append(sc.op('foa', w, P(ks), cmp, rnd.randrange(3)))
                x = t
                for q in ks:
                    m = first(x, L, q)
                    if m is None:
                        m = [q, []]
                        x[1].append(m)
                    x = m
            elif r < 0.58:
                ops.append(sc.op('findc', w, P(p), k, cmp, rnd.randrange(4)))
            elif r < 0.76:
                o, skip = rnd.choice(['find', 'near', 'near', 'leaf']), rnd.choice([0, 1])
                if not skip and rnd.random() < 0.7:
                    ks = [t[0]] + ks
                ops.append(sc.op(o, w, P(ks), cmp, skip, rnd.choice([0, 1])))
            elif r < 0.84:
                f = rnd.choice([x for x in (1, 2, 3) if x != w])
                mv = rnd.random() < 0.4
                ops.append(sc.op('cascademove' if mv else 'cascade', w, f, rnd.choice([0, 100])))
                if t[0] == shadow[f][0]:
                    casc(t, shadow[f])
                if mv:
                    shadow[f] = [0, []]
            elif r < 0.9:
                f = rnd.choice([x for x in (1, 2, 3) if x != w])
                mv = rnd.random() < 0.4
                ops.append(sc.op('move' if mv else 'copy', w, f, rnd.choice([0, 1])))
                shadow[w] = shadow[f] if mv else copy.deepcopy(shadow[f])
                if mv:
                    shadow[f] = [0, []]
            elif r < 0.92:
                k = rnd.choice([0, 1])
                ops.append(sc.op('reset', w, k, d))
                shadow[w] = [k, []]
            else:
                ops.append('walk %d' % w)
            if sum(len(paths(x)) for x in shadow.values()) > 60:
                break
        ops += ['walk 1', 'walk 2']
        out.append(sc.Script('r%d' % i, ops))
    return out


def main():
    chk = Check('C14', 'model_checking')
    exe = build_plain(chk.work, 'trie.cpp')
    tail = ['walk 1'] + ['%s 1 p%s eq %d %d' % (o, ks, skip, c) for o in ('find', 'near', 'leaf') for ks, skip, c in
                         (('', 1, 0), ('.1', 1, 0), ('.2.1', 1, 1), ('.1.2', 1, 0), ('.0.1.1', 0, 1), ('.0.2', 0, 0), ('.1.1', 0, 1), ('.0', 0, 0))]
    gen, model = sc.gen_scripts(chk.work, 'TrieGen.tla', sc={}, tail=tail)
    rs = [sc.run_check(chk, exe, gen + generated(20000 if THOROUGH else 3000), 'TrieTrace.tla')]
    chk.coverage = sc.coverage(rs, [model])
    return chk.finish()
