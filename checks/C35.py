import random
from vt import *
import seq_check as sc

LIBS = ['-licuuc', '-licudata']
NAMES = ['HOME', 'XDG_DATA_HOME', 'XDG_CONFIG_HOME', 'XDG_RUNTIME_DIR', 'TMPDIR']
WHICH = ['userdata', 'userconfig', 'runtime', 'runtime', 'globaldata', 'globalconfig']


def script(r, i):
    ops = [sc.op('user', r.choice(['none', 'short', 'long', 'long']), r.choice([100, 400, 480, 509, 510, 511, 1000, 2000, 3500])), sc.op('umask', r.choice(['022', '077', '000', '027']))]
    g, n = r.choice(['g', 'a group', 'Company.X']), r.choice(['n', 'app-1', 'name of it'])
    for _ in range(r.randrange(3)):
        ops.append(sc.op('make', r.choice(['directory', 'directory', 'file', 'locked']), '@/' + r.choice(['a', 'b', 'a/' + g, 'b/' + g + '/' + n, 'a/' + g + '/' + n])))
    for _ in range(r.randrange(3, 14)):
        x = r.random()
        if x < 0.5:
            k = r.choice(NAMES)
            if r.random() < 0.4:
                ops.append(sc.op('env', k, 'unset'))
            else:
                v = r.choice(['@/a', '@/b', '@/a/', '@/b//', '@/c/d', '@/a b', '@'])
                v = r.choice(['', ' ', '   ', v, v, v, ' ' + v, v + ' ', '  ' + v + '  '])
                ops.append('env %s set %s' % (k, v.replace(' ', '%20')))
        elif x < 0.9:
            ops.append(sc.op('ask', r.choice(WHICH), *((g, n) if r.random() < 0.9 else ('h', 'm'))))
        else:
            ops.append(r.choice(['home', 'name']))
    return sc.Script('r%d' % i, ops)


def main():
    chk = Check('C35', 'model_checking')
    exe = build_plain(chk.work, 'appdirs.cpp', libs=LIBS)
    gen, model = sc.gen_scripts(chk.work, 'AppDirsGen.tla')
    r = random.Random(SEED * 7919 + 35)
    scripts = gen + [script(r, i) for i in range(20000 if THOROUGH else 2500)]
    res = sc.run_check(chk, exe, scripts, 'AppDirsTrace.tla')
    chk.coverage = sc.coverage([res], [model])
    return chk.finish()
