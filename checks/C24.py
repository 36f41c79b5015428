"""The test runner: selection, execution models, outcomes, reports."""
import random
from vt import *
import seq_check as sc

BASIC = 'PPPPFEOIB'
FATAL = 'CAKXY'
MODELS = ['SingleThreaded', 'WorkerThreads', 'WorkerProcesses', 'ProcessPerTest']
CLASSES = {'alpha': 'Alpha', 'alphabet': 'Alphabet', 'beta': 'Beta', 'gamma': 'Gamma_2', 'd': 'D', 'alpha2': 'Alpha', 'd2': 'D'}
NAMES = ['t1', 't10', 't2', 'basic', 'basicTest', 'a', 'ab', 'run_all', 'x9', 'emptyTest', 'veryLongNameOfATestCaseThatGoesOnAndOn', 'z']


def pattern(r, tests):
    if not tests:
        return 'Alpha::t1'
    s = r.choice(tests)
    k = r.random()
    if k < 0.25:
        return s
    if k < 0.45:
        return s.split('::')[0] + '::*'
    if k < 0.55:
        return '*::' + s.split('::')[1]
    if k < 0.65:
        i = r.randrange(len(s))
        return s[:i] + '?' + s[i + 1:]
    if k < 0.75:
        return s[:r.randrange(len(s) + 1)] + '*'
    if k < 0.82:
        return '*' + s[r.randrange(len(s) + 1):]
    if k < 0.88:
        return s[:-1]
    if k < 0.92:
        return s + '?'
    return r.choice(['*', '**', 'none', '*a*', '?*', '*::??', 'Alpha', s.lower()])


def script(r, i, fatal=True):
    ops, full = [], []
    model = r.choice(MODELS + MODELS[2:])
    forks = model in MODELS[2:]
    for g in r.sample(list(CLASSES), r.choice([1, 2, 3, 5])):
        setup = r.choice(['P'] * 12 + list('FEOB') + (list('CX') if forks else []))
        teardown = r.choice(['P'] * 12 + list('FEOB') + (list('CY') if forks else []))
        ops.append(sc.op('group', g, r.choice([15, 15, 15, 15, 8, 4, 12, 3, 7, 14, 1]), setup, teardown))
        names = r.sample(NAMES, r.choice([1, 1, 2, 3, 6, 10]))
        if g.endswith('2'):
            names = [n + '_' for n in names]
        for n in names:
            body = r.choice(FATAL) if forks and r.random() < 0.2 else r.choice(BASIC)
            ops.append(sc.op('test', g, n, body, r.choice([0, 0, 0, 1, 3, 8])))
            full.append(CLASSES[g] + '::' + n)
    if r.random() < 0.5:
        # The tests of several groups are registered in turns.
        head, body = [o for o in ops if o.startswith('group')], [o for o in ops if not o.startswith('group')]
        r.shuffle(body)
        ops = head + body
    args = []
    if r.random() < 0.5:
        for _ in range(r.choice([1, 1, 2, 3])):
            args.append(r.choice([',', ', ', ' , ', ' ']).join(pattern(r, full) for _ in range(r.choice([1, 1, 2, 3]))))
    how = r.choice(['own', 'own', 'surefire', 'nofirst', 'model', 'modelnone', 'nogen'])
    if r.random() < 0.01:
        how = 'help'
    ops.append(sc.op('run', how, 'default' if model == 'SingleThreaded' and r.random() < 0.3 else model, r.choice([0, 1, 1, 2, 2, 3, 4, 9]), *args))
    return sc.Script('r%d' % i, ops)


def main():
    chk = Check('C24', 'model_checking')
    exe = build_plain(chk.work, 'testrunner.cpp', [(os.path.join(REPO, 'src/main/cpp/Balau/Testing/Reporters/SurefireTestReportGenerator.cpp'), 'sure.o', PLAIN)], libs=['-licuuc', '-licudata', '-lboost_iostreams', '-lboost_serialization', '-lcurl', '-lssl', '-lcrypto', '-lzip', '-lz'])
    gen, model = sc.gen_scripts(chk.work, 'TestRunnerGen.tla')
    m1 = model_check(chk.work, 'TestRunnerProtocol.tla', 'TestRunnerProtocol.cfg')
    m2 = model_check(chk.work, 'TestRunnerProtocol.tla', 'TestRunnerProtocolPer.cfg')
    r = random.Random(SEED * 7919 + 24)
    scripts = (gen if THOROUGH else r.sample(gen, min(len(gen), 1000))) + [script(r, i) for i in range(8000 if THOROUGH else 1200)]
    res = sc.run_check(chk, exe, scripts, 'TestRunnerTrace.tla', limit=12)
    chk.coverage = sc.coverage([res], [model, m1, m2])
    return chk.finish()
