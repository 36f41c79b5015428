"""Common machinery of the checks: build, TLC, trace validation, evidence."""
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VT_REPO', '/repo')
SPECS = os.path.join(VERIF, 'specs')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
NCPU = max(1, min(8, len(os.sched_getaffinity(0))))

JAVA = ['java', '-XX:+UseParallelGC', '-Xss16m', '-Xmx8g', '-cp',
        '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar']

CXX_COMMON = ['-std=c++17', '-w', '-include', 'complex', '-include', 'fstream',
              '-include', 'boost/filesystem/fstream.hpp',
              '-I' + REPO + '/src/main/cpp', '-I' + REPO + '/_build/src/main/cpp',
              '-I' + os.path.join(VERIF, 'rt', 'gen')]


class CheckError(Exception):
    """The check itself failed (neither pass nor violation)."""


class CompileError(CheckError):
    """Code that uses the public interface of the library does not compile."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def run(cmd, timeout=600, env=None, cwd=None, check=False, input=None, stdout=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, stdout=stdout or subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           env=e, cwd=cwd, input=input)
    except subprocess.TimeoutExpired as x:
        raise CheckError('timeout: %s' % ' '.join(map(str, cmd))[:300]) from x
    if check and p.returncode != 0:
        raise CheckError('command failed (%d): %s\n%s\n%s' % (
            p.returncode, ' '.join(map(str, cmd))[:400],
            (p.stdout or b'').decode(errors='replace')[-2000:], p.stderr.decode(errors='replace')[-4000:]))
    return p


class Work:
    """Scratch directory of one check run, removed at the end."""

    def __init__(self, name):
        base = os.environ.get('VT_TMP') or tempfile.gettempdir()
        self.dir = tempfile.mkdtemp(prefix='vt_%s_' % name, dir=base)

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# --------------------------------------------------------------------- build

def compile_objects(work, units, timeout=850):
    """units: list of (source, object name, extra flags). Compiled in parallel."""
    def one(u):
        src, obj, flags = u
        out = work.path(obj)
        cmd = ['g++'] + CXX_COMMON + flags + ['-c', src, '-o', out]
        for attempt in (1, 2):
            p = run(cmd, timeout=timeout)
            if p.returncode == 0:
                return out
        text = p.stderr.decode(errors='replace')
        if p.returncode == 1 and ': error: ' in text and 'internal compiler error' not in text and 'Killed' not in text:
            raise CompileError('%s\n%s' % (' '.join(cmd), '\n'.join([x for x in text.splitlines() if ': error: ' in x][:10]) + '\n' + text[-2000:]))
        raise CheckError('compiler failed (%d): %s\n%s' % (p.returncode, ' '.join(cmd), text[-4000:]))
    with concurrent.futures.ThreadPoolExecutor(max_workers=NCPU) as ex:
        return list(ex.map(one, units))


TSAN = ['-O1', '-g0', '-fsanitize=thread', '-Wno-tsan', '-D_GLIBCXX_ASSERTIONS']
PLAIN = ['-O1', '-g0', '-D_GLIBCXX_ASSERTIONS']
LIBS = ['-lboost_filesystem', '-lboost_system', '-lpthread', '-ldl', '-lrt']


def build_ctl(work, harness, extra_units=(), libs=(), flags=()):
    """Harness + controlled scheduler runtime."""
    name = os.path.splitext(os.path.basename(harness))[0]
    units = [(os.path.join(VERIF, 'harness', harness), name + '.o', TSAN + list(flags)),
             (os.path.join(VERIF, 'rt', 'ctl.cpp'), 'ctl.o', ['-O1', '-g0'])]
    units += list(extra_units)
    objs = compile_objects(work, units)
    exe = work.path(name)
    run(['g++', '-rdynamic'] + objs + ['-o', exe] + list(libs) + LIBS, check=True)
    return exe


def build_plain(work, harness, extra_units=(), libs=(), flags=()):
    name = os.path.splitext(os.path.basename(harness))[0]
    units = [(os.path.join(VERIF, 'harness', harness), name + '.o', PLAIN + list(flags))] + list(extra_units)
    objs = compile_objects(work, units)
    exe = work.path(name)
    run(['g++', '-rdynamic'] + objs + ['-o', exe] + list(libs) + LIBS, check=True)
    return exe


# ----------------------------------------------------------------------- TLC

class TlcResult:
    def __init__(self, rc, out):
        self.rc = rc
        self.out = out
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        self.generated = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0
        self.violated = re.findall(r'Error: (?:Invariant|Action property|Temporal propert\w+|Property) ?(\S*) ?(?:is|was|were) ?violated', out)
        self.ok = rc == 0 and 'Model checking completed. No error has been found.' in out
        self.prints = re.findall(r'^<<"ACC", (\d+)>>', out, re.M)


def tlc(work, spec, cfg=None, env=None, timeout=800, workers=None, args=(), jvm=()):
    d = tempfile.mkdtemp(prefix='tlc_', dir=work.dir)
    # TLC writes next to the specs otherwise.
    for f in os.listdir(SPECS):
        if f.endswith('.tla') or f.endswith('.cfg'):
            os.symlink(os.path.join(SPECS, f), os.path.join(d, f))
    cmd = JAVA[:1] + list(jvm) + JAVA[1:] + ['tlc2.TLC', '-workers', str(workers or NCPU), '-metadir', os.path.join(d, 'meta'),
                                             '-noGenerateSpecTE', '-fp', '1', '-seed', str(SEED)]
    if cfg:
        cmd += ['-config', cfg]
    cmd += list(args) + [spec]
    p = run(cmd, timeout=timeout, env=env, cwd=d)
    shutil.rmtree(d, ignore_errors=True)
    return TlcResult(p.returncode, p.stdout.decode(errors='replace') + p.stderr.decode(errors='replace'))


def model_check(work, spec, cfg, timeout=800, expect_ok=True, args=()):
    """Exhaustive check of a model; it has to pass (the model is ours)."""
    r = tlc(work, spec, cfg, timeout=timeout, args=args)
    if expect_ok and not r.ok:
        raise CheckError('model check of %s %s failed:\n%s' % (spec, cfg, r.out[-3000:]))
    return r


def validate(work, spec, traces, timeout=800, cfg=None, chunk=None, mode=''):
    """Validate the traces (list of dicts) against a trace specification.
    Returns (rejected indexes, TlcResult totals)."""
    if not traces:
        return [], 0, 0
    chunk = chunk or 20000
    rejected, gen, dist = [], 0, 0
    for base in range(0, len(traces), chunk):
        part = traces[base:base + chunk]
        f = work.path('traces_%s_%d.ndjson' % (spec.replace('.tla', ''), base))
        with open(f, 'w') as o:
            for t in part:
                o.write(json.dumps(t) + '\n')
        r = tlc(work, spec, cfg or spec.replace('.tla', '.cfg'), env={'VT_TRACES': f, 'VT_MODE': mode}, timeout=timeout)
        os.unlink(f)
        if not r.ok:
            raise CheckError('TLC failed on %s:\n%s' % (spec, r.out[-4000:]))
        acc = set(int(x) for x in r.prints)
        gen += r.generated
        dist += r.distinct
        rejected += [base + i for i in range(len(part)) if (i + 1) not in acc]
    return rejected, gen, dist


# ----------------------------------------------------------- findings, output

class Check:
    def __init__(self, prop, level):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.coverage = {}
        self.assumptions = []
        self.violations = []
        self.known_hit = []
        self.work = Work(prop)
        self.known = []
        f = os.path.join(VERIF, 'known-findings.txt')
        if os.path.exists(f):
            for line in open(f):
                m = re.match(r'KNOWN-FINDING: property=(\S+) key=(\S+) (.*)', line.strip())
                if m and m.group(1) == prop:
                    self.known.append((m.group(2), m.group(3)))

    def violation(self, key, what, replay):
        """key identifies the failing input/call site/history."""
        for k, text in self.known:
            if k == key:
                if key not in self.known_hit:
                    self.known_hit.append(key)
                    print('KNOWN-FINDING: property=%s key=%s %s' % (self.prop, k, text), flush=True)
                return
        d = os.path.join(VERIF, 'out', 'replay')
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1((key + json.dumps(replay, default=str)).encode()).hexdigest()[:10]
        path = os.path.join(d, '%s_%s.json' % (self.prop, h))
        with open(path, 'w') as f:
            json.dump({'property': self.prop, 'key': key, 'what': what, 'replay': replay}, f, indent=1, default=str)
        if len(self.violations) < 20:
            log('violation:', what[:2000])
        self.violations.append((key, what, path))

    def finish(self):
        cov = self.coverage or {'explanation': 'nothing'}
        ev = {'property': self.prop, 'tier': 'thorough' if THOROUGH else 'quick', 'seed': SEED, 'level': self.level,
              'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        self.work.close()
        if self.violations:
            key, what, path = self.violations[0]
            print('VIOLATION property=%s replay=%s' % (self.prop, path), flush=True)
            print('  %s' % what[:600])
            return 1
        print('OK property=%s %s' % (self.prop, json.dumps({k: v for k, v in cov.items() if isinstance(v, (int, str))})[:600]))
        return 0


def load_traces(path):
    out = []
    with open(path) as f:
        for line in f:
            out.append(json.loads(line))
    return out
