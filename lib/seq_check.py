"""Checks of sequential components: run scripts of operations against the real
code and validate what it did with TLC against a TLA+ specification.  Scripts
come from TLC (every transition of a bounded model) and from generators."""
import json
import os
import re
from vt import *


def enc(s):
    if isinstance(s, str):
        s = s.encode()
    return ''.join(chr(b) if 33 <= b < 127 and b != 37 else '%%%02x' % b for b in s)


def op(*words):
    return ' '.join(enc(str(w)) if not isinstance(w, bytes) else enc(w) for w in words)


class Script:
    def __init__(self, id, ops, sc=None):
        self.id = id
        self.ops = list(ops)
        self.sc = sc if sc is not None else {}

    def line(self):
        return '\t'.join([self.id, json.dumps(self.sc)] + self.ops) + '\n'


# SIGILL, SIGBUS, SIGFPE, SIGSEGV: nothing but the code under test raises these.
FAULTS = {4, 7, 8, 11}


def gen_scripts(work, spec, cfg=None, prefix='g', timeout=600, sc=None, tail=()):
    """Scripts that cover every transition of a bounded model: the generator
    specification prints each as <<"SCRIPT", "op TAB op ...">>."""
    r = tlc(work, spec, cfg or spec.replace('.tla', '.cfg'), timeout=timeout)
    if not r.ok:
        raise CheckError('generator %s failed:\n%s' % (spec, r.out[-3000:]))
    found = re.findall(r'<<\s*"SCRIPT",\s*"([^"]*)"\s*>>', r.out)
    out, seen = [], set()
    for s in found:
        ops = [x for x in s.split('|') if x]
        k = tuple(ops)
        if k in seen:
            continue
        seen.add(k)
        out.append(Script('%s%d' % (prefix, len(out)), ops + list(tail), sc))
    return out, r


def execute(chk, exe, scripts, env=None, timeout=600, limit=20, jobs=NCPU, prefix_cmd=()):
    inp, out = chk.work.path('scripts.txt'), chk.work.path('traces.json')
    with open(inp, 'w') as f:
        for s in scripts:
            f.write(s.line())
    # Fresh and freed memory holds no zeros or old values.
    env = dict(MALLOC_PERTURB_='165', **(env or {}))
    p = run(list(prefix_cmd) + [exe, '--in', inp, '--out', out, '--jobs', str(jobs), '--limit', str(limit)], timeout=timeout, env=env, cwd=chk.work.dir)
    if p.returncode != 0:
        raise CheckError('harness failed: %s' % p.stderr.decode(errors='replace')[-2000:])
    traces = {}
    for line in open(out, encoding='utf-8', errors='replace'):
        try:
            t = json.loads(line)
        except ValueError:
            raise CheckError('bad trace line: %r' % line[:400])
        traces[t['id']] = t
    return traces, p.stderr.decode(errors='replace')


def run_check(chk, exe, scripts, spec, env=None, limit=20, mode='', cfg=None, key=None, timeout=700, jobs=NCPU, ok_ends=('done',), isolate_confirm=True):
    """Runs the scripts, validates the traces.  Returns counters."""
    ids = set()
    for s in scripts:
        if s.id in ids:
            raise CheckError('duplicate script ' + s.id)
        ids.add(s.id)
    by = {s.id: s for s in scripts}
    traces, err = execute(chk, exe, scripts, env=env, timeout=timeout, limit=limit, jobs=jobs)
    bad = 0

    def again(s):
        t, e = execute(chk, exe, [s], env=env, timeout=timeout, limit=limit, jobs=1)
        return t.get(s.id), e
    for i, t in traces.items():
        if t['end'] in ok_ends:
            continue
        bad += 1
        if bad > 5:
            continue
        t2, e2 = again(by[i])
        if t2 is None or t2['end'] in ok_ends:
            # The failure may need the scripts that ran before in the same process, and where memory was.
            t2, e2 = t, err
            if t['end'] == 'hang' or t['status'] & 127 not in FAULTS:
                for _ in range(2):
                    t3, e3 = execute(chk, exe, scripts, env=env, timeout=timeout, limit=limit, jobs=jobs)
                    again_bad = [x for x in t3.values() if x['end'] not in ok_ends]
                    if again_bad:
                        t2, e2 = again_bad[0], e3
                        break
                else:
                    print('note: the %s of script %s did not repeat and is not judged' % (t['end'], i))
                    continue
        chk.violation(key(by[i], t) if key else i, 'the code under test ended with a %s (status %d) in script %s %s: %s | %s' % (
            t2['end'], t2['status'], i, json.dumps(by[i].sc), by[i].ops, e2[-800:]), {'script': by[i].line(), 'trace': t2, 'stderr': e2[-3000:]})
    missing = [i for i in by if i not in traces]
    if missing and not bad:
        raise CheckError('no trace of %d scripts' % len(missing))
    seen, tl = {}, []
    for s in scripts:
        t = traces.get(s.id)
        if t is None or t['end'] not in ok_ends:
            continue
        v = {'sc': s.sc, 'ev': t['ev'], 'end': t['end']}
        k = json.dumps(v)
        if k in seen:
            continue
        seen[k] = 1
        tl.append((s, v))
    rej, gen, dist = validate(chk.work, spec, [v for _, v in tl], cfg=cfg, mode=mode, timeout=800)
    for i in rej[:4]:
        s, v = tl[i]
        t2, _ = again(s)
        same = t2 is not None and t2['end'] in ok_ends and bool(validate(chk.work, spec, [{'sc': s.sc, 'ev': t2['ev'], 'end': t2['end']}], cfg=cfg, mode=mode)[0])
        if not same and t2 is not None and t2['end'] in ok_ends:
            for _ in range(2):
                t3, _e = execute(chk, exe, scripts, env=env, timeout=timeout, limit=limit, jobs=jobs)
                if s.id in t3 and t3[s.id]['ev'] == v['ev'] or any(x['end'] not in ok_ends for x in t3.values()):
                    break
                if s.id in t3 and validate(chk.work, spec, [{'sc': s.sc, 'ev': t3[s.id]['ev'], 'end': t3[s.id]['end']}], cfg=cfg, mode=mode)[0]:
                    break
            else:
                print('note: the rejection of script %s did not repeat and is not judged' % s.id)
                continue
        n, ev = longest_prefix(chk, spec, s, v, cfg, mode)
        chk.violation(key(s, v) if key else s.id, 'what the real code did is not a behaviour of %s: script %s %s, first unexplained event %s; script: %s; events: %s' % (
            spec, s.id, json.dumps(s.sc)[:600], json.dumps(ev)[:800], s.ops, json.dumps(v['ev'])[:1500]), {'script': s.line(), 'trace': v})
    for i in rej[4:] if chk.violations else []:
        s, v = tl[i]
        chk.violation(key(s, v) if key else s.id, 'what the real code did is not a behaviour of %s: script %s' % (spec, s.id), {'script': s.line(), 'trace': v})
    return {'scripts': len(scripts), 'traces': len(tl), 'states': dist, 'trans': gen, 'events': sum(len(v['ev']) for _, v in tl),
            'samples': [tl[len(tl) // 3][1], tl[-1][1]] if tl else []}


def longest_prefix(chk, spec, s, v, cfg, mode):
    """The first event the specification does not explain (prefixes are closed
    under acceptance, and the acceptance of a prefix does not depend on its end)."""
    try:
        part = '"part"' in open(os.path.join(SPECS, spec)).read()
        pre = [dict(v, ev=v['ev'][:n], **({'end': 'part'} if part else {})) for n in range(len(v['ev']) + 1)]
        rej = set(validate(chk.work, spec, pre, cfg=cfg, mode=mode)[0])
        for n in range(len(pre)):
            if n in rej:
                return n, v['ev'][n - 1] if n else None
    except CheckError:
        pass
    return -1, None


def coverage(rs, models=()):
    if isinstance(rs, dict):
        rs = [rs]
    return {'states': sum(r['states'] for r in rs) + sum(m.distinct for m in models),
            'transitions': sum(r['trans'] for r in rs) + sum(m.generated for m in models),
            'traces_validated_against_impl': sum(r['traces'] for r in rs),
            'model_states': sum(m.distinct for m in models),
            'scripts': sum(r['scripts'] for r in rs), 'events': sum(r['events'] for r in rs),
            'samples': [x for r in rs for x in r['samples']][:4]}


def merge(*cs):
    """One evidence record of several parts."""
    out = {}
    for c in cs:
        for k, v in c.items():
            if isinstance(v, bool) or k not in out:
                out[k] = v
            elif isinstance(v, (int, float)):
                out[k] += v
            elif isinstance(v, list):
                out[k] = (out[k] + v)[-6:]
    return out
