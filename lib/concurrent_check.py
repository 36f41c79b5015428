"""Checks of concurrent components: explore schedules of the real code with
the controlled scheduler, validate every distinct trace against its TLA+
specification."""
import json
import os
import random
from vt import *

SYNC = {'lock', 'unlock', 'aload', 'astore', 'armw', 'fence'}
PAYLOAD = {'pw', 'pr'}


def explore(chk, exe, scale=1.0, timeout=500, env=None):
    out = chk.work.path('traces.json')
    cmd = [exe, '--seed', str(SEED), '--out', out, '--scale', str(scale)]
    if THOROUGH:
        cmd.append('--thorough')
    p = run(cmd, timeout=timeout, env=env, cwd=chk.work.dir)
    if p.returncode != 0:
        # The code under test crashed (or its assertion fired) in some schedule.
        return load_partial(out), None, p
    stats = json.loads(p.stdout.decode().strip().splitlines()[-1])
    return load_traces(out), stats, None


def load_partial(path):
    try:
        out = []
        for line in open(path):
            try:
                out.append(json.loads(line))
            except ValueError:
                break
        return out
    except OSError:
        return []


def confirm(chk, exe, rp, env=None):
    """Replay one schedule; returns the trace it gives."""
    out = chk.work.path('replay.json')
    cmd = [exe, '--seed', str(SEED), '--out', out, '--replay', rp]
    if THOROUGH:
        cmd.append('--thorough')
    p = run(cmd, timeout=60, env=env, cwd=chk.work.dir)
    if p.returncode != 0:
        return None
    t = load_traces(out)
    return t[0] if t else None


def strip(t, kinds):
    return dict(t, ev=[e for e in t['ev'] if e['k'] not in kinds])


def pick(traces, cap, seed):
    """All traces up to cap; beyond that a fair sample over the scenarios."""
    if len(traces) <= cap:
        return traces
    rnd = random.Random(seed)
    by = {}
    for t in traces:
        by.setdefault(t['sc']['id'], []).append(t)
    out = []
    groups = sorted(by.items(), key=lambda kv: len(kv[1]))
    left = cap
    for i, (k, g) in enumerate(groups):
        share = left // (len(groups) - i)
        if len(g) > share:
            g = rnd.sample(g, share)
        out += g
        left -= len(g)
    return out


def run_check(chk, exe, spec, cap_quick=12000, cap_thorough=120000, scale=1.0, hb=True, env=None, key=None,
              explore_timeout=500, mode=''):
    traces, stats, crash = explore(chk, exe, scale=scale, env=env, timeout=explore_timeout)
    if crash is not None:
        p2 = explore(chk, exe, scale=scale, env=env, timeout=explore_timeout)
        if p2[2] is None:
            raise CheckError('harness failed once, then passed: %s' % crash.stderr.decode(errors='replace')[-2000:])
        chk.violation('crash', 'the code under test crashed or aborted under the controlled scheduler (exit %d): %s'
                      % (crash.returncode, crash.stderr.decode(errors='replace')[-1500:]),
                      {'cmd': 'harness --seed %d' % SEED, 'stderr': crash.stderr.decode(errors='replace')[-4000:]})
        stats = {'runs': len(traces), 'scenarios': 0, 'exhausted': 0, 'distinct': len(traces)}
    api, hbt, seen, hbseen = [], [], set(), set()
    for t in [t for t in traces if t['end'] == 'crash'][:3]:
        out = chk.work.path('crash.json')
        p = run([exe, '--seed', str(SEED), '--out', out, '--only', t['rp']] + (['--thorough'] if THOROUGH else []), timeout=700, env=env, cwd=chk.work.dir)
        if not any(x['end'] == 'crash' for x in load_traces(out)):
            raise CheckError('crash of scenario %s did not repeat' % t['rp'])
        chk.violation('crash-' + t['rp'], 'the code under test crashed or aborted in scenario %s: %s' % (
            json.dumps(t['sc']), p.stderr.decode(errors='replace')[-1500:]), t)
    traces = [t for t in traces if t['end'] != 'crash']
    for t in traces:
        if t['sc'].get('hb'):
            k = json.dumps([t['sc'], [e for e in t['ev'] if e['k'] in SYNC | PAYLOAD]])
            if k not in hbseen:
                hbseen.add(k)
                hbt.append(dict(t, ev=[e for e in t['ev'] if e['k'] in SYNC | PAYLOAD]))
        a = strip(t, SYNC | PAYLOAD)
        k = json.dumps([a['sc'], a['ev'], a['end']])
        if k not in seen:
            seen.add(k)
            api.append(a)
    cap = cap_thorough if THOROUGH else cap_quick
    total = len(api)
    api = pick(api, cap, SEED)
    hbt = pick(hbt, cap // 8, SEED) if hb else []
    states = trans = 0
    for kind, sp, ts in (('api', spec, api), ('hb', 'HappensBeforeTrace.tla', hbt)):
        if not ts:
            continue
        rej, g, d = validate(chk.work, sp, ts, timeout=800, mode=mode)
        states += d
        trans += g
        rerun = None
        for i in rej[:4]:
            t = ts[i]
            def view(x):
                return dict(x, ev=[e for e in x['ev'] if e['k'] in SYNC | PAYLOAD]) if kind == 'hb' else strip(x, SYNC | PAYLOAD)
            again = confirm(chk, exe, t['rp'], env=env)
            repeated = again is not None and bool(validate(chk.work, sp, [view(again)], mode=mode)[0])
            if not repeated:
                # The schedule depended on earlier executions of the process: repeat the whole exploration.
                if rerun is None:
                    rerun = set(json.dumps([x['sc'], x['ev'], x['end']]) for x in (view(y) for y in explore(
                        chk, exe, scale=scale, env=env, timeout=explore_timeout)[0]))
                if json.dumps([t['sc'], t['ev'], t['end']]) not in rerun:
                    raise CheckError('rejection of %s did not repeat' % t['rp'])
            what = ('payload access not ordered after the write that published it' if kind == 'hb'
                    else 'execution of the real code is not a behaviour of %s' % sp)
            chk.violation(key(t) if key else t['sc']['id'], '%s: scenario %s end=%s events=%s' % (
                what, json.dumps(t['sc']), t['end'], json.dumps(t['ev'])), t)
    return {'schedules': stats['runs'], 'scenarios': stats['scenarios'], 'scenarios_exhausted': stats['exhausted'],
            'distinct_traces': total, 'traces': len(api), 'hb_traces': len(hbt), 'states': states, 'trans': trans,
            'samples': [api[len(api) // 3], api[-1]] if api else []}


def coverage(r, models=()):
    """Evidence of one concurrent check; models: results of model_check."""
    return {'states': r['states'] + sum(m.distinct for m in models),
            'transitions': r['trans'] + sum(m.generated for m in models),
            'traces_validated_against_impl': r['traces'] + r['hb_traces'],
            'model_states': sum(m.distinct for m in models),
            **{k: r[k] for k in ('schedules', 'scenarios', 'scenarios_exhausted', 'distinct_traces', 'hb_traces', 'samples')}}
