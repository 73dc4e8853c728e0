#!/usr/bin/env python3
"""Runs one property's check:  run.py C01 [--tier quick|thorough] [--entry NAME] [--keep]

Exit 0: held on everything explored (known findings are printed, not raised).
Exit 1: a violation, replayed against the real code; line "VIOLATION property=.. replay=..".
Exit 2: the code could not be built or encoded (no verdict).
"""
import argparse, json, os, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build_lib
from props import PROPS


ASSUMPTIONS = [
    'doubles are encoded as exact reals (float rounding is outside the encoding) except in entries marked fp',
    'library code outside /repo is encoded from its own headers where header-only; iostream, absl formatting/splitting, '
    'RE2 and file access go through the models of /verif/models and /verif/shim, replayed against the native libraries',
]


def run_engine(b, entry, cfg, tier, out):
    o = dict(deadline=90, query_ms=8000, workers=8, samples=16)
    o.update(cfg.get('opts', {}))
    if tier == 'thorough':
        o.update(deadline=o['deadline'] * 4, query_ms=o['query_ms'] * 3, samples=32)
        o.update(cfg.get('thorough', {}))
    cmd = [b['engine'], '--bc', b['bc'], '--entry', entry, '--out', out, '--workers', str(o['workers']),
           '--deadline', str(o['deadline']), '--query-ms', str(o['query_ms']), '--samples', str(o['samples']),
           '--seed', os.environ.get('VERIF_SEED', '1')] + b['libs']
    if o.get('fp'):
        cmd.append('--fp')
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=o['deadline'] + 200)
    res = {'violations': [], 'samples': [], 'inconclusive': [], 'functions': [], 'summary': None, 'opts': o}
    if os.path.exists(out):
        for line in open(out, errors='replace'):
            try:
                j = json.loads(line)
            except ValueError:
                continue
            t = j.get('type')
            if t == 'violation':
                res['violations'].append(j)
            elif t == 'sample':
                res['samples'].append(j)
            elif t == 'inconclusive':
                res['inconclusive'].append(j['msg'])
            elif t == 'functions':
                res['functions'] = j['names']
            elif t == 'summary':
                res['summary'] = j
    if res['summary'] is None:
        raise build_lib.BuildError('engine gave no summary for %s: rc=%s %s' % (entry, r.returncode, r.stderr[-2000:]))
    return res


def native(b, entry, inputs, timeout=60):
    """Runs the harness natively on one assignment in a scratch directory."""
    d = tempfile.mkdtemp(prefix='stlps')
    try:
        with open(d + '/inputs.txt', 'w') as f:
            for i in inputs:
                v = i['v']
                if i['k'] == 'd':
                    try:
                        v = repr(float.fromhex(v))
                    except ValueError:
                        pass
                f.write('%s %s\n' % (i['n'], v))
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_container_overflow=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1')
        try:
            r = subprocess.run([b['native'], entry, 'inputs.txt'], cwd=d, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=timeout)
            rc, out, err = r.returncode, r.stdout.decode('latin1'), r.stderr.decode('latin1')
        except subprocess.TimeoutExpired as e:
            rc, out, err = 'timeout', (e.stdout or b'').decode('latin1'), ''
        if os.path.exists(d + '/stderr.txt'):
            err += open(d + '/stderr.txt', errors='replace').read()
        fails, obs, crash, done, skip = [], [], None, False, False
        for l in out.split('\n'):
            w = l.split(' ', 1)
            if w[0] == 'FAIL':
                fails.append(w[1])
            elif w[0] == 'OBS':
                k, v = w[1].rsplit(' ', 1)
                obs.append((k, v))
            elif w[0] == 'CRASH':
                crash = w[1]
            elif w[0] in ('DONE', 'STOP'):
                done = True
            elif w[0] == 'ASSUME-FALSE':
                skip = True
        if not crash and not done and not skip:
            k = [x for x in err.split('\n') if 'ERROR: AddressSanitizer' in x or 'what()' in x or 'terminate' in x]
            crash = 'abnormal exit %s %s' % (rc, ' '.join(k)[:300])
        return {'fails': fails, 'obs': obs, 'crash': crash, 'skip': skip, 'rc': rc, 'stderr': err[-1500:]}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def obs_differ(a, n):
    if len(a) != len(n):
        return 'observation count %d vs %d' % (len(a), len(n))
    for (k, v), (k2, v2) in zip(a, n):
        if k != k2:
            return '%s vs %s' % (k, k2)
        try:
            x, y = float(v), float(v2)
        except ValueError:
            return '%s %s vs %s' % (k, v, v2)
        if x != y and not (abs(x - y) <= 5e-3 + 1e-4 * abs(x)):
            return '%s %s vs %s' % (k, v, v2)
    return None


def known_findings(pid):
    p = VERIF + '/known_findings.jsonl'
    r = []
    if os.path.exists(p):
        for l in open(p):
            if l.strip():
                j = json.loads(l)
                if j.get('property') == pid and j.get('status') == 'open':
                    r.append(j)
    return r


def matches(k, label, entry, inputs):
    """A finding is a label (and entry) plus exact values of the named inputs."""
    if k['label'] != label or k.get('entry', entry) != entry:
        return False
    have = {i['n']: i.get('t', i['v']) for i in inputs}
    return all(str(have.get(n)) == str(v) for n, v in k.get('when', {}).items())


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--entry')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid, t0 = a.prop, time.time()
    P = PROPS[pid]
    try:
        b = build_lib.build(os.path.join(VERIF, 'harness', P['harness']))
    except build_lib.BuildError as e:
        print('NO-VERDICT property=%s build failed\n%s' % (pid, e))
        return 2
    tb = time.time() - t0
    ev_runs, viols, unconf, mism, findings, incon = [], [], [], [], [], []
    tot = dict(paths=0, completed=0, branches=0, queries=0, solver_s=0.0, asserts=0, asserts_solver=0, asserts_const=0,
               validated=0, instrs=0, deadline_cut=0, inconclusive=0, unsat=0, sat=0, unknown=0)
    fns, samples_out = set(), []
    missing = []
    for entry, cfg in P['entries'].items():
        if a.entry and entry != a.entry:
            continue
        if cfg.get('tier') == 'thorough' and a.tier != 'thorough':
            continue
        out = os.path.join(b['dir'], entry + '.jsonl')
        try:
            r = run_engine(b, entry, cfg, a.tier, out)
        except (build_lib.BuildError, subprocess.TimeoutExpired) as e:
            print('NO-VERDICT property=%s %s' % (pid, e))
            return 2
        s = r['summary']
        for k in tot:
            if k in s:
                tot[k] += s[k]
        fns |= set(r['functions'])
        for m in r['inconclusive']:
            incon.append('%s: %s' % (entry, m))
        labels = s['labels']
        for want in cfg.get('must', []):
            if not any(l[2:] == want and l[0] in 'ar' for l in labels):
                missing.append('%s:%s' % (entry, want))
        for v in r['violations']:
            if not v['model']:
                unconf.append({'entry': entry, 'label': v['label'], 'why': 'no model'})
                continue
            n = native(b, entry, v['inputs'])
            crash_kind = v['label'].startswith('crash:')
            ok = bool(n['crash']) if crash_kind else (any(f.split(' ')[0] == v['label'] for f in n['fails']) or bool(n['crash']))
            if not ok and n['fails'] and not n['skip']:
                ok = True
            rec = {'property': pid, 'entry': entry, 'label': v['label'], 'msg': v['msg'], 'inputs': v['inputs'],
                   'native': {'fails': n['fails'], 'crash': n['crash'], 'rc': n['rc'], 'stderr': n['stderr']}}
            if not ok:
                rec['why'] = 'did not reproduce natively'
                unconf.append(rec)
                continue
            k = [f for f in known_findings(pid) if matches(f, v['label'], entry, v['inputs'])]
            if k:
                findings.append((k[0], rec))
            else:
                viols.append(rec)
        for smp in r['samples']:
            n = native(b, entry, smp['inputs'])
            d = None
            if n['skip']:
                continue
            if n['crash']:
                d = 'native crash: ' + n['crash']
            elif n['fails']:
                d = 'native assertion: ' + n['fails'][0]
            else:
                d = obs_differ(smp['obs'], n['obs'])
            if d:
                mism.append({'entry': entry, 'inputs': smp['inputs'], 'diff': d})
            else:
                tot['validated'] += 1
            if len(samples_out) < 12:
                samples_out.append({'entry': entry, 'inputs': {i['n']: i.get('t', i['v']) for i in smp['inputs']},
                                    'observed': smp['obs'][:8], 'native_agrees': d is None})
        ev_runs.append({'entry': entry, 'bounds': cfg['bounds'], 'paths': s['paths'], 'completed': s['completed'],
                        'deadline_cut': s['deadline_cut'], 'inconclusive_paths': s['inconclusive'], 'branches': s['branches'],
                        'queries': s['queries'], 'sat': s['sat'], 'unsat': s['unsat'], 'unknown': s['unknown'],
                        'solver_s': s['solver_s'], 'asserts': s['asserts'], 'asserts_decided_by_query': s['asserts_solver'],
                        'asserts_decided_by_simplifier': s['asserts_const'], 'wall_s': s['wall'], 'labels': labels,
                        'complete': s['deadline_cut'] == 0 and s['inconclusive'] == 0 and s['unknown'] == 0})
        if a.v:
            print(entry, {k: s[k] for k in ('paths', 'completed', 'deadline_cut', 'inconclusive', 'violations', 'queries', 'unknown', 'solver_s', 'max_query_s', 'asserts', 'wall')},
                  'samples', len(r['samples']))
            print('   ', labels)
        if viols and a.tier == 'quick' and not a.v:
            break
    wall = time.time() - t0
    demo = sorted(f for f in fns)
    try:
        dm = subprocess.run(['c++filt'], input='\n'.join(demo), stdout=subprocess.PIPE, text=True).stdout.split('\n')
        own = sorted({x for x in dm if any(t in x.split('(')[0] for t in ('stl2ps', 'geo::', 'ps::', 'FindCircle'))
                      and not x.startswith(('std::', 'void std::', 'absl::', 'Eigen::', 'bool std::', 'typename', 'void Eigen'))})
    except OSError:
        own = demo
    cov = {
        'states': tot['paths'], 'transitions': tot['branches'],
        'traces_validated_against_impl': tot['validated'], 'trace_mismatches': mism[:10],
        'bounds': {r['entry']: r['bounds'] for r in ev_runs},
        'outside_bounds': P.get('outside', ''),
        'functions_encoded': own[:400], 'functions_encoded_count': len(fns),
        'queries_discharged': tot['queries'], 'queries_sat': tot['sat'], 'queries_unsat': tot['unsat'], 'queries_unknown': tot['unknown'],
        'solver_time_s': round(tot['solver_s'], 3),
        'assertions_checked': tot['asserts'], 'assertions_by_query': tot['asserts_solver'], 'assertions_by_simplifier': tot['asserts_const'],
        'instructions_executed': tot['instrs'], 'runs': ev_runs, 'samples': samples_out,
        'inconclusive': incon[:40], 'unconfirmed': unconf[:10], 'unreached_labels': missing,
        'exhaustive': bool(ev_runs) and all(r['complete'] for r in ev_runs) and not incon,
        'violations_found': [{k: r[k] for k in ('entry', 'label', 'msg', 'inputs', 'native')} for r in viols[:10]],
        'known_findings': [f[0].get('id', f[0]['label']) for f in findings],
        'build_s': round(tb, 2),
    }
    ev = {
        'property': pid, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking', 'coverage': cov,
        'assumptions': ASSUMPTIONS + P.get('assumptions', []),
        'wall_s': round(wall, 2), 'violations': len(viols),
    }
    os.makedirs(VERIF + '/evidence/replays', exist_ok=True)
    with open(VERIF + '/evidence/%s.json' % pid, 'w') as f:
        json.dump(ev, f, indent=1)
    seen = set()
    for f, rec in findings:
        key = f.get('id', f['label'])
        if key not in seen:
            seen.add(key)
            print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    for m in incon[:5 if not a.v else 50]:
        print('INCONCLUSIVE', m[:400])
    for m in mism[:5]:
        print('TRACE-MISMATCH', m['entry'], m['diff'][:300], {i['n']: i.get('t', i['v']) for i in m['inputs']} if a.v else '')
    for m in unconf[:5]:
        print('UNCONFIRMED', m['entry'], m['label'], m['why'], {i['n']: i.get('t', i['v']) for i in m.get('inputs', [])} if a.v else '', m.get('native', {}) if a.v else '')
    if missing:
        print('UNREACHED', ' '.join(missing))
    n = 0
    for rec in viols:
        key = (rec['entry'], rec['label'])
        if key in seen:
            continue
        seen.add(key)
        path = VERIF + '/evidence/replays/%s-%d.json' % (pid, n)
        n += 1
        with open(path, 'w') as f:
            json.dump(rec, f, indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('   %s %s: %s  inputs: %s  native: %s %s' % (rec['entry'], rec['label'], rec['msg'],
              ', '.join('%s=%s' % (i['n'], i.get('t', i['v'])) for i in rec['inputs'])[:600], rec['native']['fails'][:3], rec['native']['crash'] or ''))
    print('property=%s tier=%s paths=%d queries=%d solver=%.1fs asserts=%d validated=%d build=%.0fs wall=%.0fs %s' % (
        pid, a.tier, tot['paths'], tot['queries'], tot['solver_s'], tot['asserts'], tot['validated'], tb, wall,
        'VIOLATED' if viols else 'held'))
    return 1 if viols else 0


if __name__ == '__main__':
    sys.exit(main())
