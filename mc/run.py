#!/usr/bin/env python3
"""Runs one property's check: shards it over JVMs running Jython, merges what
the shards covered, writes /verif/evidence/<id>.json and replay files.

    run.py ID [--tier quick|thorough] [--jobs N] [--repo DIR]
    run.py --replay FILE [--repo DIR]

exit 0: held on everything explored.  exit 1: VIOLATION line printed.
exit 2: the check itself failed (no verdict).
"""
import argparse
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JY = '/opt/jy/jy'
KNOWN = os.path.join(VERIF, 'known_findings.txt')


def known_findings(prop):
    """key -> description of the findings recorded (not repaired) for prop."""
    found = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding='utf-8'):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)$', line.rstrip('\n'))
            if m and m.group(1) == prop:
                found[m.group(2)] = m.group(3)
    return found


def environment(repo):
    env = dict(os.environ)
    for name in ('PYTHONPATH', 'CLASSPATH', 'JAVA_OPTS'):
        env.pop(name, None)
    env['JYTHONPATH'] = ':'.join(['/opt/bgsite', os.path.join(VERIF, 'stubs'),
                                  os.path.join(VERIF, 'mc'), repo])
    env['JAVA_TOOL_OPTIONS'] = '-Xmx1800m -XX:TieredStopAtLevel=4'
    env['BGLIB_REPO'] = repo
    env['PYTHONHASHSEED'] = '0'
    return env


def main():
    p = argparse.ArgumentParser()
    p.add_argument('prop', nargs='?')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    p.add_argument('--jobs', type=int, default=0)
    p.add_argument('--repo', default='/repo')
    p.add_argument('--replay')
    a = p.parse_args()
    env = environment(a.repo)
    if a.replay:
        rep = json.load(open(a.replay, encoding='utf-8'))
        return subprocess.call([JY, '-B', os.path.join(VERIF, 'mc', 'worker.py'),
                                rep['property'], '--replay', os.path.abspath(a.replay)],
                               env=env, stdin=subprocess.DEVNULL)
    prop = a.prop
    seed = int(os.environ.get('VERIF_SEED') or 1)
    env['VERIF_TIER'] = a.tier
    jobs = a.jobs or min(8, os.cpu_count() or 8)
    started = time.time()
    work = tempfile.mkdtemp(prefix='mc-%s-' % prop)
    try:
        procs = []
        for i in range(jobs):
            out = os.path.join(work, 'shard%d.json' % i)
            log = open(os.path.join(work, 'shard%d.log' % i), 'wb')
            env['TMPDIR'] = work
            procs.append((i, out, subprocess.Popen(
                [JY, '-B', os.path.join(VERIF, 'mc', 'worker.py'), prop, a.tier,
                 str(i), str(jobs), out], env=env, stdin=subprocess.DEVNULL,
                stdout=log, stderr=subprocess.STDOUT, cwd=work)))
        errors, results = [], []
        for i, out, proc in procs:
            rc = proc.wait()
            try:
                results.append(json.load(open(out, encoding='utf-8')))
            except (OSError, ValueError):
                log = open(os.path.join(work, 'shard%d.log' % i), errors='replace').read()
                errors.append('shard %d: exit %s, no result\n%s' % (i, rc, log[-3000:]))
                continue
            if results[-1].get('error'):
                errors.append('shard %d: %s' % (i, results[-1]['error']))
    finally:
        shutil.rmtree(work, ignore_errors=True)

    cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0}
    outcomes, samples, violations, notes = {}, [], [], {}
    for r in results:
        for k in ('states', 'transitions', 'traces_validated_against_impl'):
            cov[k] += r[k]
        for k, v in r['outcomes'].items():
            outcomes[k] = outcomes.get(k, 0) + v
        samples += r['samples']
        violations += r['violations']
        notes.update(r['notes'])
    cov['samples'] = samples[:12]
    cov['outcome_classes'] = dict(sorted(outcomes.items()))
    cov['shards'] = jobs
    cov['exhaustive'] = not errors and not any(v['key'].startswith('hang') for v in violations)
    cov.update(notes)

    known = known_findings(prop)
    fresh, seen_known = [], {}
    for v in violations:
        if v['key'] in known:
            seen_known[v['key']] = v
        else:
            fresh.append(v)
    fresh.sort(key=lambda v: (len(json.dumps(v['case'])), v['key']))
    unique = {}
    for v in fresh:
        unique.setdefault(v['key'], v)
    fresh = list(unique.values())

    for key in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s' % (prop, known[key]))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    evidence = {
        'property': prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick',
        'seed': seed, 'level': 'model_checking', 'coverage': cov,
        'assumptions': sorted(set(sum([r['assumptions'] for r in results], []))),
        'wall_s': round(time.time() - started, 2), 'violations': len(fresh)}
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w', encoding='utf-8') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    if fresh:
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        for old in glob.glob(os.path.join(rdir, prop + '-*.json')):
            os.unlink(old)
        for n, v in enumerate(fresh[:10]):
            path = os.path.join(rdir, '%s-%d.json' % (prop, n))
            with open(path, 'w', encoding='utf-8') as f:
                json.dump({'property': prop, 'key': v['key'], 'message': v['message'],
                           'case': v['case'],
                           'replay_with': 'python3 /verif/mc/run.py --replay ' + path}, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  %s: %s' % (v['key'], v['message'][:600]))
        if len(fresh) > 10:
            print('  (%d more)' % (len(fresh) - 10))
        return 1
    for e in errors:
        print('CHECK ERROR: ' + e)
    if errors:
        return 2
    print('%s held: %d states, %d transitions, %d traces validated, %.1f s'
          % (prop, cov['states'], cov['transitions'],
             cov['traces_validated_against_impl'], time.time() - started))
    return 0


if __name__ == '__main__':
    sys.exit(main())
