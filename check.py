#!/usr/bin/env python3
"""Runs the checks of /verif against /repo's working tree.

  check.py --setup            builds every engine
  check.py C07 [--tier quick|thorough]
  check.py --replay FILE      replays a recorded counterexample

Exit 0: the property held on everything explored.  Exit 1: violated, with a
line "VIOLATION property=<id> replay=<path>".
"""
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
REPLAYS = os.path.join(VERIF, 'replays')
EVIDENCE = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.txt')
JOBS = os.cpu_count() or 4
sys.path.insert(0, VERIF)
import plan  # noqa: E402


class BuildError(Exception):
    pass


class HarnessError(BuildError):
    """A scenario file does not compile against the library's interface."""


harness_errors = {}  # Engine: [(source, compiler's output)].


def read(path):
    with open(path, 'rb') as f:
        return f.read()


_headers = {}


def header_hash(root):
    if root not in _headers:
        h = hashlib.sha256()
        for p in sorted(glob.glob(os.path.join(root, '**', '*.h'), recursive=True)):
            if '/third_party/' in p or '/build/' in p:
                continue
            h.update(p.encode())
            h.update(read(p))
        _headers[root] = h.hexdigest()
    return _headers[root]


def compile_one(src, flags, cxx):
    """Compiles |src| and returns the object; cached by content."""
    h = hashlib.sha256()
    h.update('\0'.join([cxx] + flags + [src]).encode())
    h.update(read(src))
    h.update(header_hash(os.path.join(REPO, 'rst')).encode())
    for d in ('rmc', 'seq', 'files'):
        h.update(header_hash(os.path.join(VERIF, d)).encode())
    obj = os.path.join(BUILD, 'obj', h.hexdigest()[:32] + '.o')
    if not os.path.exists(obj):
        tmp = obj + '.%d.tmp' % os.getpid()
        r = subprocess.run([cxx] + flags + ['-c', src, '-o', tmp], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError('%s\n%s' % (src, r.stdout[-4000:]))
        os.replace(tmp, obj)
    return obj


def repo_sources():
    out = []
    for p in sorted(glob.glob(os.path.join(REPO, 'rst', '**', '*.cc'), recursive=True)):
        if p.endswith('_test.cc') or p.endswith('_tests.cc') or p.endswith('_test_main.cc'):
            continue
        out.append(p)
    return out


def build(engine):
    """Builds an engine's executable and returns its path."""
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    e = plan.ENGINES[engine]
    cxx = e.get('cxx', 'g++')
    jobs = []
    for s in repo_sources():
        jobs.append((s, e['flags'] + ['-I' + REPO, '-w']))
    for pat in e['sources']:
        for s in sorted(glob.glob(os.path.join(VERIF, pat))):
            jobs.append((s, e['flags'] + e.get('harness_flags', []) + ['-I' + REPO, '-I' + VERIF, '-w']))
    for s, fl in e.get('runtime', []):
        jobs.append((os.path.join(VERIF, s), fl + ['-I' + VERIF, '-w']))

    def one(job):
        try:
            return compile_one(job[0], job[1], cxx), None
        except BuildError as e:
            if not job[0].startswith(VERIF + os.sep) or 'error:' not in str(e):
                raise
            return None, (job[0], str(e))

    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        done = list(ex.map(one, jobs))
    # The scenarios use the documented interface only.  Those of a file that no
    # longer compiles are lost, which its properties' checks report; the other
    # properties are still checked.
    harness_errors[engine] = [e for _, e in done if e]
    objs = [o for o, _ in done if o]
    h = hashlib.sha256('\0'.join(objs + e['link']).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, '%s-%s' % (engine, h))
    if not os.path.exists(exe):
        tmp = exe + '.%d.tmp' % os.getpid()
        r = subprocess.run([cxx] + objs + e['link'] + ['-o', tmp], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError(r.stdout[-4000:])
        os.replace(tmp, exe)
        for old in glob.glob(os.path.join(BUILD, engine + '-*')):
            if old != exe and time.time() - os.path.getmtime(old) > 3600:
                os.unlink(old)
    return exe


def prune_cache():
    objs = glob.glob(os.path.join(BUILD, 'obj', '*.o'))
    if len(objs) > 3000:
        objs.sort(key=os.path.getmtime)
        for o in objs[:1500]:
            os.unlink(o)


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'KNOWN-FINDING: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def symbolize(exe, msg):
    def sub(m):
        pcs = m.group(1).split()
        try:
            r = subprocess.run(['addr2line', '-Cfse', exe] + pcs, stdout=subprocess.PIPE, text=True, timeout=60)
            lines = r.stdout.split('\n')
            fr = ['%s (%s)' % (lines[2 * i], lines[2 * i + 1]) for i in range(len(pcs))
                  if not lines[2 * i + 1].startswith('?')]
            return '(at %s)' % ' <- '.join(fr)
        except Exception:
            return m.group(0)
    return re.sub(r'\(pcs:([^)]*)\)', sub, msg)


def lost_scenarios(part, prop):
    """One record for each scenario file of this property that does not compile."""
    out = []
    for src, text in harness_errors.get(part['engine'], []):
        if part.get('cmp') or '"%s"' % prop not in read(src).decode():
            continue
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, '%s-%s.txt' % (part['engine'], os.path.basename(src)))
        with open(path, 'w') as f:
            f.write(text + '\n')
        m = re.search(r'error: .*', text)
        out.append({'scenario': os.path.basename(src), 'engine': part['engine'], 'executions': 0, 'replay': path,
                    'violation': 'uses of the library that compiled before no longer do: ' +
                                 (m.group(0) if m else '')})
    return out


def run_part(part, prop, tier, scratch, budget):
    """Runs one engine over one group of scenarios; returns the records."""
    try:
        exe = build(part['engine'])
    except BuildError:
        if not harness_errors.get(part['engine']):
            raise
        exe = None
    lost = lost_scenarios(part, prop)
    if exe is None:
        if lost:
            return 1, lost, ''
        raise BuildError('scenarios: ' + harness_errors[part['engine']][0][1])
    out = os.path.join(scratch, 'out-%s-%d.jsonl' % (part['engine'], time.time_ns()))
    log = out + '.log'
    os.makedirs(REPLAYS, exist_ok=True)
    cmd = [exe, '--tier', tier, '--jobs', str(JOBS), '--out', out, '--replay-dir', REPLAYS,
           '--budget', '%.0f' % budget, '--engine', part['engine']]
    for g in ('group', 'only', 'bound'):
        if part.get(g) is not None:
            cmd += ['--' + g, str(part[g])]
    cmd += part.get('args', [])
    env = dict(os.environ, RMC_SCRATCH=scratch)
    env.update(plan.ENGINES[part['engine']].get('env', {}))
    with open(log, 'wb') as lf:
        try:
            rc = subprocess.run(cmd, stdout=lf, stderr=lf, env=env, timeout=budget + 240, cwd=scratch).returncode
        except subprocess.TimeoutExpired:
            rc = 124
    recs = []
    if os.path.exists(out):
        for l in open(out, errors='replace'):
            try:
                recs.append(json.loads(l))
            except ValueError:
                pass
    for r in recs:
        r['engine'] = part['engine']
        if r.get('violation'):
            r['violation'] = symbolize(exe, r['violation'])
    recs += lost
    return (1 if lost and rc == 0 else rc), recs, read(log).decode(errors='replace')


def main():
    args = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        i = args.index('--tier')
        tier = args[i + 1]
        del args[i:i + 2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if args and args[0] == '--setup':
        for e in plan.ENGINES:
            print('built', build(e))
        return 0
    if args and args[0] == '--replay':
        return replay(args[1])
    prop = args[0]
    t0 = time.time()
    spec = plan.CHECKS[prop]
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    os.chmod(scratch, 0o777)
    try:
        return check(prop, spec, tier, seed, scratch, t0)
    except BuildError as e:
        print('error: cannot build: %s' % e)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(prop, spec, tier, seed, scratch, t0):
    budget = spec.get('budget', {}).get(tier, 300 if tier == 'quick' else 3 * 3600)
    parts = [p for p in spec['parts'] if tier in p.get('tiers', ('quick', 'thorough'))]
    recs, errors = [], []
    for i, part in enumerate(parts):
        left = budget - (time.time() - t0)
        rc, rs, log = run_part(part, prop, tier, scratch, max(20.0, left / (len(parts) - i)))
        recs += rs
        for r in rs:
            r['label'] = part.get('label', part['engine'])
            r['cmp'] = part.get('cmp')
        if rc not in (0, 1):
            # An engine that cannot finish because the code under test broke it
            # in a way it cannot attribute: try once more before giving up.
            rc2, rs2, log2 = run_part(part, prop, tier, scratch, max(20.0, left / (len(parts) - i)))
            if rc2 not in (0, 1):
                errors.append((part, rc, log))
            else:
                for r in rs2:
                    r['label'] = part.get('label', part['engine'])
                    r['cmp'] = part.get('cmp')
                recs += rs2
        if not rs and rc in (0, 1):
            errors.append((part, rc, 'no scenario was run\n' + log))
    viol = [r for r in recs if r.get('violation') and not r.get('cmp')]
    viol += plan.compare([r for r in recs if r.get('cmp')])
    known = known_findings(prop)
    hit, new = {}, []
    for r in viol:
        for key, text in known:
            if r['scenario'] == key or (r.get('key') and r['key'] == key):
                hit[key] = text
                break
        else:
            new.append(r)
    for r in recs:
        if r.get('cmp'):
            continue
        for k in r.get('known', []):
            for key, text in known:
                if k == key:
                    hit[key] = text
                    break
            else:
                new.append(dict(r, violation='unlisted finding ' + k, replay=r.get('replay')))
    write_evidence(prop, spec, tier, seed, recs, time.time() - t0, len(new))
    for key, text in hit.items():
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    for r in new[:20]:
        print('%s: %s' % (r['scenario'], r['violation']))
    if new:
        print('VIOLATION property=%s replay=%s' % (prop, new[0].get('replay') or 'none'))
        return 1
    if errors:
        for part, rc, log in errors:
            print('error: engine %s ended with %d\n%s' % (part['engine'], rc, log[-3000:]))
        return 2
    n = len(recs)
    print('%s: held on %d scenarios, %d executions, %d states, %.1f s%s' % (
        prop, n, sum(r.get('executions', 0) for r in recs), sum(r.get('states', 0) for r in recs),
        time.time() - t0, ' (some capped by time)' if any(r.get('capped') for r in recs) else ''))
    return 0


def write_evidence(prop, spec, tier, seed, recs, wall, nviol):
    os.makedirs(EVIDENCE, exist_ok=True)
    samples = []
    for r in sorted(recs, key=lambda r: -r.get('executions', 0))[:8]:
        samples.append({k: r.get(k) for k in ('scenario', 'label', 'bound_completed', 'bound_wanted', 'states',
                                              'transitions', 'executions', 'complete', 'outcomes', 'sample')
                        if r.get(k) is not None})
    capped = [r['scenario'] for r in recs if r.get('capped')]
    tot = lambda k: int(sum(r.get(k) or 0 for r in recs))
    level = spec['level']
    cov = {
        'scenarios': len(recs),
        'samples': samples,
        'exhaustive': not capped and nviol == 0,
        'capped_scenarios': capped,
        'per_scenario': [{'scenario': r['scenario'], 'label': r.get('label'), 'bound': r.get('bound_completed'),
                          'states': r.get('states'), 'executions': r.get('executions'),
                          'outcomes': r.get('outcomes')} for r in recs],
    }
    if level == 'model_checking':
        cov['distinct_outcomes'] = tot('outcomes')
        cov['states'] = tot('states')
        cov['transitions'] = tot('transitions')
        cov['traces_validated_against_impl'] = tot('complete')
        cov['explanation'] = ('Every execution is of the real code, so every explored trace is validated against the '
                              'implementation: complete executions are counted, executions cut off in an already '
                              'explored state are not.')
    else:
        cov['evaluations'] = tot('executions')
        cov['distinct_nontrivial'] = tot('outcomes')
        cov['rule'] = spec.get('rule', 'every combination of environment answers within the bound is run once; '
                               'distinct: different observable outcome (status, destination, leftovers)')
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': spec.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': nviol}
    tmp = os.path.join(EVIDENCE, prop + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVIDENCE, prop + '.json'))


def replay(path):
    text = open(path).read()
    m = re.search(r'^engine (\S+)', text, re.M)
    engine = m.group(1) if m else ('conc' if path.endswith('.sched') else 'files' if path.endswith('.faults') else 'seq')
    exe = build(engine)
    scratch = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        env = dict(os.environ, RMC_SCRATCH=scratch)
        env.update(plan.ENGINES[engine].get('env', {}))
        m = re.search(r'^explore (.*)', text, re.M)
        if m:
            return subprocess.run([exe, '--tier', 'thorough', '--replay-dir', scratch] + m.group(1).split(), env=env,
                                  cwd=scratch).returncode
        return subprocess.run([exe, '--replay', os.path.abspath(path)], env=env, cwd=scratch).returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
