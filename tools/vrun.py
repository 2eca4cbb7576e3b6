#!/usr/bin/env python3
"""Builds the code under test from /repo's working tree, runs the exhaustive explorations
registered for one property, confirms every violation by replaying it alone, filters the
committed known findings, and writes evidence/<id>.json.

usage: vrun.py --setup | vrun.py <property> <quick|thorough> | vrun.py --replay <file>
Exit: 0 held on everything explored, 1 violation (with a VIOLATION line), 2 error of the check.
"""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SRC = os.path.join(VERIF, 'src')
sys.path.insert(0, os.path.join(VERIF, 'tools'))
sys.dont_write_bytecode = True
from checks import CHECKS  # noqa: E402

NCPU = os.cpu_count() or 8
WORKERS = int(os.environ.get('VERIF_WORKERS', min(8, NCPU)))

VARIANTS = {
    # as the project builds itself: assertions on, -O2
    'opt': dict(cxx='g++', flags=['-std=gnu++17', '-O2', '-g1']),
    # memory-safety pass: every execution of the exploration runs under the sanitizers
    'asan': dict(cxx='g++', flags=['-std=gnu++17', '-O1', '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_SANITIZE_VECTOR=1', '-g1', '-fno-omit-frame-pointer',
                                   '-fsanitize=address,undefined', '-fno-sanitize=float-divide-by-zero,float-cast-overflow',
                                   '-fno-sanitize-recover=undefined', '-DMC_NO_NEW', '-DMC_ASAN']),
    # uninitialised-read differential: automatic variables filled with a pattern / zeros
    'pat': dict(cxx='g++', flags=['-std=gnu++17', '-O1', '-g1', '-ftrivial-auto-var-init=pattern']),
    'zero': dict(cxx='g++', flags=['-std=gnu++17', '-O1', '-g1', '-ftrivial-auto-var-init=zero']),
    'memcheck': dict(cxx='g++', flags=['-std=gnu++17', '-O1', '-g1', '-DMC_NO_NEW', '-DMC_VALGRIND'], run=['valgrind', '-q', '--leak-check=no', '--num-callers=8', '--error-limit=no', '--log-file=/dev/null']),
    'tsan': dict(cxx='g++', flags=['-std=gnu++17', '-O1', '-g1', '-fsanitize=thread', '-DMC_NO_NEW', '-DMC_TSAN']),
}


class CheckError(Exception):
    pass


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def repo_sources():
    out = []
    for d in ('cpp', 'utils'):
        base = os.path.join(REPO, d)
        for f in sorted(os.listdir(base)):
            if f.endswith(('.cpp', '.h', '.hpp', '.cxx', '.c', '.inl')):
                out.append(os.path.join(base, f))
    return out


def repo_key():
    h = hashlib.sha256()
    for f in repo_sources():
        h.update(f.encode() + b'\0' + read(f))
    return h.hexdigest()[:16]


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout


def compile_one(job):
    cxx, flags, src, obj = job
    if os.path.exists(obj):
        return None
    tmp = obj + '.%d.tmp' % os.getpid()
    rc, out = sh([cxx] + flags + ['-fPIC', '-w', '-I' + REPO + '/cpp', '-I' + REPO + '/utils', '-I' + SRC, '-c', src, '-o', tmp])
    if rc:
        return '%s: %s' % (src, out[-3000:])
    os.replace(tmp, obj)
    return None


def build(requests):
    """requests: set of (harness source name, variant, extra link flags tuple) -> {request: executable}"""
    key = repo_key()
    jobs, plan = [], {}
    common = hashlib.sha256(b''.join(read(os.path.join(SRC, f)) for f in sorted(os.listdir(SRC)) if f.endswith('.h'))).hexdigest()[:12]
    for (name, variant, extra) in sorted(requests):
        v = VARIANTS[variant]
        fl = hashlib.sha256(' '.join([v['cxx']] + v['flags']).encode()).hexdigest()[:8]
        libdir = os.path.join(BUILD, 'lib-%s-%s-%s' % (variant, fl, key))
        os.makedirs(libdir, exist_ok=True)
        objs = []
        for s in repo_sources():
            if s.endswith(('.cpp', '.cxx', '.c')):
                o = os.path.join(libdir, os.path.basename(s) + '.o')
                objs.append(o)
                jobs.append((v['cxx'], v['flags'], s, o))
        if name == '@lib':
            exe = os.path.join(libdir, 'libsigrid.so')
            plan[(name, variant, extra)] = (v, objs, exe, ['-shared'], extra)
            continue
        hobjs = []
        for src in (name, 'mc.cpp'):
            p = os.path.join(SRC, src)
            hh = hashlib.sha256(read(p) + common.encode()).hexdigest()[:12]
            o = os.path.join(libdir, '%s-%s.o' % (src, hh))
            hobjs.append(o)
            jobs.append((v['cxx'], v['flags'], p, o))
        exe = os.path.join(libdir, name.replace('.cpp', '') + '-' + hashlib.sha256(' '.join(hobjs + list(extra)).encode()).hexdigest()[:8])
        plan[(name, variant, extra)] = (v, hobjs + objs, exe, [], extra)
    jobs = sorted(set((j[0], tuple(j[1]), j[2], j[3]) for j in jobs))
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(lambda j: compile_one((j[0], list(j[1]), j[2], j[3])), jobs) if e]
    if errs:
        raise CheckError('build failed:\n' + '\n'.join(errs[:3]))
    res = {}
    for req, (v, objs, exe, mode, extra) in plan.items():
        if not os.path.exists(exe):
            rc, out = sh([v['cxx']] + [f for f in v['flags']] + mode + list(extra) + objs + ['-o', exe + '.tmp', '-llapack', '-lblas', '-lpthread', '-lquadmath'])
            if rc:
                raise CheckError('link failed: ' + out[-3000:])
            os.replace(exe + '.tmp', exe)
        res[req] = exe
    # keep the build directory small: drop builds of other trees
    for d in os.listdir(BUILD):
        p = os.path.join(BUILD, d)
        if d.startswith('lib-') and not d.endswith(key) and time.time() - os.path.getmtime(p) > 3600:
            shutil.rmtree(p, ignore_errors=True)
    return res


def known_findings(prop):
    keys, lines = {}, os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(lines):
        for ln in open(lines):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', ln.strip())
            if m and m.group(1) == prop:
                keys[m.group(2)] = m.group(3)
    return keys


def run_env(variant):
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=1'
    e['UBSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66:print_stacktrace=0'
    e['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66'
    e['LC_ALL'] = 'C'
    e['OMP_NUM_THREADS'] = e['OPENBLAS_NUM_THREADS'] = '1'
    return e


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == '--setup':
        os.makedirs(BUILD, exist_ok=True)
        reqs = set()
        for c in CHECKS.values():
            for r in c['runs']:
                if 'src' in r:
                    reqs.add((r['src'], r.get('variant', 'opt'), tuple(r.get('link', ()))))
        build(reqs)
        print('setup: built %d harnesses' % len(reqs))
        return 0
    if len(sys.argv) >= 3 and sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    prop, tier = sys.argv[1], sys.argv[2]
    if prop not in CHECKS:
        print('no check for', prop)
        return 2
    return check(prop, tier)


def run_harness(prop, idx, r, exe, tier, tag, known):
    out = os.path.join(BUILD, 'run', '%s-%s-%d' % (prop, tag, idx))
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    kf = os.path.join(out, 'known.txt')
    with open(kf, 'w') as f:
        f.write('\n'.join(known) + '\n')
    t = r.get('tier', {}).get(tier, {'quick': 0, 'thorough': 1}[tier])
    cmd = VARIANTS[r.get('variant', 'opt')].get('run', []) + [exe, '--tier', str(t), '--out', out, '--workers', str(WORKERS), '--known', kf]
    if 'scenario' in r:
        cmd += ['--scenario', r['scenario']]
    for k in ('fill', 'hang', 'mem', 'budget'):
        if k in r:
            cmd += ['--' + k, str(r[k])]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=run_env(r.get('variant')), cwd=out)
    if p.returncode not in (0, 1) or not os.path.exists(os.path.join(out, 'result.json')):
        raise CheckError('%s exited %d\n%s' % (' '.join(cmd), p.returncode, p.stdout[-2000:]))
    res = json.load(open(os.path.join(out, 'result.json')))
    viols = []
    vf = os.path.join(out, 'violations.jsonl')
    if os.path.exists(vf):
        for ln in open(vf):
            viols.append(json.loads(ln))
    base = cmd[:]
    return res, viols, base, out


def check(prop, tier):
    t0 = time.time()
    c = CHECKS[prop]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(BUILD, exist_ok=True)
    known = known_findings(prop)
    reqs = set()
    for r in c['runs']:
        if 'src' in r:
            reqs.add((r['src'], r.get('variant', 'opt'), tuple(r.get('link', ()))))
        if r.get('needs_lib'):
            reqs.add(('@lib', 'opt', ()))
    exes = build(reqs)
    tag = '%s-%d' % (tier, os.getpid())
    scen, allv, knownhits, samples, digests = [], [], {}, [], {}
    outs = []
    for i, r in enumerate(c['runs']):
        if tier == 'quick' and r.get('only') == 'thorough':
            continue
        if tier == 'thorough' and r.get('only') == 'quick':
            continue
        if 'py' in r:
            res, viols, base, out = run_python(prop, i, r, exes[('@lib', 'opt', ())], tier, tag, known)
        else:
            exe = exes[(r['src'], r.get('variant', 'opt'), tuple(r.get('link', ())))]
            res, viols, base, out = run_harness(prop, i, r, exe, tier, tag, known)
        outs.append(out)
        for s in res['scenarios']:
            s['harness'] = r.get('src', r.get('py'))
            s['variant'] = r.get('variant', 'opt') + ('+fill=%s' % r['fill'] if 'fill' in r else '')
            scen.append(s)
            samples += ['%s/%s: %s' % (s['harness'], s['name'], x) for x in s.pop('samples', [])[:2]]
            for k, n in s.get('known', {}).items():
                knownhits[k] = knownhits.get(k, 0) + n
            if 'diff' in r:
                digests.setdefault((r['diff'], s['name']), []).append((s['variant'], s['digest'], s['executions'], s['complete']))
        for v in viols:
            v['cmd'] = base
            v['harness'] = r.get('src', r.get('py'))
            v['variant'] = r.get('variant', 'opt')
            v['link'] = list(r.get('link', ()))
            v['tier'] = tier
            v['run'] = i
            allv.append(v)
        if any(v['key'] == 'hang' for v in viols):
            break
    # confirm each violation by itself: a violation that does not replay is an error of the check
    confirmed, per = [], {}
    for v in allv:
        k = (v['harness'], v['scenario'], v['key'])
        per[k] = per.get(k, 0) + 1
        if per[k] > 2 or len(confirmed) >= 12:
            continue
        cmd = [a for a in v['cmd']]
        if '--scenario' in cmd:
            j = cmd.index('--scenario')
            del cmd[j:j + 2]
        p = subprocess.run(cmd + ['--scenario', v['scenario'], '--replay', v['choices']], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=run_env(v['variant']))
        if p.returncode != 1:
            # does it need what other executions did before (state outside of the objects)? then it
            # comes back when one process runs the scenario from its beginning
            j = cmd.index('--workers')
            cmd[j + 1] = '1'
            j = cmd.index('--out')
            cmd[j + 1] = cmd[j + 1] + '-again'
            os.makedirs(cmd[j + 1], exist_ok=True)
            q = subprocess.run(cmd + ['--scenario', v['scenario']], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=run_env(v['variant']), timeout=400)
            again = [json.loads(x) for x in open(cmd[j + 1] + '/violations.jsonl')] if os.path.exists(cmd[j + 1] + '/violations.jsonl') else []
            shutil.rmtree(cmd[j + 1], ignore_errors=True)
            if not again:
                raise CheckError('violation did not replay (%d): %s\n%s%s' % (p.returncode, v, p.stdout[-1500:], p.stderr[-1500:]))
            v['msg'] = again[0]['msg'] + ' (only after other executions in the same process)'
            v['sequence'] = True
            p.stdout += 'not violated when run alone; violated when one process runs the whole scenario\n'
        v['trace'] = p.stdout + p.stderr[:1500]
        confirmed.append(v)
    rc = 0
    for k, n in sorted(knownhits.items()):
        print('KNOWN-FINDING: property=%s %s (%d executions) %s' % (prop, k, n, known.get(k, '')))
    repdir = os.path.join(BUILD, 'replays')
    os.makedirs(repdir, exist_ok=True)
    for (grp, name), ds in sorted(digests.items()):
        if len(ds) > 1 and all(d[3] for d in ds) and len(set(d[1] for d in ds)) > 1:
            confirmed.append(dict(harness=grp, scenario=name, key='uninitialised', choices='', variant='pat', link=[], tier=tier, run=-1,
                                  msg='results depend on the initial content of memory: ' + str(ds), trace='', cmd=[]))
    for n, v in enumerate(confirmed):
        path = os.path.join(repdir, '%s-%s-%d.json' % (prop, tier, n))
        v['property'] = prop
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  %s/%s [%s] %s' % (v['harness'], v['scenario'], v['key'], v['msg'][:600]))
        for ln in v.get('trace', '').splitlines()[:25]:
            print('    | ' + ln[:300])
        rc = 1
    tot = lambda k: sum(s[k] for s in scen)
    bad = [s for s in scen if s['executions'] == 0]
    if bad and rc == 0:
        raise CheckError('vacuous: scenarios without executions: %s' % [s['name'] for s in bad])
    cov = {
        'states': tot('states'),
        'transitions': tot('transitions'),
        'traces_validated_against_impl': tot('executions'),
        'distinct_nontrivial': tot('nontrivial'),
        'rule': c.get('rule', 'every sequence of choices of each scenario (operations, argument values from finite alphabets) is executed once on the real code; '
                      'an execution is non-trivial when the scenario marks it so (overlap/hit/non-default branch), counted by identity of its inputs'),
        'exhaustive': all(s['complete'] for s in scen),
        'samples': samples[:12] or ['(none)'],
        'scenarios': scen,
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': c.get('level', 'model_checking'), 'coverage': cov,
          'assumptions': c.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(confirmed),
          'known_findings_hit': knownhits}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for s in scen:
        print('%-28s %-7s exec=%-9d states=%-8d calls=%-10d %6.1fs %s' % (s['name'], s['variant'], s['executions'], s['states'], s['transitions'], s['wall_s'], '' if s['complete'] else 'INCOMPLETE'))
    print('%s %s: %s in %.1fs' % (prop, tier, 'VIOLATED' if rc else 'held on everything explored', time.time() - t0))
    for o in outs:
        shutil.rmtree(o, ignore_errors=True)
    return rc


def make_pkg(so, d):
    """the python package as setup.py lays it out: py/* beside the shared library"""
    pkg = os.path.join(d, 'sigrid')
    os.makedirs(pkg, exist_ok=True)
    for f in sorted(os.listdir(REPO + '/py')):
        if f.endswith('.py'):
            shutil.copy(os.path.join(REPO, 'py', f), pkg)
    shutil.copy(so, os.path.join(pkg, 'libsigrid.so'))


def run_python(prop, idx, r, so, tier, tag, known):
    out = os.path.join(BUILD, 'run', '%s-%s-%d' % (prop, tag, idx))
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    make_pkg(so, out)
    kf = os.path.join(out, 'known.txt')
    with open(kf, 'w') as f:
        f.write('\n'.join(known) + '\n')
    cmd = ['/usr/bin/python3', '-B', os.path.join(SRC, r['py']), '--pkg', out, '--tier', {'quick': '0', 'thorough': '1'}[tier], '--out', out, '--known', kf, '--workers', str(WORKERS)]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=run_env('opt'), cwd=out)
    if p.returncode not in (0, 1) or not os.path.exists(os.path.join(out, 'result.json')):
        raise CheckError('%s exited %d\n%s' % (' '.join(cmd), p.returncode, p.stdout[-2000:]))
    res = json.load(open(os.path.join(out, 'result.json')))
    viols = [json.loads(x) for x in open(os.path.join(out, 'violations.jsonl'))] if os.path.exists(os.path.join(out, 'violations.jsonl')) else []
    return res, viols, cmd, out


def replay(path):
    v = json.load(open(path))
    c = CHECKS[v['property']]
    r = c['runs'][v['run']]
    os.makedirs(os.path.join(BUILD, 'run'), exist_ok=True)
    if 'py' in r:
        exe = build({('@lib', 'opt', ())})[('@lib', 'opt', ())]
        out = os.path.join(BUILD, 'run', 'replay-%d' % os.getpid())
        make_pkg(exe, out)
        cmd = ['/usr/bin/python3', '-B', os.path.join(SRC, r['py']), '--pkg', out, '--tier', {'quick': '0', 'thorough': '1'}[v['tier']], '--out', out]
    else:
        q = (r['src'], r.get('variant', 'opt'), tuple(r.get('link', ())))
        exe = build({q})[q]
        t = r.get('tier', {}).get(v['tier'], {'quick': 0, 'thorough': 1}[v['tier']])
        cmd = VARIANTS[r.get('variant', 'opt')].get('run', []) + [exe, '--tier', str(t)]
        for k in ('fill', 'hang', 'mem'):
            if k in r:
                cmd += ['--' + k, str(r[k])]
    if v.get('sequence'):
        out = os.path.join(BUILD, 'run', 'replay-%d' % os.getpid())
        os.makedirs(out, exist_ok=True)
        rc = subprocess.run(cmd + ['--workers', '1', '--out', out, '--scenario', v['scenario']], env=run_env(r.get('variant'))).returncode
        print(open(out + '/violations.jsonl').read() if rc else 'not violated')
        shutil.rmtree(out, ignore_errors=True)
        return rc
    return subprocess.run(cmd + ['--scenario', v['scenario'], '--replay', v['choices']], env=run_env(r.get('variant'))).returncode


if __name__ == '__main__':
    try:
        sys.exit(main())
    except CheckError as e:
        print('ERROR of the check:', e)
        sys.exit(2)
    except Exception:
        import traceback
        traceback.print_exc()
        print('ERROR of the check')
        sys.exit(2)
