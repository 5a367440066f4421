#!/usr/bin/env python3
"""Runs the check of one property:  run.py C01 [--tier quick|thorough]
Replays a failure:                  run.py replay FILE
Builds everything:                  run.py build
"""
import hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(HERE, 'lib'))
import checks  # the table of properties

NPROC = os.cpu_count() or 4
BASE_FLAGS = ['-w', '-O1', '-g1', '-DNDEBUG', '-fno-omit-frame-pointer', '-DBOOST_ASIO_NO_DEPRECATED', '-DBOOST_CHRONO_HEADER_ONLY']
ASAN = ['-fsanitize=address', '-fsanitize=return,integer-divide-by-zero', '-fno-sanitize-recover=all']


def log(*a):
    print(*a, flush=True)


def tree_files(root, exts):
    out = []
    for d, ds, fs in os.walk(root):
        ds.sort()
        ds[:] = [x for x in ds if x not in ('.git', '_build', 'release', 'debug')]
        for f in sorted(fs):
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return out


_digest = {}


def digest(paths):
    k = tuple(paths)
    if k not in _digest:
        h = hashlib.sha256()
        for p in paths:
            h.update(p.encode() + b'\0')
            with open(p, 'rb') as f:
                h.update(hashlib.sha256(f.read()).digest())
        _digest[k] = h.hexdigest()
    return _digest[k]


def build_cmd(b, out):
    cmd = [b.get('cxx', 'g++'), '-std=' + b.get('std', 'c++17')] + BASE_FLAGS
    if b.get('asan', True):
        cmd += ASAN
    if not b.get('sim', False):
        pass
    cmd += ['-I' + REPO, '-I' + os.path.join(HERE, 'harness')] + ['-D' + d for d in b.get('defs', [])] + b.get('flags', [])
    cmd += [os.path.join(HERE, 'harness', b['src']), '-o', out] + b.get('libs', []) + ['-lboost_system', '-lboost_thread', '-pthread', '-ldl']
    return cmd


def build_one(b):
    """-> (path of the program, None) or (None, error text); cached by content of everything that goes in"""
    src = tree_files(os.path.join(REPO, 'include'), ('.h', '.hpp'))
    extra = [os.path.join(REPO, x) for x in b.get('repo_files', [])]
    for x in list(extra):
        if os.path.isdir(x):
            extra.remove(x)
            extra += tree_files(x, ('.h', '.cpp'))
    src += extra
    src += [os.path.join(HERE, 'harness', f) for f in sorted(os.listdir(os.path.join(HERE, 'harness')))]
    key = hashlib.sha256((digest(src) + ' '.join(build_cmd(b, 'X'))).encode()).hexdigest()[:24]
    d = os.path.join(HERE, 'build')
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, b['name'] + '-' + key)
    if os.path.exists(out):
        return out, None
    for f in os.listdir(d):  # forget what was built from an older tree
        if f.startswith(b['name'] + '-') and not f.startswith(b['name'] + '-' + key):
            try:
                os.unlink(os.path.join(d, f))
            except OSError:
                pass
    tmp = '%s.%d.tmp' % (out, os.getpid())
    p = subprocess.run(build_cmd(b, tmp), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode:
        lines = [l for l in p.stdout.splitlines() if 'error' in l][:8] or p.stdout.splitlines()[-8:]
        return None, '\n'.join(lines)
    os.rename(tmp, out)
    return out, None


def child_env(extra=None):
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=1:allocator_may_return_null=0:detect_stack_use_after_return=0:handle_abort=1:allocation_size_max_mb=6000'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1'
    e.pop('MALLOC_PERTURB_', None)
    e.update(extra or {})
    return e


def load_known():
    try:
        with open(os.path.join(HERE, 'known_findings.json')) as f:
            return json.load(f)
    except OSError:
        return []


def run_check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED') or '1')
    c = checks.CHECKS[pid]
    known = [k for k in load_known() if k.get('property') == pid and k.get('status') == 'known']
    scratch = tempfile.mkdtemp(prefix='vp-%s-' % pid)
    try:
        return run_check_(pid, tier, seed, c, known, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run_check_(pid, tier, seed, c, known, scratch, t0):
    jobs = [j for j in c['jobs'] if tier == 'thorough' or not j.get('thorough_only')]
    names, todo = [], []
    for j in jobs:
        if j['build'] not in names:
            names.append(j['build'])
            todo.append(checks.BUILDS[j['build']])
    with ThreadPoolExecutor(NPROC) as ex:
        res = dict(zip(names, ex.map(build_one, todo)))
    for n in names:
        if res[n][0] is None:
            log('ERROR: %s does not build against %s:\n%s' % (n, REPO, res[n][1]))
            return 2
    t_build = time.time() - t0
    budget = float(os.environ.get('VERIF_BUDGET') or c.get(tier, 20 if tier == 'quick' else 300))
    procs, results = [], []
    for ji, j in enumerate(jobs):
        for w in range(j.get('workers', 1)):
            d = os.path.join(scratch, 'j%d-%d' % (ji, w))
            os.mkdir(d)
            out = os.path.join(d, 'result.json')
            cmd = [res[j['build']][0], 'run', '--seed', str(seed), '--worker', str(ji * 100 + w), '--budget', str(budget), '--out', out, '--dir', d,
                   '--shrink', '40' if tier == 'quick' else '120']
            if j.get('tests'):
                cmd += ['--tests', ','.join(j['tests'])]
            if j.get('max'):
                cmd += ['--max', str(j['max'] if tier == 'quick' else j['max'] * 40)]
            if known:
                cmd += ['--known', ','.join(k['key'] for k in known if 'key' in k)]
            lf = open(os.path.join(d, 'log'), 'w')
            p = subprocess.Popen(cmd, stdout=lf, stderr=lf, env=child_env(j.get('env')), cwd=d, start_new_session=True)
            procs.append((p, j, out, d))
    hard = time.time() + budget + (260 if tier == 'quick' else 900)
    failed = False
    while any(p.poll() is None for p, _, _, _ in procs):
        for p, j, out, d in procs:
            if p.poll() is not None and os.path.exists(out) and not failed:
                try:
                    failed = 'failure' in json.load(open(out))
                except ValueError:
                    pass
        if failed or time.time() > hard:
            if failed:
                time.sleep(0.3)
            for p, _, _, _ in procs:
                if p.poll() is None:
                    kill_tree(p)
            break
        time.sleep(0.1)
    for p, _, _, _ in procs:
        p.wait()
    for p, j, out, d in procs:
        subprocess.run(['pkill', '-KILL', '-s', str(p.pid)], stderr=subprocess.DEVNULL)
        r = None
        if os.path.exists(out):
            try:
                r = json.load(open(out))
            except ValueError:
                pass
        results.append((p, j, d, r))

    # merge
    tot = {'evaluations': 0, 'nontrivial': 0, 'distinct_nontrivial': 0, 'discarded': 0, 'unconfirmed': 0}
    tests, classes, samples, violations, ended, known_hits = {}, {}, [], [], 0, 0
    known_seen = set()
    for p, j, d, r in results:
        if r is None:
            ended += 1
            continue
        for k in tot:
            tot[k] += r.get(k, 0)
        for t, (n, nt) in r['tests'].items():
            if n:
                a = tests.setdefault(t, [0, 0])
                a[0] += n
                a[1] += nt
        for k, n in r['classes'].items():
            classes[k] = classes.get(k, 0) + n
        samples += [('%s: ' % j['build']) + s for s in r['samples'][:2]]
        known_hits += r.get('known_hits', 0)
        known_seen |= set(x for x in r.get('known_seen', '').split(',') if x)
        if 'failure' in r:
            violations.append((j, d, r['failure']))
    if ended and not violations and ended == len(results):
        log('ERROR: no worker finished')
        return 2
    if not violations and tot['evaluations'] == 0:
        log('ERROR: nothing was evaluated')
        return 2
    rc = 0
    for k in known:
        if k.get('key') in known_seen or k.get('always'):
            log('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    paths = []
    if violations:
        rdir = os.path.join(HERE, 'replays')
        os.makedirs(rdir, exist_ok=True)
        j, d, f = violations[0]
        try:
            body = open(f['file']).read()
        except OSError:
            body = '# %s\ntest %s\nchoices\n' % (f['key'], f['test'])
        name = '%s-%s.txt' % (pid, hashlib.sha256(body.encode()).hexdigest()[:12])
        path = os.path.join(rdir, name)
        with open(path, 'w') as o:
            o.write('# property %s build %s\n#! %s\n' % (pid, j['build'], json.dumps({'property': pid, 'build': j['build'], 'env': j.get('env') or {}})))
            o.write('# reproduced in %d of 3 runs of its own; shrunk from %d to %d choices in %d steps\n' % (f['confirmed'], f['original_len'], f['shrunk_len'], f['shrink_steps']))
            for l in f.get('trace', '').splitlines()[:400]:
                o.write('#   ' + l + '\n')
            o.write(body)
        log('%s: %s' % (f['test'], f['key']))
        log(f['msg'][:3000])
        log('case:')
        log('\n'.join('  ' + l for l in f.get('trace', '').splitlines()[:80]))
        log('VIOLATION property=%s replay=%s' % (pid, path))
        paths.append(path)
        rc = 1
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': tot['evaluations'], 'distinct_nontrivial': tot['distinct_nontrivial'], 'rule': c['rule'],
                       'samples': samples[:10], 'nontrivial': tot['nontrivial'], 'discarded': tot['discarded'],
                       'tests': {t: {'cases': n, 'nontrivial': nt} for t, (n, nt) in sorted(tests.items())},
                       'classes': dict(sorted(classes.items())), 'unconfirmed_slow_cases': tot['unconfirmed'], 'known_finding_hits': known_hits,
                       'programs': names, 'workers': len(procs), 'workers_without_result': ended, 'search_budget_s': budget, 'build_s': round(t_build, 1)},
          'assumptions': c.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(paths)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', '.%s.%d' % (pid, os.getpid()))
    with open(tmp, 'w') as o:
        json.dump(ev, o, indent=1)
        o.write('\n')
    os.rename(tmp, os.path.join(HERE, 'evidence', pid + '.json'))
    log('%s %s seed %d: %d cases, %d distinct non-trivial, build %.0f s, total %.0f s%s' %
        (pid, tier, seed, tot['evaluations'], tot['distinct_nontrivial'], t_build, time.time() - t0, '' if rc == 0 else ', VIOLATED'))
    return rc


def kill_tree(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    subprocess.run(['pkill', '-KILL', '-s', str(p.pid)], stderr=subprocess.DEVNULL)
    p.kill()


def replay(path):
    meta = None
    for l in open(path):
        if l.startswith('#! '):
            meta = json.loads(l[3:])
            break
    if not meta:
        log('no build line in ' + path)
        return 2
    prog, err = build_one(checks.BUILDS[meta['build']])
    if not prog:
        log(err)
        return 2
    d = tempfile.mkdtemp(prefix='vp-replay-')
    try:
        bad = 0
        for i in range(3):
            p = subprocess.run([prog, 'replay', os.path.abspath(path), '--dir', d], env=child_env(meta.get('env')), cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            if i == 0 or p.returncode == 1 and not bad:
                log(p.stdout)
            bad += p.returncode == 1
        log('failed in %d of 3 runs' % bad)
        if bad:
            log('VIOLATION property=%s replay=%s' % (meta['property'], path))
        return 1 if bad else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == 'replay':
        return replay(sys.argv[2])
    if sys.argv[1] == 'tools':  # what the checks need is there
        for t in ('g++', 'pkill'):
            if not shutil.which(t):
                log('missing: ' + t)
                return 2
        return 0
    if sys.argv[1] == 'build':
        with ThreadPoolExecutor(NPROC) as ex:
            bad = [(b['name'], e) for b, (o, e) in zip(checks.BUILDS.values(), ex.map(build_one, checks.BUILDS.values())) if o is None]
        for n, e in bad:
            log('%s: %s' % (n, e))
        return 2 if bad else 0
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    return run_check(sys.argv[1], 'thorough' if tier == 'thorough' else 'quick')


if __name__ == '__main__':
    sys.exit(main())
