"""Supervisor of one check: runs the worker(s), merges what they observed.

usage: run.py PROPERTY [--tier quick|thorough]

The worker runs the real code in a separate process (as an unprivileged
user when that is possible) whose HOME, PATH and working directory are
inside a scratch directory that is removed afterwards.  Exit codes: 0
held on everything observed, 1 violated, 2 inconclusive or harness error.
"""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('XV_REPO', '/repo')
NOBODY = 65534
sys.path.insert(0, HERE)


def usable_as_nobody():
    """True if an unprivileged user can read the code and the harness."""
    if os.geteuid() != 0:
        return False
    pid = os.fork()
    if pid == 0:
        ok = 1
        try:
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
            for p in (os.path.join(REPO, 'xylem', '__init__.py'),
                      os.path.join(HERE, 'run.py'), sys.executable):
                with open(p, 'rb') as f:
                    f.read(1)
            for p in (REPO, HERE):
                os.listdir(p)
            ok = 0
        except Exception:
            pass
        os._exit(ok)
    return os.waitpid(pid, 0)[1] == 0


def drop():
    os.setsid()
    os.setgroups([])
    os.setgid(NOBODY)
    os.setuid(NOBODY)


def known_findings(pid):
    res = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                kind, _, text = rest.partition(' ')
                res[kind.split('=', 1)[1]] = text
    return res


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    import registry
    spec = registry.CHECKS[pid]
    shards = spec.get('quick_shards', 4) if tier == 'quick' else \
        spec.get('shards', 6)
    limit = 600 if tier == 'quick' else 3000
    unpriv = usable_as_nobody()
    base = tempfile.mkdtemp(prefix='xv-%s-' % pid)
    procs = []
    try:
        os.chmod(base, 0o755)
        subprocess.call([sys.executable, os.path.join(HERE, 'build.py'), base])
        for s in range(shards):
            scratch = os.path.join(base, 's%d' % s)
            for d in ('', 'home', 'bin', 'work', 'tmp'):
                os.makedirs(os.path.join(scratch, d), exist_ok=True)
            if unpriv:
                for r, ds, fs in os.walk(scratch):
                    os.chown(r, NOBODY, NOBODY)
            env = {
                'HOME': os.path.join(scratch, 'home'),
                'PATH': os.path.join(scratch, 'bin'),
                'TMPDIR': os.path.join(scratch, 'tmp'),
                'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8',
                'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1',
                'PYTHONWARNINGS': 'ignore', 'PYTHONIOENCODING': 'utf-8',
                'XV_REPO': REPO, 'XV_SCRATCH': scratch,
                'XV_KNOWN': ','.join(known_findings(pid)),
                'XV_SHIM': os.path.join(base, 'faultshim.so'),
            }
            if spec.get('shim'):
                env['LD_PRELOAD'] = env['XV_SHIM']
            cmd = [sys.executable, '-B', '-W', 'ignore',
                   os.path.join(HERE, 'worker.py'),
                   pid, tier, str(seed), str(s), str(shards)]
            out = open(os.path.join(base, 'out%d' % s), 'wb')
            procs.append((scratch, subprocess.Popen(
                cmd, env=env, cwd=os.path.join(scratch, 'work'),
                stdin=subprocess.DEVNULL, stdout=out, stderr=out,
                preexec_fn=drop if unpriv else os.setsid)))
            out.close()
        results, problems = [], []
        for i, (scratch, p) in enumerate(procs):
            try:
                rc = p.wait(max(1, limit - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                rc = None
                problems.append('shard %d: watchdog after %d s' % (i, limit))
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            rp = os.path.join(scratch, 'result.json')
            if os.path.exists(rp):
                results.append(json.load(open(rp, encoding='utf-8')))
                problems.extend(results[-1]['problems'])
            elif rc is not None:
                tail = open(os.path.join(base, 'out%d' % i), 'rb').read()
                problems.append('shard %d: no result (exit %s)\n%s' % (
                    i, rc, tail[-3000:].decode('utf-8', 'replace')))
    finally:
        for _, p in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(base, ignore_errors=True)

    counters, samples, violations, distinct = {}, [], [], set()
    for r in results:
        for k, v in r['counters'].items():
            counters[k] = counters.get(k, 0) + v
        samples.extend(r['samples'])
        violations.extend(r['violations'])
        distinct.update(r['distinct'])
    # minimum observations: a monitor that saw nothing decides nothing
    known = known_findings(pid)
    if not any(v['kind'] not in known for v in violations):
        for k, minimum in sorted(spec.get('require', {}).items()):
            if counters.get(k, 0) < minimum:
                problems.append('only %d of at least %d observations of %r'
                                % (counters.get(k, 0), minimum, k))
    hits = {v['kind'] for v in violations if v['kind'] in known}
    fresh = [v for v in violations if v['kind'] not in known]
    evaluations = counters.pop('evaluations', 0)
    coverage = dict(evaluations=evaluations,
                    distinct_nontrivial=len(distinct),
                    rule=spec['rule'],
                    samples=samples[:6],
                    observed=counters, shards=shards)
    if spec.get('exhaustive'):
        coverage['exhaustive'] = bool(counters.get('exhausted'))
    evid = dict(property=pid, tier=tier, seed=seed, level=spec['level'],
                coverage=coverage, assumptions=spec.get('assumptions', []),
                wall_s=round(time.time() - t0, 2), violations=len(fresh))
    ed = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(ed, 'replay'), exist_ok=True)
    with open(os.path.join(ed, pid + '.json'), 'w', encoding='utf-8') as f:
        json.dump(evid, f, indent=1, ensure_ascii=False, default=repr)
        f.write('\n')
    print('%s %s seed=%d: %d evaluations, %d distinct non-trivial, %.1f s'
          % (pid, tier, seed, evaluations, len(distinct), time.time() - t0))
    for k in sorted(counters):
        print('  observed %-40s %d' % (k, counters[k]))
    for k in sorted(hits):
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, known[k]))
    if fresh:
        rp = os.path.join(ed, 'replay', '%s.json' % pid)
        with open(rp, 'w', encoding='utf-8') as f:
            json.dump(dict(property=pid, tier=tier, seed=seed,
                           how='VERIF_SEED=%d harness/run.py %s --tier %s'
                           % (seed, pid, tier), violations=fresh[:25]),
                      f, indent=1, ensure_ascii=False, default=repr)
        kinds = {}
        for v in fresh:
            kinds.setdefault(v['kind'], []).append(v)
        for k, vs in sorted(kinds.items()):
            print('violated [%s] x%d: %s' % (k, len(vs), vs[0]['msg'][:1500]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if problems:
        for p in problems:
            print('INCONCLUSIVE %s: %s' % (pid, p))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
