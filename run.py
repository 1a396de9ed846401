#!/usr/bin/env python3
"""Driver of the property checks.

  run.py C03 quick|thorough      run the check of one property
  run.py --replay FILE           run a replay file again
  run.py --setup                 warm the build cache

Builds the test binaries from /repo's working tree, runs them in shards with
seeds derived from VERIF_SEED, merges their statistics and writes
evidence/<id>.json. Exit 0: held; 1: VIOLATION; anything else: error.
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

TIMEOUT = {'quick': 780, 'thorough': 7200}
SHARDS = 8
# files that the in-package harnesses use besides their own
SHARED = {
    'inpkg': [],
    'inmath2': ['inpkg/vf_harness_test.go', 'inmath/vf_walk_test.go'],
    'intree': ['inpkg/vf_harness_test.go', 'inpkg/vf_gen_test.go'],
    'intree2': ['inpkg/vf_harness_test.go', 'inpkg/vf_gen_test.go', 'intree/vf_model_test.go'],
}


class CheckError(Exception):
    pass


def go_env():
    env = dict(os.environ)
    if os.path.exists('/opt/vp/env.sh'):
        out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], capture_output=True).stdout
        for kv in out.decode(errors='replace').split('\0'):
            k, s, v = kv.partition('=')
            if s and (k.startswith('GO') or k in ('PATH', 'CGO_ENABLED')):
                env[k] = v
    env.update(GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off', GOFLAGS='-mod=mod', GOSUMDB='off')
    env.pop('GOMAXPROCS', None)
    return env


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def build(mod, race, tmp, env):
    """Builds a test binary; returns (path, build log)."""
    out = os.path.join(tmp, mod + ('-race' if race else '') + '.test')
    cmd = ['go', 'test', '-c', '-vet=off', '-o', out]
    e = dict(env)
    if race:
        cmd.append('-race')
        e['CGO_ENABLED'] = '1'
    if mod == 'props':
        src = os.path.join(tmp, 'props-src')
        if not os.path.isdir(src):
            # go may want to rewrite go.mod/go.sum: let it do so in a copy
            shutil.copytree(os.path.join(HERE, 'props'), src, ignore=shutil.ignore_patterns('testdata'))
            gm = open(os.path.join(src, 'go.mod')).read()
            gm = re.sub(r'=> /repo\b', lambda m: '=> ' + REPO, gm)
            gm = re.sub(r'=> \.\./ref\b', lambda m: '=> ' + os.path.join(HERE, 'ref'), gm)
            open(os.path.join(src, 'go.mod'), 'w').write(gm)
        r = sh(cmd + ['.'], cwd=src, env=e)
    else:
        # in-package harness through an overlay
        files = sorted(f for f in os.listdir(os.path.join(HERE, mod)) if f.endswith('_test.go'))
        ov = {'Replace': {os.path.join(REPO, f): os.path.join(HERE, mod, f) for f in files}}
        for f in SHARED.get(mod, ['inpkg/vf_harness_test.go']):
            ov['Replace'][os.path.join(REPO, os.path.basename(f))] = os.path.join(HERE, f)
        # the package's own tests are not part of the harness binary
        for f in os.listdir(REPO):
            if f.endswith('_test.go'):
                ov['Replace'][os.path.join(REPO, f)] = ''
        ovf = os.path.join(tmp, mod + '-overlay.json')
        json.dump(ov, open(ovf, 'w'))
        gm = open(os.path.join(REPO, 'go.mod')).read()
        gm += '\nrequire pgregory.net/rapid v1.3.0\nrequire mlsref v0.0.0\nreplace mlsref => %s\n' % os.path.join(HERE, 'ref')
        # the reference needs a newer language version than the library
        gm = re.sub(r'(?m)^go .*$', 'go 1.27', gm)
        gm = re.sub(r'(?m)^toolchain .*$', '', gm)
        mf = os.path.join(tmp, mod + '-go.mod')
        open(mf, 'w').write(gm)
        sums = set()
        for p in (os.path.join(REPO, 'go.sum'), os.path.join(HERE, 'props', 'go.sum')):
            if os.path.exists(p):
                sums |= set(open(p).read().splitlines())
        open(os.path.join(tmp, mod + '-go.sum'), 'w').write('\n'.join(sorted(sums)) + '\n')
        r = sh(cmd + ['-overlay', ovf, '-modfile', mf, '.'], cwd=REPO, env=e)
    if r.returncode != 0 or not os.path.exists(out):
        return None, r.stdout
    return out, r.stdout


def shard_seed(*parts):
    h = hashlib.sha256('|'.join(map(str, parts)).encode()).digest()
    return (int.from_bytes(h[:8], 'big') >> 2) | 1


class Job:
    def __init__(self, part, binary, test, shard, seed, checks, tmp, env, race):
        self.part, self.test, self.shard, self.seed, self.checks = part, test, shard, seed, checks
        self.dir = os.path.join(tmp, 'run-%s-%d' % (part['name'], shard))
        os.makedirs(self.dir)
        self.stats_path = os.path.join(self.dir, 'stats.json')
        self.log_path = os.path.join(self.dir, 'log.txt')
        e = dict(env, PROPS_STATS=self.stats_path, PROPS_CHECKS=str(checks), PROPS_SHARD=str(shard), PROPS_SHARDS=str(SHARDS))
        e['GOMAXPROCS'] = str(part.get('maxprocs', 2))
        e['GOTRACEBACK'] = 'single'
        e.pop('PROPS_TIER', None)
        e['PROPS_TIER'] = os.environ.get('VERIF_TIER', 'quick')
        e['TMPDIR'] = self.dir
        e.pop('PROPS_RACE', None)
        if race:
            e['PROPS_RACE'] = '1'
            e['GORACE'] = 'halt_on_error=1'
        self.cmd = [binary, '-test.run', '^(' + test + ')$', '-test.timeout', '0', '-test.count', '1', '-rapid.seed', str(seed), '-rapid.shrinktime', '20s']
        self.env = e
        self.proc = None
        self.code = None

    def start(self):
        self.log = open(self.log_path, 'wb')
        self.proc = subprocess.Popen(self.cmd, cwd=self.dir, env=self.env, stdout=self.log, stderr=subprocess.STDOUT, start_new_session=True)

    def poll(self):
        self.code = self.proc.poll()
        if self.code is not None:
            self.log.close()
        return self.code

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.proc.wait()
        self.log.close()

    def output(self):
        return open(self.log_path, errors='replace').read()


FATAL = ('fatal error: stack overflow', 'goroutine stack exceeds', 'fatal error: all goroutines are asleep',
         'fatal error: concurrent map', 'deadlock: all goroutines in bubble are blocked')


def verdict(job):
    """None (passed), ('violation', why) or ('error', why)."""
    if job.code == 0:
        if not os.path.exists(job.stats_path):
            return 'error', 'no statistics written'
        return None
    out = job.output()
    if job.code == 3 and 'HANG ' in out:
        return 'violation', 'an operation does not return'
    if 'WARNING: DATA RACE' in out:
        return 'violation', 'data race'
    for f in FATAL:
        if f in out:
            return 'violation', f
    if 'HARNESS-ERROR' in out:
        return 'error', 'harness error'
    if job.code == 1 and '--- FAIL' in out:
        if re.search(r'\[rapid\] (failed|panic|flaky)', out) or 'PROPERTY-VIOLATED' in out:
            return 'violation', 'property violated'
        return 'error', 'test failed for another reason'
    if job.code == 2 and re.search(r'^panic: ', out, re.M) and 'test timed out' not in out:
        # a panic in a goroutine that the harness could not recover
        return 'violation', 'panic'
    return 'error', 'exit code %s' % job.code


def save_replay(pid, job, why):
    d = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%d.json' % (pid, job.part['name'], job.shard))
    fails = {}
    for root, _, files in os.walk(os.path.join(job.dir, 'testdata')):
        for f in files:
            if f.endswith('.fail'):
                p = os.path.join(root, f)
                fails[os.path.relpath(p, job.dir)] = open(p).read()
    out = job.output()
    if len(out) > 60000:
        out = out[:30000] + '\n...\n' + out[-30000:]
    json.dump({'property': pid, 'part': job.part['name'], 'why': why, 'test': job.test, 'seed': job.seed, 'checks': job.checks,
               'shard': job.shard, 'fail_files': fails, 'output': out,
               'how': 'python3 %s --replay %s' % (os.path.join(HERE, 'run.py'), path)}, open(path, 'w'), indent=1)
    return path


def run_jobs(jobs, deadline):
    """Runs jobs, SHARDS at a time; returns the first bad one or None."""
    todo, live, bad = list(jobs), [], None
    while todo or live:
        while todo and len(live) < SHARDS:
            j = todo.pop(0)
            j.start()
            live.append(j)
        time.sleep(0.05)
        for j in list(live):
            if j.poll() is None:
                continue
            live.remove(j)
            v = verdict(j)
            if v and (bad is None or (bad[1][0] == 'error' and v[0] == 'violation')):
                bad = (j, v)
        if bad and bad[1][0] == 'violation':
            break
        if time.time() > deadline:
            for j in live:
                j.kill()
            raise CheckError('time limit exceeded')
    for j in live:
        j.kill()
    return bad


def check(pid, tier):
    t0 = time.time()
    conf = CHECKS[pid]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    os.environ['VERIF_TIER'] = tier
    env = go_env()
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    notes = []
    try:
        bins, jobs = {}, []
        for part in conf['parts']:
            key = (part['mod'], bool(part.get('race')))
            if key not in bins:
                bins[key] = build(*key, tmp, env)
            binary, log = bins[key]
            if binary is None:
                if part.get('optional'):
                    notes.append('part %s not built (its internal names are gone): %s' % (part['name'], log.strip().splitlines()[-1:]))
                    continue
                print(log)
                raise CheckError('build of %s failed' % part['mod'])
            n = part[tier]
            shards = part.get('shards', SHARDS)
            for s in range(shards):
                jobs.append(Job(part, binary, part['test'], s, shard_seed(seed, pid, part['name'], s), n, tmp, env, key[1]))
        if not jobs:
            raise CheckError('nothing to run')
        bad = run_jobs(jobs, t0 + TIMEOUT[tier])
        if bad and bad[1][0] == 'error':
            print(bad[0].output()[-8000:])
            raise CheckError('%s: %s' % (bad[0].part['name'], bad[1][1]))

        ev = {'evaluations': 0}
        distinct, rules, classes, counters, samples, per = set(), [], {}, {}, [], {}
        for j in jobs:
            if not os.path.exists(j.stats_path):
                continue
            st = json.load(open(j.stats_path))
            ev['evaluations'] += st['evaluations']
            per[j.part['name']] = per.get(j.part['name'], 0) + st['evaluations']
            distinct |= set(st['nontrivial'] or [])
            for r in st['rules'] or []:
                if r not in rules:
                    rules.append(r)
            for k, v in (st['classes'] or {}).items():
                classes[k] = classes.get(k, 0) + v
            for k, v in (st['counters'] or {}).items():
                counters[k] = counters.get(k, 0) + v
            if j.shard in (0, 3):
                samples += st['samples'] or []
        ev['distinct_nontrivial'] = len(distinct)
        ev['rule'] = 'Non-trivial: ' + ' | '.join(rules)
        ev['samples'] = samples[:6] or ['(stopped at a violation)']
        ev['classes'] = dict(sorted(classes.items()))
        ev['counters'] = dict(sorted(counters.items()))
        ev['cases_per_part'] = per
        if notes:
            ev['notes'] = notes
        replay = None
        if bad:
            replay = save_replay(pid, *((bad[0], bad[1][1])))
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        rec = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': ev,
               'assumptions': conf.get('assumptions', []) + ['the reference implementation in /verif/ref follows RFC 9420', 'Go toolchain and standard library cryptography are correct'],
               'wall_s': round(time.time() - t0, 2), 'violations': 1 if bad else 0}
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            json.dump(rec, f, indent=1)
        if bad:
            out = bad[0].output()
            print(out[-6000:])
            print('VIOLATION property=%s replay=%s' % (pid, replay))
            return 1
        print('OK property=%s tier=%s cases=%d nontrivial=%d wall=%.1fs %s' % (pid, tier, ev['evaluations'], ev['distinct_nontrivial'], rec['wall_s'], '; '.join(notes)))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(path):
    r = json.load(open(path))
    part = next(p for p in CHECKS[r['property']]['parts'] if p['name'] == r['part'])
    env = go_env()
    tmp = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        binary, log = build(part['mod'], bool(part.get('race')), tmp, env)
        if binary is None:
            print(log)
            return 2
        j = Job(part, binary, r['test'], r['shard'], r['seed'], 0 if r['fail_files'] else r['checks'], tmp, env, bool(part.get('race')))
        for name, content in r['fail_files'].items():
            p = os.path.join(j.dir, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, 'w').write(content)
        if r['fail_files']:
            j.env['PROPS_CHECKS'] = '1'
        j.cmd.append('-test.v')
        j.start()
        j.proc.wait()
        j.poll()
        print(j.output())
        v = verdict(j)
        print('replay:', v)
        return 0 if v is None else 1 if v[0] == 'violation' else 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def setup():
    env = go_env()
    tmp = tempfile.mkdtemp(prefix='verif-setup-')
    try:
        for mod, race in sorted({(p['mod'], bool(p.get('race'))) for c in CHECKS.values() for p in c['parts']}):
            b, log = build(mod, race, tmp, env)
            print(mod, 'race' if race else '', 'ok' if b else log)
            if b is None and mod == 'props':
                return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return 0


def main():
    if sys.argv[1:2] == ['--setup']:
        return setup()
    if sys.argv[1:2] == ['--replay']:
        return replay(sys.argv[2])
    try:
        return check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    except CheckError as e:
        print('ERROR', e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
