#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough] [--replay FILE]: builds the harness of property ID from /repo's
working tree and /verif/mc, explores, writes evidence/ID.json and prints the verdict."""
import array, glob, json, os, resource, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
MC = os.path.join(HERE, 'mc')
GOROOT = '/opt/veriftools/go1.27.3'

# per property: package of the harness, how /repo is instrumented, evidence level
CHECKS = json.load(open(os.path.join(HERE, 'checks.json')))


def goenv():
    e = dict(os.environ)
    e['PATH'] = GOROOT + '/bin:' + e.get('PATH', '/usr/bin:/bin')
    e.setdefault('HOME', '/root')
    e.update(GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off', GO111MODULE='on', GOFLAGS='-mod=readonly -buildvcs=false', CGO_ENABLED='0')
    return e


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    return p.returncode, p.stdout


def die(msg):
    print('ERROR: ' + msg)
    sys.exit(2)


def build(chk, tmp):
    """Returns the path of the test binary."""
    env = goenv()
    args = ['go', 'test', '-c', '-vet=off', '-o', tmp + '/h.test']
    if chk.get('instr'):
        instr = tmp + '/instr'
        rc, out = sh(['go', 'build', '-o', instr, './cmd/instr'], cwd=MC, env=env)
        if rc:
            die('cannot build the rewriter:\n' + out)
        rc, out = sh([instr, '-mode', chk['instr'], '-repo', REPO, '-out', tmp + '/ov'], cwd=MC, env=env)
        if rc:
            die('cannot instrument /repo:\n' + out)
        args += ['-overlay', tmp + '/ov/overlay.json']
    pool = ThreadPoolExecutor(1)
    race = pool.submit(buildrace, chk, tmp) if chk.get('race') else None
    rc, out = sh(args + ['./' + chk['pkg']], cwd=MC, env=env)
    if rc:
        die('cannot build the harness with /repo:\n' + out)
    if race and race.result():
        die('cannot build the harness with the race detector:\n' + race.result())
    for b in chk.get('bins', []):
        rc, out = sh(['go', 'build', '-o', tmp + '/bin/' + b.split('/')[-1], 'github.com/ElectroUnion/egts-gate/' + b], cwd=MC, env=env)
        if rc:
            die('cannot build ' + b + ':\n' + out)
    return tmp + '/h.test'


def buildrace(chk, tmp):
    """The same package under the race detector, with nothing replaced that synchronises."""
    env = goenv()
    env['CGO_ENABLED'] = '1'
    args = ['go', 'test', '-race', '-c', '-vet=off', '-o', tmp + '/bin/race.test']
    if chk.get('instr'):
        rc, out = sh([tmp + '/instr', '-mode', 'net', '-repo', REPO, '-out', tmp + '/ovr'], cwd=MC, env=env)
        if rc:
            return out
        args += ['-overlay', tmp + '/ovr/overlay.json']
    rc, out = sh(args + ['./' + chk['pkg']], cwd=MC, env=env)
    return out if rc else ''


def shardenv(chk, prop, tier, tmp, name, **kw):
    e = goenv()
    e.update(VERIF_TIER=tier, VMC_BIN=tmp + '/bin', VMC_REPO=REPO, VMC_VERIF=HERE, GOMAXPROCS=str(chk.get('procs', 2)),
             VMC_REALTIME='1' if chk.get('realtime') else '0', VMC_OUT='%s/%s.json' % (tmp, name), VMC_PROGRESS='%s/%s.idx' % (tmp, name), TMPDIR=tmp + '/t', GOTRACEBACK='all')
    e.update({k: str(v) for k, v in kw.items()})
    os.makedirs(tmp + '/t', exist_ok=True)
    return e


def limit():
    # a runaway loop of the code under test must end itself, not the sandbox
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))


class Proc:
    def __init__(self, binary, test, env, log):
        self.env, self.log = env, log
        for f in (env['VMC_OUT'], env['VMC_PROGRESS']):
            if os.path.exists(f):
                os.unlink(f)
        self.p = subprocess.Popen([binary, '-test.run', '^%s$' % test, '-test.timeout', '0'], stdin=subprocess.DEVNULL, stdout=open(log, 'w'), stderr=subprocess.STDOUT,
                                  env=env, cwd=env['TMPDIR'], start_new_session=True, preexec_fn=limit)

    def wait(self, limit=None):
        try:
            self.p.wait(limit)
        except subprocess.TimeoutExpired:
            self.kill()
            self.p.wait()

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass

    def result(self):
        try:
            return json.load(open(self.env['VMC_OUT']))
        except (OSError, ValueError):
            return None

    def at(self):
        try:
            return int.from_bytes(open(self.env['VMC_PROGRESS'], 'rb').read(8), 'little') - 1
        except OSError:
            return -1

    def tail(self, n=6000):
        s = open(self.log, errors='replace').read()
        for mark in ('VMC-HANG', 'panic:', 'fatal error:'):
            i = s.find(mark)
            if i >= 0:
                return s[i:i + n]
        return s[-n:]


def readset(path):
    a = array.array('Q')
    try:
        a.frombytes(open(path, 'rb').read())
    except OSError:
        pass
    return a


def main():
    args = sys.argv[1:]
    prop = args.pop(0)
    if prop == '--setup':
        return setup()
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    while args:
        a = args.pop(0)
        if a == '--tier':
            tier = args.pop(0)
        elif a == '--replay':
            replay = args.pop(0)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    chk = CHECKS[prop]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='vmc-%s-' % prop)
    procs = []
    try:
        os.makedirs(tmp + '/bin')
        binary = build(chk, tmp)
        test = chk.get('test', 'Test' + prop)
        if replay:
            r = json.load(open(replay))
            p = Proc(binary, test, shardenv(chk, prop, r['tier'], tmp, 'replay', VMC_ONLY=r['case']), tmp + '/replay.log')
            procs.append(p)
            p.wait(600)
            res = p.result()
            print(json.dumps(res, indent=1, ensure_ascii=False) if res else p.tail())
            sys.exit(1 if res is None or res['viols'] else 0)
        rc = explore(chk, prop, tier, seed, binary, test, tmp, procs, t0)
    finally:
        for p in procs:
            p.kill()
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def setup():
    """Builds every harness once, so that what they need is in the build cache."""
    tmp = tempfile.mkdtemp(prefix='vmc-setup-')
    try:
        os.makedirs(tmp + '/bin')
        for p in sorted({(c['pkg'], c.get('instr'), c.get('race')): k for k, c in CHECKS.items()}.values()):
            build(CHECKS[p], tmp)
            print('built the harness of', p)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def explore(chk, prop, tier, seed, binary, test, tmp, procs, t0):
    n = chk.get('shards', 8)
    deadline = chk.get('deadline', {}).get(tier, 200 if tier == 'quick' else 660)
    hard = time.time() + deadline + 150
    casemax = chk.get('case_max', 40)
    results, viols, crashed, sets = [], [], {}, []
    todo = [(s, 0) for s in range(n)]
    running = []
    gen = 0
    while todo or running:
        while todo:
            s, frm = todo.pop()
            gen += 1
            left = max(5, int(t0 + deadline - time.time()))
            p = Proc(binary, test, shardenv(chk, prop, tier, tmp, 's%d-%d' % (s, gen), VMC_SHARD=s, VMC_SHARDS=n, VMC_FROM=frm, VMC_DEADLINE=left,
                                            VMC_CASE_MAX=casemax), '%s/s%d-%d.log' % (tmp, s, gen))
            p.shard, p.frm = s, frm
            procs.append(p)
            running.append(p)
        time.sleep(0.02)
        for p in list(running):
            if p.p.poll() is None:
                if time.time() > hard:
                    p.kill()
                    die('shard %d did not end: %s' % (p.shard, p.tail()))
                continue
            running.remove(p)
            p.kill()
            res = p.result()
            if res is not None:
                results.append(res)
                sets.append(p.env['VMC_OUT'])
                viols += res['viols'] or []
                continue
            at = p.at()
            crashed.setdefault(at, []).append(p.tail())
            if at < 0 or len(crashed[at]) > 3:
                die('the harness ended before its first case:\n' + p.tail())
            # the process ended at this case: does it do so again?
            again = 0
            text = p.tail()
            for k in range(2):
                q = Proc(binary, test, shardenv(chk, prop, tier, tmp, 'r%d-%d' % (at, k), VMC_ONLY=at, VMC_CASE_MAX=casemax), '%s/r%d-%d.log' % (tmp, at, k))
                procs.append(q)
                q.wait(casemax + 30)
                r = q.result()
                if r is None:
                    again += 1
                    text = q.tail()
                    break
                elif r['viols']:
                    viols += r['viols']
            if again:
                hang = 'VMC-HANG' in text
                viols.append({'case': at, 'key': 'hang' if hang else 'crash', 'desc': 'case %d' % at,
                              'msg': ('the code under test hangs:\n' if hang else 'the process ends:\n') + text})
            if len(viols) > 40 or len(crashed) > 8 or sum(v['key'] == 'hang' for v in viols) > 1:
                results.append({'exhaustive': False, 'cases': 0, 'total': 0, 'evals': 0, 'transitions': 0, 'traces': 0, 'capped': False, 'counts': {}, 'samples': [], 'extra': {}})
                continue
            todo.append((p.shard, at + 1 if again else at))
    # confirm: every reported case is executed again on its own, real-time ones side by side
    confirmed, flaky, seen, again = [], [], {}, []
    realtime, tries = chk.get('realtime'), chk.get('confirm', 2)
    for v in sorted(viols, key=lambda v: v['case']):
        if v['key'] in ('crash', 'hang', 'data race'):
            confirmed.append(v)
        elif seen.get(v['key'], 0) < 2:
            seen[v['key']] = seen.get(v['key'], 0) + 1
            again.append(v)

    def once(v, k):
        q = Proc(binary, test, shardenv(chk, prop, tier, tmp, 'c%d-%d' % (v['case'], k), VMC_ONLY=v['case'], VMC_CASE_MAX=casemax), '%s/c%d-%d.log' % (tmp, v['case'], k))
        procs.append(q)
        q.wait(casemax + 60)
        r = q.result()
        return r is None or any(w['key'] == v['key'] for w in r['viols'] or [])

    with ThreadPoolExecutor(6 if realtime else 1) as pool:
        jobs = [[pool.submit(once, v, k) for k in range(tries)] for v in again] if realtime else []
        for i, v in enumerate(again):
            hits = n = 0
            for k in range(tries):
                n += 1
                hits += jobs[i][k].result() if realtime else once(v, k)
                if hits and not realtime:
                    break
            v['reproduced'] = '%d of %d' % (hits, n)
            (flaky if realtime and hits * 2 < tries else confirmed).append(v)
    known = [k for k in json.load(open(HERE + '/known_findings.json')) if k['property'] == prop and k['status'] == 'finding']
    ev = HERE + '/evidence'
    os.makedirs(ev + '/replay', exist_ok=True)
    for f in glob.glob('%s/replay/%s-*' % (ev, prop)):
        os.unlink(f)
    bad, found = [], {}
    for v in confirmed:
        k = next((k for k in known if k['key'] == v['key']), None)
        if k:
            found[k['key']] = k
        else:
            bad.append(v)
    union = lambda ext: len(set().union(*[readset(s + ext) for s in sets])) if sets else 0
    counts = {}
    for r in results:
        for k, c in (r['counts'] or {}).items():
            counts[k] = counts.get(k, 0) + c
    tot = lambda k: sum(r[k] for r in results)
    samples = [s for r in results for s in (r['samples'] or [])][:8]
    exhaustive = all(r['exhaustive'] for r in results) and not crashed
    if exhaustive and (len({r['total'] for r in results}) != 1 or tot('cases') != results[0]['total']):
        print('note: the shards disagree on the cases: %s of %s' % (tot('cases'), sorted({r['total'] for r in results})))
        exhaustive = False
    cov = {'samples': samples, 'exhaustive': exhaustive, 'rule': chk['rule'], 'cases_executed': tot('cases'), 'outcomes': counts}
    if chk['level'] == 'model_checking':
        cov.update(states=union('.states'), transitions=tot('transitions'), traces_validated_against_impl=tot('traces'), distinct_cases=union('.hashes'))
    else:
        cov.update(evaluations=tot('evals'), distinct_nontrivial=union('.hashes'))
    for r in results:
        cov.update(r['extra'] or {})
    if any(r['capped'] for r in results):
        cov['note'] = 'distinct counts are lower bounds (set capped)'
    if flaky:
        cov['unreproduced'] = flaky[:3]
    doc = {'property': prop, 'tier': tier, 'seed': seed, 'level': chk['level'], 'coverage': cov, 'assumptions': chk.get('assumptions', []),
           'wall_s': round(time.time() - t0, 1), 'violations': len(bad)}
    json.dump(doc, open('%s/%s.json' % (ev, prop), 'w'), indent=1, ensure_ascii=False)
    for k in known:
        if k['key'] in found:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        elif exhaustive:
            print('note: the known finding %r did not show' % k['key'])
    print('%s %s: %d cases, %d evaluations, exhaustive=%s, %.1fs' % (prop, tier, tot('cases'), tot('evals') or tot('traces'), exhaustive, time.time() - t0))
    for i, v in enumerate(bad[:10]):
        path = '%s/replay/%s-%d.json' % (ev, prop, i)
        json.dump(dict(v, property=prop, tier=tier, replay='python3 run.py %s --replay %s' % (prop, os.path.relpath(path, HERE))), open(path, 'w'), indent=1, ensure_ascii=False)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  [%s] %s\n  %s' % (v['key'], v['desc'][:600].replace('\n', '\n  '), v['msg'][:1500].replace('\n', '\n  ')))
    return 1 if bad else 0


if __name__ == '__main__':
    main()
