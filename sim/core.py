"""Runner: plans -> forked simulated processes -> violations -> minimised replay files -> evidence.

A property module (sim.props.cXX) provides
    ID, TECHNIQUE, RULE, ASSUMPTIONS, REAL, STUB, N = {'quick': n, 'thorough': n}
    gen(rng, i, tier) -> plan (JSON-able dict)
    run(plan, obs)     executes one plan; raises Violation; obs collects statistics
    shrink(plan) (optional) -> iterator of smaller plans to try

A plan is executed in a process forked from a parent which has imported marxs, so that every execution
starts from the same memory image.  run(plan) is a pure function of the plan and the code under test.
"""
import os
import re
import sys
import json
import time
import random
import hashlib
import importlib
import signal
import traceback
import select
import copy
import fnmatch
import struct

_time = time.time          # keep the real clock for the runner itself
_mono = time.monotonic

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MARXS_REPO', '/repo')
MARXS = os.path.realpath(os.path.join(REPO, 'marxs')) + os.sep


class Violation(Exception):
    """A property is broken.  kind: stable class of the violation (used by the minimiser);
    key: identifies the specific input / call site (used for known findings)."""

    def __init__(self, kind, msg='', key=None):
        super().__init__(f'{kind}: {msg}')
        self.kind = kind
        self.msg = msg
        self.key = key or kind


class HarnessError(Exception):
    """The harness (not the code under test) is at fault or cannot decide."""


class Obs:
    """Statistics and event log of one run."""

    def __init__(self):
        self.counts = {}
        self.states = set()
        self.faults = {}
        self.simtime = 0.0
        self.log = []
        self.nontrivial = False
        self.sample = None

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def fault(self, name, n=1):
        self.faults[name] = self.faults.get(name, 0) + n

    def state(self, *parts):
        self.states.add(hashlib.sha1(repr(parts).encode()).hexdigest()[:12])

    def event(self, *parts):
        self.log.append(parts)

    def digest(self):
        # the names of scratch directories contain the process id
        text = re.sub(r'marxs-sim-\d+', 'marxs-sim', repr(self.log))
        return hashlib.sha1(text.encode()).hexdigest()


# ---------------------------------------------------------------- running one plan

def classify(exc):
    """Map an exception that escaped run() to a result."""
    from sim import world
    if isinstance(exc, Violation):
        return {'status': 'violation', 'kind': exc.kind, 'key': exc.key, 'msg': exc.msg[:2000]}
    if isinstance(exc, (HarnessError, KeyboardInterrupt, SystemExit)):
        return {'status': 'harness', 'msg': ''.join(traceback.format_exception(exc))[-4000:]}
    if isinstance(exc, world.StepLimit):
        return {'status': 'violation', 'kind': 'no-progress', 'key': 'no-progress', 'msg': str(exc)}
    tb = traceback.extract_tb(exc.__traceback__)
    inmarxs = [f for f in tb if os.path.realpath(f.filename).startswith(MARXS)]
    text = ''.join(traceback.format_exception(exc))[-3000:]
    if inmarxs and not isinstance(exc, MemoryError):
        return {'status': 'violation', 'kind': 'exception:' + type(exc).__name__,
                'key': 'exception:%s:%s' % (type(exc).__name__, os.path.basename(inmarxs[-1].filename)),
                'msg': text}
    return {'status': 'harness', 'msg': text}


def execute(mod, plan):
    """Run a plan in this process (already a disposable child)."""
    from sim import world
    obs = Obs()
    res = {'status': 'ok'}
    try:
        with world.World(plan.get('seed', 0)):
            mod.run(plan, obs)
    except BaseException as e:  # noqa
        res = classify(e)
    res.update(counts=obs.counts, faults=obs.faults, states=sorted(obs.states), simtime=obs.simtime,
               digest=obs.digest(), nontrivial=bool(obs.nontrivial), sample=obs.sample)
    return res


def _write_all(fd, data):
    while data:
        n = os.write(fd, data)
        data = data[n:]


def forked(func, timeout):
    """Run func() in a forked child, return its JSON-able result or a harness error."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            out = func()
            _write_all(w, json.dumps(out).encode())
        except BaseException:  # noqa
            try:
                _write_all(w, json.dumps({'status': 'harness', 'msg': traceback.format_exc()[-4000:]}).encode())
            except BaseException:  # noqa
                code = 1
        finally:
            os._exit(code)
    os.close(w)
    buf = b''
    end = _mono() + timeout
    timed_out = False
    while True:
        left = end - _mono()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], min(left, 5))
        if ready:
            d = os.read(r, 1 << 20)
            if not d:
                break
            buf += d
    os.close(r)
    if timed_out:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    _, st = os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    if timed_out:
        return {'status': 'harness', 'msg': f'timeout after {timeout} s'}
    try:
        return json.loads(buf.decode())
    except Exception:  # noqa
        return {'status': 'harness', 'msg': f'child died with status {st} and no result'}


def run_plan(mod, plan, timeout=None):
    timeout = timeout or getattr(mod, 'TIMEOUT', 120)
    return forked(lambda: execute(mod, plan), timeout)


def make_plan(mod, seed, i, tier):
    rng = random.Random(f'{mod.ID}/{seed}/{i}')
    plan = mod.gen(rng, i, tier)
    plan.setdefault('seed', rng.randrange(2**31))
    plan['index'] = i
    # plans must survive JSON unchanged: a replay file is the plan
    return json.loads(json.dumps(plan))


# ---------------------------------------------------------------- pool

def pool(mod, seed, tier, indices, nworkers, budget):
    """Run the plans with given indices; yields (index, result).  Each worker is a fork of this process
    and forks again for each plan."""
    nworkers = max(1, min(nworkers, len(indices)))
    t0 = _mono()
    workers = []
    nr, nw = os.pipe()       # queue of indices: 4 byte records
    payload = b''.join(struct.pack('I', i) for i in indices)
    feeder = os.fork()
    if feeder == 0:
        try:
            os.close(nr)
            _write_all(nw, payload)
        except OSError:
            pass
        os._exit(0)
    os.close(nw)
    for k in range(nworkers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for (rr, pp) in workers:
                    os.close(rr)
                while True:
                    b = os.read(nr, 4)
                    if len(b) < 4:
                        break
                    i = struct.unpack('I', b)[0]
                    if _mono() - t0 > budget:
                        out = {'status': 'skipped', 'index': i}
                    else:
                        t1 = _mono()
                        out = run_plan(mod, make_plan(mod, seed, i, tier))
                        out['index'] = i
                        out['dt'] = _mono() - t1
                    data = json.dumps(out).encode()
                    _write_all(w, struct.pack('I', len(data)) + data)
            except BaseException:  # noqa
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(w)
        workers.append((r, pid))
    os.close(nr)
    bufs = {r: b'' for r, _ in workers}
    while bufs:
        ready, _, _ = select.select(list(bufs), [], [], 10)
        for r in ready:
            d = os.read(r, 1 << 20)
            if not d:
                del bufs[r]
                os.close(r)
                continue
            b = bufs[r] + d
            while len(b) >= 4:
                n = struct.unpack('I', b[:4])[0]
                if len(b) < 4 + n:
                    break
                out = json.loads(b[4:4 + n].decode())
                b = b[4 + n:]
                yield out['index'], out
            bufs[r] = b
    for _, pid in workers:
        os.waitpid(pid, 0)
    os.waitpid(feeder, 0)


# ---------------------------------------------------------------- minimiser

def generic_shrink(plan):
    """Candidate smaller plans: drop chunks of lists, drop optional dict entries marked by name,
    shrink integers named n*, for every list/int found under the 'shrinkable' keys."""
    paths = []

    def walk(x, path):
        if isinstance(x, dict):
            for k, v in x.items():
                if k in ('index', 'seed', 'tier', 'fixed'):
                    continue
                walk(v, path + [k])
        elif isinstance(x, list):
            if path and (str(path[-1]).startswith('l_')):
                paths.append(('list', path, len(x)))
            for j, v in enumerate(x):
                walk(v, path + [j])
        elif isinstance(x, int) and not isinstance(x, bool) and path and isinstance(path[-1], str) \
                and path[-1].startswith('n_'):
            paths.append(('int', path, x))

    walk(plan, [])

    def get(p, path):
        for k in path:
            p = p[k]
        return p

    paths.sort(key=lambda t: (len(t[1]), -t[2] if t[0] == 'list' else 0))
    for kind, path, n in paths:
        if kind == 'list' and n:
            sizes = []
            s = n
            while s >= 1:
                sizes.append(s)
                s //= 2
            for s in sizes:
                for a in range(0, n, s):
                    q = copy.deepcopy(plan)
                    lst = get(q, path)
                    del lst[a:a + s]
                    yield q
        elif kind == 'int':
            for v in (0, 1, 2, n // 2, n - 1):
                if 0 <= v < n:
                    q = copy.deepcopy(plan)
                    get(q, path[:-1])[path[-1]] = v
                    yield q


def minimise(mod, plan, res, budget=60, maxtries=250):
    t0 = _mono()
    tries = 0
    cur, curres = plan, res
    progress = True
    while progress and _mono() - t0 < budget and tries < maxtries:
        progress = False
        shr = getattr(mod, 'shrink', generic_shrink)
        for cand in shr(cur):
            if _mono() - t0 > budget or tries >= maxtries:
                break
            tries += 1
            try:
                r = run_plan(mod, cand)
            except Exception:  # noqa
                continue
            if r['status'] == 'violation' and r['kind'] == res['kind'] and r['key'] == res['key']:
                cur, curres = cand, r
                progress = True
                break
    return cur, curres, tries


# ---------------------------------------------------------------- known findings

def known_findings(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    with open(path) as f:
        data = json.load(f)
    return [k for k in data['findings'] if k['property'] == pid and k.get('status') == 'known']


def match_known(known, res, plan):
    for k in known:
        if k['kind'] == res['kind'] and fnmatch.fnmatchcase(res['key'], k['key']):
            return k
    return None


# ---------------------------------------------------------------- main

def load(pid):
    from sim import world
    world.install()
    return importlib.import_module('sim.props.' + pid.lower())


def fresh_replay(pid, path, timeout=300, hashseed='0'):
    """Replay a file in a new interpreter; returns the result dict."""
    import subprocess
    env = dict(os.environ, SIM_HASHSEED=hashseed)
    env.pop('PYTHONHASHSEED', None)
    p = subprocess.run(['/bin/bash', os.path.join(VERIF, 'run.sh'), pid, '--replay', path, '--json'],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
    for line in p.stdout.decode().splitlines():
        if line.startswith('RESULT '):
            return json.loads(line[7:])
    return {'status': 'harness', 'msg': p.stderr.decode()[-2000:]}


def main(argv):
    pid = argv[0].upper()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    args = argv[1:]
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    mod = load(pid)
    if '--eval' in args:
        from sim import world
        with open(args[args.index('--eval') + 1]) as f:
            payload = json.load(f)
        with world.World(0):
            val = mod.evaluate(payload)
        print('EVAL ' + val)
        return 0
    if '--replay' in args:
        path = args[args.index('--replay') + 1]
        with open(path) as f:
            rep = json.load(f)
        res = run_plan(mod, rep['plan'])
        if '--json' in args:
            print('RESULT ' + json.dumps(res))
            return 0
        print(json.dumps({k: res.get(k) for k in ('status', 'kind', 'key', 'msg')}, indent=1))
        if res['status'] == 'violation':
            print(f'VIOLATION property={pid} replay={path}')
            return 1
        return 0 if res['status'] == 'ok' else 3
    if '--plan' in args:
        i = int(args[args.index('--plan') + 1])
        plan = make_plan(mod, seed, i, tier)
        print(json.dumps(plan, indent=1))
        res = run_plan(mod, plan)
        print(json.dumps(res, indent=1)[:6000].replace('\\n', '\n'))
        return 0
    if '--selftest' in args:
        return selftest(mod, seed, tier, args)
    return check(mod, pid, seed, tier, args)


def selftest(mod, seed, tier, args):
    """Determinism: same plans twice, at different worker counts and another hash seed; compare digests."""
    import subprocess
    n = int(args[args.index('--selftest') + 1]) if len(args) > args.index('--selftest') + 1 else 40
    idx = list(range(n))
    if '--digests' in args:
        out = {i: (r['status'], r.get('digest')) for i, r in
               pool(mod, seed, tier, idx, int(os.environ.get('SIM_WORKERS', '7')), 1e9)}
        print('DIGESTS ' + json.dumps(sorted(out.items())))
        return 0
    results = []
    for hs, wk in (('0', '7'), ('0', '3'), ('12345', '7')):
        env = dict(os.environ, SIM_HASHSEED=hs, SIM_WORKERS=wk)
        p = subprocess.run(['/bin/bash', os.path.join(VERIF, 'run.sh'), mod.ID, '--tier', tier, '--selftest',
                            str(n), '--digests'], stdout=subprocess.PIPE, env=env)
        line = [ln for ln in p.stdout.decode().splitlines() if ln.startswith('DIGESTS ')]
        results.append(json.loads(line[0][8:]))
    bad = 0
    for a, b, c in zip(*results):
        if not (a == b == c):
            bad += 1
            print('DIFF', a, b, c)
    print(f'{mod.ID} selftest: {n} plans, {bad} differ')
    return 1 if bad else 0


def check(mod, pid, seed, tier, args):
    t0 = _mono()
    n = mod.N[tier]
    if 'SIM_N' in os.environ:
        n = int(os.environ['SIM_N'])
    if '--n' in args:
        n = int(args[args.index('--n') + 1])
    budget = 600 if tier == 'quick' else 6 * 3600
    if '--budget' in args:
        budget = float(args[args.index('--budget') + 1])
    nworkers = int(os.environ.get('SIM_WORKERS', '7'))
    known = known_findings(pid)
    print(f'{pid}: VERIF_SEED={seed} tier={tier} plans={n} workers={nworkers}', flush=True)
    counts, faults, states = {}, {}, set()
    simtime = 0.0
    nrun = nontriv = skipped = 0
    digests = set()
    samples = []
    viols, harness, knownhits = {}, [], {}
    first_stop = None
    for i, r in pool(mod, seed, tier, list(range(n)), nworkers, budget):
        st = r['status']
        if st == 'skipped':
            skipped += 1
            continue
        nrun += 1
        for k, v in r.get('counts', {}).items():
            counts[k] = counts.get(k, 0) + v
        for k, v in r.get('faults', {}).items():
            faults[k] = faults.get(k, 0) + v
        states.update(r.get('states', []))
        simtime += r.get('simtime', 0.0)
        if r.get('nontrivial'):
            nontriv += r['digest'] not in digests
        if r.get('digest'):
            digests.add(r['digest'])
        if r.get('nontrivial') and len(samples) < 2:
            samples.append({'index': i, 'plan': make_plan(mod, seed, i, tier), 'outcome': r.get('sample') or r['status'],
                            'probes': r.get('counts'), 'faults': r.get('faults')})
        if st == 'violation':
            k = match_known(known, r, None)
            if k is not None:
                knownhits[k['id']] = k
            else:
                viols[i] = r
        elif st == 'harness':
            harness.append((i, r['msg']))
    wall = _mono() - t0
    rc = 0
    out_lines = []
    for k in sorted(knownhits.values(), key=lambda x: x['id']):
        out_lines.append(f"KNOWN-FINDING: property={pid} {k['what']}")
    for k in known:
        if k['id'] not in knownhits:
            out_lines.append(f"KNOWN-FINDING: property={pid} {k['what']} (listed; not met by this run)")
    nviol = len(viols)
    minitries = 0
    if viols:
        rep_ok = False
        for i in sorted(viols)[:4]:
            plan = make_plan(mod, seed, i, tier)
            r = viols[i]
            small, sres, tries = minimise(mod, plan, r, budget=60 if tier == 'quick' else 300)
            minitries += tries
            rdir = os.path.join(VERIF, 'evidence', 'replays')
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f'{pid}-seed{seed}-{i}.json')
            for cand, cres in ((small, sres), (plan, r)):
                with open(path, 'w') as f:
                    json.dump({'property': pid, 'seed': seed, 'index': i, 'kind': cres['kind'], 'key': cres['key'],
                               'msg': cres['msg'], 'plan': cand}, f, indent=1)
                again = fresh_replay(pid, path)
                if again['status'] == 'violation' and again['kind'] == cres['kind']:
                    rep_ok = True
                    print(f"violation kind={cres['kind']} key={cres['key']}\n{cres['msg']}")
                    out_lines.append(f'VIOLATION property={pid} replay={path}')
                    break
            if rep_ok:
                break
            harness.append((i, f'violation {r["kind"]} {r["msg"][:500]} did not reproduce in a fresh interpreter: '
                            f'{again.get("status")} {again.get("kind")} {again.get("msg", "")[:300]}'))
        rc = 1 if rep_ok else 3
    if rc == 0 and harness:
        rc = 3
    for i, m in harness[:5]:
        print(f'HARNESS-ERROR plan {i}: {m}', file=sys.stderr)
    if rc == 0 and nrun == 0:
        rc = 3
    # probes that must have fired for the run to count
    missing = [p for p in getattr(mod, 'PROBES', {}).get(tier, []) if not counts.get(p) and not faults.get(p)]
    if missing:
        print('note: probes not hit: ' + ', '.join(missing), file=sys.stderr)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': nrun, 'distinct_nontrivial': nontriv, 'rule': mod.RULE, 'samples': samples,
            'simulated_runs': nrun, 'plans_skipped_on_time_budget': skipped,
            'runs_per_hour': round(nrun / max(wall, 1e-9) * 3600), 'seeds_per_hour': round(3600 / max(wall, 1e-9), 2),
            'simulated_seconds': round(simtime, 3), 'faults_injected': dict(sorted(faults.items())),
            'probes': dict(sorted(counts.items())), 'probes_not_hit': missing,
            'distinct_states': len(states), 'state_measure': getattr(mod, 'STATE_MEASURE', 'hash of (plan feature combination)'),
            'distinct_event_logs': len(digests), 'real_components': mod.REAL, 'stubbed_components': mod.STUB,
            'minimiser_runs': minitries, 'harness_errors': len(harness),
            'known_findings_met': sorted(knownhits)},
        'assumptions': mod.ASSUMPTIONS, 'wall_s': round(_mono() - t0, 2), 'violations': nviol}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{pid}: runs={nrun} nontrivial={nontriv} states={len(states)} violations={nviol} '
          f'harness={len(harness)} wall={ev["wall_s"]}s')
    for ln in out_lines:
        print(ln)
    sys.stdout.flush()
    return rc
