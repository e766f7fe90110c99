"""C01: the seed of the global generator determines the whole simulation."""
import json
import os
import subprocess
import numpy as np
from sim import lib, world, scenario
from sim.core import Violation, HarnessError
from sim.props.c02 import reduced, diff

ID = 'C01'
TECHNIQUE = ('deterministic simulation: the same program is executed in several simulated process lives that differ in everything but the seed '
             '(clock and clock jumps, user, host, operating-system entropy, hash seed, work done earlier, new or used instrument) and the photon lists are compared bit for bit')
RULE = 'at least two lives with photons were compared; distinct = distinct event log (result digests and environment of each life)'
STATE_MEASURE = 'hash of (component sequence) and of the kinds of environment difference'
ASSUMPTIONS = ['same machine, same numpy: bit equality across library versions is not claimed',
               'user functions draw only from the global numpy generator']
REAL = ['marxs.source', 'marxs.optics', 'marxs.simulator', 'marxs.design.tolerancing', 'marxs.missions.chandra', 'marxs.missions.lynx', 'marxs.missions.arcus', 'marxs.missions.mitsnl', 'astropy coordinates']
STUB = ['clock', 'environment variables', 'os.urandom', 'user functions']
N = {'quick': 700, 'thorough': 20000}
TIMEOUT = 200


def gen_env(rng, i, deep):
    e = {'clock': rng.choice([0., 1e9, 1.7e9, 86399.9995, 4e9]) + rng.random(), 'tick': rng.choice([0, 1e-3, 3600., 1e5]),
         'jumps': {str(rng.randrange(6)): rng.choice([-1e6, 1e6, -86400., .5]) for _ in range(rng.choice([0, 1, 2]))},
         'user': rng.choice(['a', 'root', '', None]), 'host': rng.choice(['h1', 'x' * 80, None]), 'entropy': rng.randrange(2**31),
         'l_history': [], 'used': rng.random() < .5, 'fresh': None}
    for _ in range(rng.choice([0, 0, 1, 2])):
        e['l_history'].append({'spec': lib.gen_spec(rng, maxn=20), 'seed': rng.randrange(2**31), 'abort': rng.random() < .2})
    if deep:
        e['fresh'] = str(rng.randrange(1, 10**6))
    return e


def gen(rng, i, tier):
    if i % 20 == 7:
        spec = scenario.big_plan(rng, i // 20)['spec']
    else:
        spec = lib.gen_spec(rng, maxn=40)
    plan = {'spec': spec, 'simseed': rng.randrange(2**31), 'wiggle': rng.random() < .4, 'l_envs': []}
    for k in range(rng.choice([2, 2, 3])):
        plan['l_envs'].append(gen_env(rng, i, k == 1 and i % 35 == 3))
    return plan


def wiggle(prog, spec):
    from marxs.design import tolerancing as tol
    for name, el, s in prog.stages:
        if s['t'] in ('par', 'gas', 'detpar'):
            tol.wiggle(el, dx=.1, dy=.01, rx=1e-3, rz=1e-2)
            tol.moveglobal(el, dy=.1)


def one_life(spec, simseed, env, wig):
    w = world.current()
    w.clock = world.Clock(env['clock'], env['tick'], env['jumps'])
    world.set_entropy(env['entropy'])
    for k, name in (('user', 'USER'), ('host', 'HOST')):
        if env[k] is None:
            os.environ.pop(name, None)
        else:
            os.environ[name] = env[k]
    if env['user'] is None:
        for n in ('LOGNAME', 'LNAME', 'USERNAME'):
            os.environ.pop(n, None)
    for h in env['l_history']:
        np.random.seed(h['seed'] % 2**32)
        p = lib.Program(h['spec'], faults=[{'n': 1, 'kind': 'raise'}] if h['abort'] else ())
        try:
            p.run()
        except lib.UserError:
            pass
    prog = lib.Program(spec)
    if env['used']:
        np.random.seed(99)
        prog.run()
    np.random.seed(simseed % 2**32)
    if wig:
        wiggle(prog, spec)
    out = reduced(prog.run())
    out['state'] = repr(np.random.get_state()[1].tobytes())[:80] + str(np.random.get_state()[2])
    return out, w.clock.elapsed, w.clock.jumped


def evaluate(payload):
    """Entry point in a new interpreter."""
    import pickle
    import base64
    val = one_life(payload['spec'], payload['simseed'], payload['env'], payload['wiggle'])
    return base64.b64encode(pickle.dumps(val)).decode()


def new_interpreter(plan, env):
    import pickle
    import base64
    from sim import core
    w = world.current()
    d = w.scratch()
    path = os.path.join(d, 'payload.json')
    with open(path, 'w') as f:
        json.dump({'spec': plan['spec'], 'simseed': plan['simseed'], 'env': env, 'wiggle': plan['wiggle']}, f)
    e = dict(os.environ, SIM_HASHSEED=env['fresh'])
    p = subprocess.run(['/bin/bash', os.path.join(core.VERIF, 'run.sh'), ID, '--eval', path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e)
    for line in p.stdout.decode().splitlines():
        if line.startswith('EVAL '):
            return pickle.loads(base64.b64decode(line[5:]))
    raise HarnessError('new interpreter: ' + p.stderr.decode()[-1500:])


def run(plan, obs):
    results = []
    for env in plan['l_envs']:
        if env['fresh']:
            val = new_interpreter(plan, env)
            obs.count('lives-in-new-interpreter')
            obs.fault('hash-seed')
        else:
            st, val = world.life(lambda: one_life(plan['spec'], plan['simseed'], env, plan['wiggle']))
        out, el, jumped = val
        obs.simtime += el
        if jumped:
            obs.fault('clock-jump', jumped)
        obs.count('lives')
        if env['used']:
            obs.count('lives-with-used-instrument')
        obs.count('earlier-programs', len(env['l_history']))
        if env['user'] is None or env['host'] is None:
            obs.fault('unset-user-or-host')
        results.append(out)
        obs.event({k: env[k] for k in ('clock', 'user', 'host', 'used', 'fresh')}, len(next(iter(out['cols'].values()))))
        obs.state(env['used'], bool(env['l_history']), bool(env['fresh']), env['user'] is None)
    obs.state(*lib.features(plan['spec']))
    for k in range(1, len(results)):
        a, b = dict(results[0]), dict(results[k])
        d = diff(a, b)
        if d is None and a['state'] != b['state']:
            d = ('generator', 'the global generator is in a different state after the run')
        if d:
            raise Violation('not-repeatable', f"life 0 and life {k} (same seed): {d[1]}", key=f'not-repeatable:{d[0]}')
    import hashlib
    if results:
        obs.event(hashlib.sha1(b''.join(np.ascontiguousarray(v).tobytes() for v in results[0]['cols'].values())).hexdigest())
    if len(results) > 1 and len(results[0]['order']):
        obs.nontrivial = True
