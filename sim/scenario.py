"""Scenario shared by the ray-level properties: one instrument, several photon lists, user-function failures, extreme draws."""
import numpy as np
from sim import bench, lib, world, watch
from sim.core import Violation, HarnessError

EXTREME = [0., .5, 1 - 2**-53, 2**-53, .25, .75, 1 - 1e-9, 1e-12]


def gen_runs(rng, spec, faults=True, draws=True):
    runs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = {'n_phot': rng.choice([1, 2, 3, 7, 20, 60]), 'l_faults': [], 'l_draws': []}
        if faults and rng.random() < .3:
            r['l_faults'].append({'n': rng.randrange(0, 7), 'kind': rng.choice(['raise', 'neg', 'big']),
                                  'frac': rng.random(), 'amount': rng.choice([.5, 1e-3, 1e-9, 3.])})
        if draws and rng.random() < .35:
            for _ in range(rng.randint(1, 6)):
                r['l_draws'].append([rng.randint(-1, len(spec['l_stages']) - 1), rng.randrange(0, 24), rng.choice(EXTREME)])
            if rng.random() < .4:   # one photon exactly in the middle of the aperture
                n = r['n_phot']
                j = rng.randrange(n)
                r['l_draws'] += [[-1, j, .5], [-1, n + j, .5]]
        runs.append(r)
    return runs


def gen(rng, i, tier, chandra=True):
    if chandra and i % 40 == 7:
        return chandra_plan(rng)
    if chandra and i % 40 == 27:
        return lynx_plan(rng)
    if chandra and i % 40 in (11, 31):
        return arcus_plan(rng)
    if i % 4 == 1:
        return bench.gen(rng, i, tier)
    spec = lib.gen_spec(rng)
    return {'spec': spec, 'l_runs': gen_runs(rng, spec)}


def gen_acis(rng):
    aim = rng.choice(['ACIS-I', 'ACIS-S', 'ACIS-S'])
    must = 3 if aim == 'ACIS-I' else 7
    chips = set(rng.sample(range(10), rng.randint(0, 6))) | {must}
    return {'t': 'acis', 'aim': aim, 'chips': sorted(chips)}


def chandra_plan(rng):
    src = lib.gen_source(rng, lab=False)
    spec = {'source': src, 'pointing': lib.gen_pointing(rng, src), 'aperture': {'t': 'hrma'},
            'l_stages': [{'t': 'hrma'}, {'t': 'hetg'}, gen_acis(rng)]}
    return {'spec': spec, 'l_runs': gen_runs(rng, spec, faults=False)[:2]}


def lynx_plan(rng):
    src = lib.gen_source(rng, lab=False)
    gas = {'t': 'lynxgas', 'size': [lib.U(rng, 150, 400), lib.U(rng, 200, 500)], 'l_budget': []}
    for _ in range(rng.choice([0, 0, 1, 2])):
        gas['l_budget'].append([rng.choice(['global', 'individual']), [lib.U(rng, -1, 1) for _ in range(3)] + [lib.U(rng, -.01, .01) for _ in range(3)]])
    st = [{'t': 'lynxmirror'}, {'t': 'lynxeff'}, gas, {'t': 'supportbars'}, {'t': 'lynxqe'}, {'t': 'lynxdet'}]
    if rng.random() < .3:
        st.append(lib.gen_stage(rng, 'proj'))
    if rng.random() < .3:
        st.append(lib.gen_stage(rng, 'prop'))
    spec = {'source': src, 'pointing': lib.gen_pointing(rng, src), 'aperture': {'t': 'lynx'}, 'l_stages': st}
    return {'spec': spec, 'l_runs': gen_runs(rng, spec, faults=False)[:2]}


def arcus_plan(rng):
    from sim import arcus
    src = lib.gen_source(rng, lab=False)
    a = arcus.gen_arcus(rng)
    p = dict(lib.gen_pointing(rng, src), t=rng.choice(['fixed', 'jitter']), zxy=a['cls'] != 'AXIS')
    spec = {'source': src, 'pointing': p, 'aperture': {'t': 'arcus', 'arcus': a}, 'l_stages': arcus.stages(a)}
    return {'spec': spec, 'l_runs': gen_runs(rng, spec, faults=False)[:2]}


def big_plan(rng, k):
    return [chandra_plan, lynx_plan, arcus_plan][k % 3](rng)


def run(plan, obs, what):
    if plan.get('bench'):
        return bench.run(plan, obs, what)
    spec = plan['spec']
    prog = lib.Program(spec)
    cb = prog.cb
    base = 0
    for k, r in enumerate(plan['l_runs']):
        cb.n = 0
        cb.faults = {f['n']: f for f in r['l_faults']}
        cb.fired = []
        w = watch.Watch(obs, what, prog)
        spec['source']['n_phot'] = r['n_phot']
        bad = None
        try:
            one_run(prog, r, w, obs, base, k)
        except lib.UserError:
            bad = 'raise'
        except ValueError as e:
            if not any(f[1] in ('neg', 'big') for f in cb.fired):
                raise
            bad = 'refused'
        for f in cb.fired:
            obs.fault('user-function:' + f[1])
        if any(f[1] == 'raise' for f in cb.fired) and bad != 'raise':
            raise Violation('error-swallowed', f'user function raised an error but the run went on: {cb.fired}')
        if any(f[1] in ('neg', 'big') for f in cb.fired) and bad is None:
            raise Violation('bad-factor-accepted', f'user function gave a factor outside [0, 1] and the run was not refused: {cb.fired}')
        obs.event(k, bad, cb.n)
        base += r['n_phot']
        obs.count('runs')
        if k and bad is None:
            obs.count('runs-on-used-instrument')
    obs.state(*lib.features(spec))


def one_run(prog, r, w, obs, base, k):
    photons = prog.generate()
    obs.simtime += r['n_phot']
    if len(photons) == 0:
        obs.count('empty-photon-lists')
    photons = watch.add_user_columns(photons, base)
    stages = prog.all()
    nfront = len(stages) - len(prog.stages)
    for j, (name, el, s) in enumerate(stages):
        draws = [[d[1], d[2]] for d in r['l_draws'] if d[0] == j - nfront]
        if draws:
            world.force_draws(draws)
            obs.fault('extreme-draws', len(draws))
        w.before(name, el, s, photons)
        photons = el(photons)
        if photons is None:
            raise Violation('returns-nothing', f'{name} returned None')
        w.after(name, el, s, photons)
    obs.event(lib.table_digest(photons))
    obs.count('photons', len(photons))
    return photons
