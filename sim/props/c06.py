"""C06: the fate of a photon does not depend on batches, order or company."""
import numpy as np
from astropy.table import vstack
from sim import bench, lib, world, watch, scenario
from sim.core import Violation, HarnessError

ID = 'C06'
TECHNIQUE = ('deterministic simulation: photons are messages, delivered to the pointing and to the randomness-free instrument by a seeded schedule of '
             'batches (reordering, arbitrary sizes down to one and to empty, delay at a stage while other batches overtake, company of unrelated '
             'photons, used or new instrument); each photon must come out as if the list had been delivered whole')
RULE = 'the list was delivered in at least two batches, reordered or with other photons; distinct = distinct event log (schedule + results)'
STATE_MEASURE = 'hash of (component sequence, batch size classes, delivery kinds)'
ASSUMPTIONS = ['results may differ by rounding (1e-8 relative to the size of the value or 1 mm); no photon of the search lies within rounding of an edge']
REAL = ['marxs.source.pointing', 'marxs.missions.chandra', 'marxs.missions.lynx', 'marxs.missions.arcus', 'marxs.optics', 'marxs.simulator', 'marxs.analysis.coords', 'marxs.design.rowland']
STUB = ['user functions', 'delivery of photon lists (simulated schedule)']
N = {'quick': 1500, 'thorough': 40000}


BENCH = ['perfect', 'perfect', 'thin', 'efilter', 'baffle', 'flatgrat', 'catgrat', 'npcat', 'l2abs', 'quality', 'det', 'detbare', 'detstack', 'detcirc',
         'proj', 'mlmirror', 'brewster', 'stack', 'stack', 'stack']
LAYERS = ['perfect', 'thin', 'efilter', 'baffle', 'baffle', 'flatgrat', 'l2abs', 'det', 'detbare']


def gen_bench(rng, i, tier):
    """One element without randomness on the bench."""
    p = bench.gen(rng, i, tier, BENCH, LAYERS)
    s = p['stage']
    for x in [s] + s.get('l_layers', []):
        if 'orders' in x:
            x['orders'] = {'k': 'list', 'o': [x['orders']['o'][0]], 'p': [1.]}
    lst = p['l_lists'][0]
    lst['l_rays'] = [r for li in p['l_lists'] for r in li['l_rays']]
    for r in lst['l_rays']:     # keep away from edges, where rounding decides, and from the choice of the side a CAT grating blazes to
        if r['w'] in ('edge', 'corner'):
            r['w'] = 'in'
        if r['s'] == 'on':
            r['s'] = 'before'
        if r['h'] in ('normal', 'near') and s['t'] in ('catgrat', 'npcat'):
            r['h'] = 'steep'
    lst['user'] = False
    p['l_lists'] = [lst]
    p['n_other'] = rng.choice([0, 1, 5])
    p['l_other'] = bench.gen_rays(rng, s['t'], 8)
    p['l_deliveries'] = [gen_delivery(rng) for _ in range(rng.choice([1, 2, 3]))]
    return p


def run_bench(plan, obs):
    s = plan['stage']
    cb = lib.Callbacks()
    el = bench.build(s, cb)
    lst = plan['l_lists'][0]
    start = bench.photons(s, el, lst, 0)
    start['uid'] = np.arange(len(start))
    if len(start) == 0:
        obs.count('empty-photon-lists')
        return
    ot = bench.photons(s, el, {'l_rays': plan['l_other'], 'old': lst['old'], 'user': False}, 0)
    ot['uid'] = -1 - np.arange(len(ot))
    want = el(start.copy())
    for k, d in enumerate(plan['l_deliveries']):
        who = f'{s["t"]}, delivery {k} ({d["split"]}, {d["perm"]})'
        e = el if d['instr'] == 'same' else bench.build(s, cb)
        got = deliver(d, start, [e], obs, ot[:d['n_other']].copy() if d['n_other'] else None)
        compare(want, got, who, None)
        obs.count('deliveries')
        obs.count('bench-photons', len(start))
        obs.state('bench', s['t'], d['split'], d['perm'], d['instr'], bool(d['n_other']))
        obs.event(sorted((c, float(np.nansum(x)) if x.dtype.kind in 'fi' else 0) for c, x in got.items()))
        if d['split'] != 'whole' or d['perm'] != 'none' or d['n_other']:
            obs.nontrivial = True


def gen_delivery(rng):
    return {'perm': rng.choice(['none', 'reverse', 'shuffle', 'shuffle']), 'pseed': rng.randrange(2**31),
            'l_sizes': [], 'n_other': rng.choice([0, 0, 1, 5, 30]), 'where': rng.choice(['front', 'back', 'mixed']),
            'instr': rng.choice(['same', 'same', 'new', 'sequence']), 'split': rng.choice(['one', 'random', 'random', 'whole']),
            'sched': rng.randrange(2**31), 'overtake': rng.random() < .6, 'empty': rng.random() < .15}


def mission_spec(rng):
    """The parts of the missions that draw no random numbers."""
    k = rng.choice(['arcus', 'arcus', 'acis', 'lynx', 'lynxeff'])
    if k == 'arcus':
        spec = scenario.arcus_plan(rng)['spec']
        spec['l_stages'] = [s for s in spec['l_stages'] if s['t'] not in ('arcscat', 'arccat', 'radscatter', 'lynxgas', 'supportbars')]
        return spec
    src = lib.gen_source(rng, lab=False)
    spec = {'source': src, 'pointing': lib.gen_pointing(rng, src), 'aperture': {'t': 'rect', 'x': lib.F + 300., 'zy': lib.U(rng, 20, 120), 'zz': lib.U(rng, 20, 120)}}
    if k == 'acis':
        spec['l_stages'] = [scenario.gen_acis(rng)]
    elif k == 'lynx':
        spec['aperture'] = {'t': 'rect', 'x': lib.F + 300., 'zy': 700., 'zz': 100.}
        spec['l_stages'] = [{'t': 'lynxqe'}, {'t': 'lynxdet'}]
    else:
        spec['aperture'] = {'t': 'lynx'}
        spec['l_stages'] = [{'t': 'lynxeff'}, {'t': 'lynxqe'}]
    return spec


def gen(rng, i, tier):
    if i % 4 == 1:
        return gen_bench(rng, i, tier)
    if i % 25 == 2:
        spec = mission_spec(rng)
    else:
        spec = lib.gen_spec(rng, random_ok=False, maxn=60)
    if spec['pointing'] and spec['pointing']['t'] == 'jitter':
        spec['pointing']['t'] = rng.choice(['fixed', 'lissajous'])
    n = rng.choice([1, 2, 3, 8, 20, 60])
    spec['source']['n_phot'] = n
    deliveries = []
    for _ in range(rng.choice([1, 2, 3])):
        d = gen_delivery(rng)
        deliveries.append(d)
    return {'spec': spec, 'l_deliveries': deliveries, 'n_phot': n}


def make_batches(d, n):
    import random
    r = random.Random(d['pseed'])
    idx = list(range(n))
    if d['perm'] == 'reverse':
        idx = idx[::-1]
    elif d['perm'] == 'shuffle':
        r.shuffle(idx)
    if d['split'] == 'whole':
        out = [idx]
    elif d['split'] == 'one':
        out = [[k] for k in idx]
        if len(out) > 20:
            out = out[:20] + [idx[20:]]
    else:
        out = []
        while idx:
            s = r.choice([1, 1, 2, 3, 5, 10, len(idx)])
            out.append(idx[:s])
            idx = idx[s:]
    if d['empty']:
        out.insert(r.randrange(len(out) + 1), [])
    return out


def deliver(d, table, stages, obs, other=None):
    """Send the rows of table through the stages according to the schedule; returns the table in the original order."""
    import random
    r = random.Random(d['sched'])
    batches = make_batches(d, len(table))
    state = []
    for b in batches:
        t = table[b]
        if other is not None and len(other):
            k = r.randrange(0, len(other))
            o = other[k:]
            if d['where'] == 'front':
                t = vstack([o, t], metadata_conflicts='silent') if len(t) else o
            elif d['where'] == 'back':
                t = vstack([t, o], metadata_conflicts='silent') if len(t) else o
            else:
                t = vstack([t, o], metadata_conflicts='silent') if len(t) else o
                p = list(range(len(t)))
                r.shuffle(p)
                t = t[p]
            t.meta.update(table.meta)
            obs.count('batches-with-company')
        state.append([0, t])
    obs.count('batches', len(batches))
    for b in batches:
        obs.state('batch', min(len(b), 3))
    live = list(range(len(state)))
    while live:
        j = r.choice(live) if d['overtake'] else live[0]
        k, t = state[j]
        if k == len(stages):
            live.remove(j)
            continue
        obs.event(j, k, len(t))
        out = stages[k](t)
        if out is None:
            raise Violation('returns-nothing', f'stage {k} returned None')
        state[j] = [k + 1, out]
    rows = {}
    tabs = []
    for j, (k, t) in enumerate(state):
        mine = np.asarray(lib.need(t, 'uid')) >= 0
        want = len(batches[j])
        if mine.sum() != want:
            raise Violation('photon-number', f'batch {j}: {want} photons delivered, {mine.sum()} came out')
        t = t[mine]
        if len(t):
            tabs.append(t)
    # a batch none of whose photons reaches an element has no columns for the outputs of that element: same as NaN / -1
    cols = {}
    for t in tabs:
        for c in t.colnames:
            x = np.asarray(t[c])
            cols.setdefault(c, (x.dtype, x.shape[1:]))
    out = {}
    for c, (dt, shape) in cols.items():
        parts = []
        for t in tabs:
            if c in t.colnames:
                parts.append(np.asarray(t[c]))
            else:
                obs.count('columns-absent-in-batch')
                parts.append(np.full((len(t),) + shape, np.nan if dt.kind == 'f' else -1, dtype=dt))
        out[c] = np.concatenate(parts)
    order = np.argsort(out['uid'], kind='stable')
    return {c: x[order] for c, x in out.items()}


def compare(want, got, who, spec):
    for c in set(got) - set(want.colnames):
        x = got[c]
        if np.all(np.isnan(x)) if x.dtype.kind == 'f' else np.all(x == -1):
            del got[c]
    if set(want.colnames) != set(got):
        raise Violation('columns', f'{who}: columns differ from delivery in one list: {sorted(set(want.colnames) ^ set(got))}')
    for c in want.colnames:
        x, y = np.asarray(want[c]), got[c]
        if x.shape != y.shape:
            raise Violation('shape', f'{who}: column {c}: shape {x.shape} vs {y.shape}')
        if x.dtype.kind == 'f':
            same = np.isclose(x, y, rtol=1e-8, atol=1e-8, equal_nan=True)
        else:
            same = x == y
        if not np.all(same):
            k = int(np.nonzero(~np.asarray(same).reshape(len(x), -1).all(axis=1))[0][0])
            raise Violation('fate-depends-on-delivery', f'{who}: photon {k}, column {c}: delivered whole {x[k]!r}, delivered otherwise {y[k]!r}',
                            key=f'fate-depends-on-delivery:{c}')


def run(plan, obs):
    if plan.get('bench'):
        return run_bench(plan, obs)
    spec = plan['spec']
    spec['source']['n_phot'] = plan['n_phot']
    st0 = np.random.get_state()
    np.random.seed(17)
    prog = lib.Program(spec)
    np.random.set_state(st0)
    raw = prog.generate()
    if len(raw) == 0:
        obs.count('empty-photon-lists')
        return
    raw['uid'] = np.arange(len(raw))
    raw['user'] = np.sin(np.arange(len(raw)))
    rawother = None
    if any(d['n_other'] for d in plan['l_deliveries']):
        prog.spec['source']['n_phot'] = max(d['n_other'] for d in plan['l_deliveries'])
        rawother = prog.generate()
        rawother['uid'] = -1 - np.arange(len(rawother))
        rawother['user'] = np.cos(np.arange(len(rawother)))
        prog.spec['source']['n_phot'] = plan['n_phot']
    obs.simtime += plan['n_phot']
    # delivery of the whole list
    photons = raw.copy()
    other = rawother.copy() if rawother is not None else None
    pointed = None
    if prog.pointing is not None:
        photons = prog.pointing(photons)
        pointed = photons.copy()
        if other is not None:
            other = prog.pointing(other)
    if prog.aperture is not None:
        photons = prog.aperture(photons)
        if other is not None:
            other = prog.aperture(other)
    start = photons.copy()
    other0 = other
    for name, el, s in prog.stages:
        photons = el(photons)
    for k, d in enumerate(plan['l_deliveries']):
        p = prog
        who = f'delivery {k} ({d["split"]}, {d["perm"]})'
        if d['instr'] == 'new':
            np.random.seed(17)
            p = lib.Program(spec)
        obs.count('deliveries')
        obs.state(*lib.features(spec), d['split'], d['perm'], d['instr'], bool(d['n_other']))
        if p.pointing is not None:
            ot = rawother[:d['n_other']].copy() if d['n_other'] else None
            got = deliver(d, raw, [p.pointing], obs, ot)
            compare(pointed, got, who + ' at the pointing', spec)
        stages = [el for _, el, _ in p.stages]
        if d['instr'] == 'sequence':
            from marxs.simulator import Sequence
            stages = [Sequence(elements=stages)]
        ot = other0[:d['n_other']].copy() if d['n_other'] else None
        got = deliver(d, start, stages, obs, ot)
        compare(photons, got, who, spec)
        obs.count('photons', len(start))
        obs.event(sorted((c, float(np.nansum(x)) if x.dtype.kind in 'fi' else 0) for c, x in got.items()))
        if d['split'] != 'whole' or d['perm'] != 'none' or d['n_other']:
            obs.nontrivial = True
