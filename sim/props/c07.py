"""C07: checkpoint to file and resume in a new process."""
import json
import os
import numpy as np
from astropy.table import Table
from sim import lib, world, scenario
from sim.core import Violation, HarnessError

ID = 'C07'
TECHNIQUE = ('deterministic simulation of process lives: a driver saves the photon list and generator state at stop points of a seeded plan, is stopped or '
             'crashes (at arbitrary source lines inside elements, during the writing of a list, by disk errors and torn writes) and is restarted in a '
             'new simulated process where only the disk survives; final list against the uninterrupted run')
RULE = 'the simulation was finished by a later life than the one that started it; distinct = distinct event log'
STATE_MEASURE = 'hash of (component sequence, format, stop points, number of lives, fault kinds)'
ASSUMPTIONS = ['the driver (part of the harness) writes list and generator state and then renames one marker file; the rename is atomic',
               'columns may differ by rounding only (1e-10), because files store another byte order']
REAL = ['marxs.source', 'marxs.optics', 'marxs.simulator', 'marxs.missions.chandra', 'marxs.missions.lynx', 'marxs.missions.arcus', 'astropy.table I/O (FITS, ECSV)']
STUB = ['disk (fault injecting, in scratch directory)', 'process crash', 'driver program', 'user functions']
N = {'quick': 700, 'thorough': 12000}
TIMEOUT = 150


def gen(rng, i, tier):
    if i % 25 == 7:
        spec = scenario.big_plan(rng, i // 25)['spec']
    else:
        spec = lib.gen_spec(rng, maxn=40)
    n = 3 + len(spec['l_stages'])
    p = rng.choice([.2, .5, 1.])
    plan = {'spec': spec, 'l_stops': [k for k in range(n) if rng.random() < p], 'n_phot': rng.choice([1, 2, 5, 20, 40]),
            'fmt': rng.choice(['fits', 'fits', 'ecsv']), 'masked': rng.random() < .5, 'l_lives': [], 'seed2': rng.randrange(2**31),
            'seq': rng.random() < .3}
    for _ in range(rng.randint(0, 4)):
        k = rng.random()
        if k < .35:
            plan['l_lives'].append({'k': 'stop', 'n_save': rng.randint(1, 3)})
        elif k < .65:
            plan['l_lives'].append({'k': 'line', 'at': rng.choice([rng.randint(1, 100), rng.randint(1, 1000), rng.randint(1, 3000)])})
        else:
            plan['l_lives'].append({'k': 'disk', 'fault': {'op': rng.choice(['write', 'write', '*', 'open']), 'n': rng.randrange(0, 8),
                                                           'kind': rng.choice(['EIO', 'ENOSPC', 'torn', 'crash']), 'frac': rng.random()}})
    return plan


class Stop(Exception):
    pass


def one_life(plan, root, life, stats):
    """The driver program: resume from the marker if there is one, run to the end, saving at the stop points."""
    spec = plan['spec']
    fmt = plan['fmt']
    np.random.seed(23)
    prog = lib.Program(spec)
    stages = [(n, el) for n, el, _ in prog.all()]
    marker = os.path.join(root, 'LATEST')
    pos, photons = -1, None
    if os.path.exists(marker):
        try:
            with open(marker) as f:
                m = json.load(f)
            kw = {'mask_invalid': plan['masked']} if fmt == 'fits' else {'format': 'ascii.ecsv'}
            photons = Table.read(os.path.join(root, m['file']), **kw)
        except OSError:
            if not world.current().fs.fired:
                raise
            stats['restore-failed'] = 1
            return None
        pos = m['pos']
        st = m['rng']
        np.random.set_state((st[0], np.array(st[1], dtype=np.uint32), st[2], st[3], st[4]))
        stats['resumed'] = stats.get('resumed', 0) + 1
    else:
        np.random.seed(plan['seed2'])
    saves = 0
    attempt = 0
    while True:
        nxt = pos + 1
        if nxt > len(stages):
            return photons
        if nxt == 0:
            photons = prog.generate()
            photons['uid'] = np.arange(len(photons))
            photons['user'] = np.sin(np.arange(len(photons)))
        elif plan['seq'] and not any(nxt <= s < len(stages) for s in plan['l_stops']):
            from marxs.simulator import Sequence
            photons = Sequence(elements=[el for _, el in stages[nxt - 1:]])(photons)
            nxt = len(stages)
        else:
            photons = stages[nxt - 1][1](photons)
        pos = nxt
        if pos in plan['l_stops'] and pos < len(stages):
            attempt += 1
            name = f'list{pos}.{fmt}'
            try:
                if fmt == 'fits':
                    photons.write(os.path.join(root, name), format='fits', overwrite=True)
                else:
                    photons.write(os.path.join(root, name), format='ascii.ecsv', overwrite=True)
                st = np.random.get_state()
                with open(marker + '.tmp', 'w') as f:
                    json.dump({'pos': pos, 'file': name, 'rng': [st[0], [int(x) for x in st[1]], int(st[2]), int(st[3]), float(st[4])]}, f)
                os.replace(marker + '.tmp', marker)
                saves += 1
                stats['saved'] = stats.get('saved', 0) + 1
            except OSError as e:
                # the operator sees the error; the list in memory is still good
                stats['save-failed'] = stats.get('save-failed', 0) + 1
            if life and life['k'] == 'stop' and saves >= life['n_save']:
                return None


def snapshot(t):
    if t is None:
        return None
    out = {}
    for c in t.colnames:
        x = t[c]
        if hasattr(x, 'filled'):
            x = x.filled(np.nan) if x.dtype.kind == 'f' else x.filled(-1)
        x = np.array(x)
        out[c] = x.astype(x.dtype.newbyteorder('='))
    return {'cols': out, 'units': {c: str(t[c].unit) for c in t.colnames}, 'n': len(t)}


def run(plan, obs):
    spec = plan['spec']
    spec['source']['n_phot'] = plan['n_phot']
    w = world.current()
    plain = dict(plan, l_stops=[], seq=False)

    def alone():
        return snapshot(one_life(plain, '/nonexistent', None, {}))
    st, want = world.life(alone)
    if want['n'] == 0:   # astropy cannot read tables without rows and with vector columns back from ECSV
        obs.count('empty-photon-lists')
        return
    root = w.scratch()
    lives = list(plan['l_lives']) + [None]
    got = None
    finished = None
    for k, life in enumerate(lives):
        w.fs = world.FaultFS(root, [life['fault']] if life and life['k'] == 'disk' else [])
        stats = {}

        def body():
            fs = w.fs

            def hook(code, lineno):
                if steps.n >= life['at']:
                    fs.dead = True
                    raise world.SimCrash()
            if life and life['k'] == 'line':
                with world.Steps(None, hook) as steps:
                    out = one_life(plan, root, life, stats)
            else:
                out = one_life(plan, root, life, stats)
            return snapshot(out), stats
        st, val = world.life(body)
        for f in w.fs.fired:
            obs.fault(f'disk:{f[0]}:{f[1]}')
        w.fs = None
        obs.event(k, st, life and life['k'])
        if st == 'crash':
            obs.fault('crash-in-element' if life['k'] == 'line' else 'crash-while-saving')
            continue
        out, stats = val
        for c, n in stats.items():
            obs.count(c, n)
        if out is None:
            obs.fault('stopped')
            continue
        got = out
        finished = k
        if stats.get('resumed'):
            obs.nontrivial = True
        break
    if got is None:
        raise HarnessError('no life finished')
    obs.simtime += plan['n_phot']
    obs.count('lives', finished + 1)
    obs.state(*lib.features(spec), plan['fmt'], tuple(plan['l_stops']), finished)
    compare(want, got, plan)
    obs.event(sorted((c, x.shape, float(np.nansum(x)) if x.dtype.kind in 'fi' else 0) for c, x in got['cols'].items()))


def compare(want, got, plan):
    who = f"stopped at {plan['l_stops']} ({plan['fmt']}, masked={plan['masked']})"
    if want['n'] != got['n']:
        raise Violation('photon-number', f"{who}: {want['n']} photons without stops, {got['n']} when resumed")
    if set(want['cols']) != set(got['cols']):
        raise Violation('columns', f"{who}: columns differ: {sorted(set(want['cols']) ^ set(got['cols']))}")
    for c, x in want['cols'].items():
        y = got['cols'][c]
        if x.shape != y.shape:
            raise Violation('shape', f'{who}: column {c}: shape {x.shape} vs {y.shape}', key=f'shape:{c}')
        if x.dtype.kind == 'f':
            same = np.isclose(x, y, rtol=1e-10, atol=1e-10, equal_nan=True)
        else:
            same = x == y
        if not np.all(same):
            k = int(np.nonzero(~np.asarray(same).reshape(len(x), -1).all(axis=1))[0][0])
            raise Violation('resumed-run-differs', f'{who}: photon {k}, column {c}: uninterrupted {x[k]!r}, resumed {y[k]!r}', key=f'resumed-run-differs:{c}')
