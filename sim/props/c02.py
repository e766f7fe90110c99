"""C02: runs that share an instrument are isolated from each other."""
import copy
import numpy as np
from sim import lib, world, sched, scenario
from sim.core import Violation, HarnessError

ID = 'C02'
TECHNIQUE = ('deterministic simulation: 2-4 caller runs share one instrument under a seeded scheduler that switches between them at source '
             'lines of marxs code or between elements, with aborts (interrupts and failing user functions) at arbitrary lines, nested runs '
             'inside callbacks and later re-use; every run is compared bit for bit with the same run alone on a newly built instrument')
RULE = 'at least two runs were interleaved, nested or followed an aborted run on one instrument; distinct = distinct event log (results + switch trace)'
STATE_MEASURE = 'hash of (function, line) where a switch happened, and of (component sequence, kind of sharing)'
ASSUMPTIONS = ['the state of the global random generator is virtualised per run, so that draws do not couple runs',
               'switches happen between source lines of marxs Python code, not inside numpy or astropy calls']
REAL = ['marxs.source', 'marxs.optics', 'marxs.simulator', 'marxs.missions.chandra', 'marxs.missions.lynx', 'marxs.missions.arcus', 'marxs.missions.mitsnl']
STUB = ['user functions', 'thread scheduler (simulated)']
N = {'quick': 420, 'thorough': 12000}
TIMEOUT = 150


def gen(rng, i, tier):
    if i % 25 == 7:
        spec = scenario.big_plan(rng, i // 25)['spec']
    else:
        spec = lib.gen_spec(rng, maxn=30)
    n = rng.choice([2, 2, 3, 4])
    mode = rng.choice(['line', 'line', 'line', 'element', 'sequential', 'nested'])
    clients = [{'n_phot': rng.choice([1, 2, 5, 12, 25]), 'seed': rng.randrange(2**31), 'spec2': rng.random() < .15 and mode != 'nested',
                'seedtype': rng.randrange(3)} for _ in range(n)]
    nsw = rng.randint(2, 60) if mode == 'line' else rng.randint(1, 12)
    scale = rng.choice([2, 10, 60, 200]) if mode == 'line' else 1
    switches = [[1 + int(rng.expovariate(1. / scale)), rng.randrange(4)] for _ in range(nsw)]
    plan = {'spec': spec, 'mode': mode, 'l_clients': clients, 'l_switches': switches if mode in ('line', 'element') else [], 'l_aborts': [],
            'nest_at': rng.randrange(0, 4)}
    if any(c['spec2'] for c in clients):
        plan['spec2'] = lib.gen_spec(rng, maxn=30)
    if rng.random() < .45:
        for _ in range(rng.choice([1, 1, 2])):
            plan['l_aborts'].append([rng.randrange(n), rng.choice([rng.randint(1, 60), rng.randint(1, 600), rng.randint(1, 3000)])])
    return plan


def client_run(prog, spec, n_phot, point=lambda label: None):
    src = dict(spec['source'], n_phot=n_phot)
    photons = prog.source.generate_photons(lib.exposure(src))
    point('source')
    for name, el, s in prog.all():
        photons = el(photons)
        point(name)
    return photons


def reduced(photons):
    return {'cols': {c: np.array(photons[c]) for c in photons.colnames}, 'order': list(photons.colnames),
            'meta': {k: repr(v) for k, v in photons.meta.items() if k not in lib.STAMPS}}


def diff(a, b):
    if a['order'] != b['order']:
        if set(a['order']) != set(b['order']):
            return 'columns', f"columns differ: {sorted(set(a['order']) ^ set(b['order']))}"
    for c in a['order']:
        if not lib.same_array(a['cols'][c], b['cols'][c]):
            x, y = a['cols'][c], b['cols'][c]
            if x.shape != y.shape:
                return 'length', f'column {c}: {x.shape} vs {y.shape}'
            k = [j for j in range(len(x)) if not lib.same_array(x[j], y[j])][0]
            return c, f'column {c}, photon {k}: {x[k]!r} vs {y[k]!r}'
    if a['meta'] != b['meta']:
        bad = sorted(k for k in set(a['meta']) | set(b['meta']) if a['meta'].get(k) != b['meta'].get(k))
        return 'meta', f'header {bad[0]}: {a["meta"].get(bad[0])} vs {b["meta"].get(bad[0])}'
    return None


def solo(spec, c):
    def body():
        np.random.seed(c['seed'] % 2**32)
        return reduced(client_run(lib.Program(spec), spec, c['n_phot']))
    st, val = world.life(body)
    return val


def run(plan, obs):
    spec = plan['spec']
    clients = plan['l_clients']
    if not clients:
        return
    specof = [plan['spec2'] if c['spec2'] and 'spec2' in plan else spec for c in clients]
    want = [solo(specof[k], c) for k, c in enumerate(clients)]
    st0 = np.random.get_state()
    np.random.seed(5)
    prog = lib.Program(spec)
    prog2 = lib.Program(plan['spec2']) if 'spec2' in plan else None
    np.random.set_state(st0)
    progs = [prog2 if c['spec2'] and prog2 is not None else prog for c in clients]
    tables = [None] * len(clients)
    mode = plan['mode']
    aborts = [(f'c{w}', at) for w, at in plan['l_aborts']]
    sc = sched.Scheduler(plan['l_switches'], mode if mode in ('line', 'element') else 'none', aborts)

    def mk(k):
        c = clients[k]

        def func():
            if mode == 'nested' and k > 0:
                return None
            return client_run(progs[k], specof[k], c['n_phot'], sc.point)
        return func
    for k in range(len(clients)):
        sc.spawn(f'c{k}', mk(k), clients[k]['seed'])
    nested = {}
    if mode == 'nested':
        count = [0]

        def hook(label):
            if sc.cur is None or nested.get('busy') or len(nested) - ('busy' in nested) >= len(clients) - 1:
                return
            count[0] += 1
            if count[0] <= plan['nest_at']:
                return
            k = 1 + len([x for x in nested if x != 'busy'])
            nested['busy'] = True
            st = np.random.get_state()
            np.random.seed(clients[k]['seed'] % 2**32)
            nested[k] = client_run(progs[k], specof[k], clients[k]['n_phot'])
            np.random.set_state(st)
            nested['busy'] = False
            obs.count('nested-runs')
        prog.cb.hook = hook
    sc.run()
    prog.cb.hook = None
    obs.count('switches', sc.nswitch)
    obs.count('lines-scheduled', sc.steps)
    for s in sc.sites:
        obs.state('site', s)
    obs.state(mode, bool(aborts), lib.features(spec))
    for t in sc.trace:
        obs.event(*t)
    aborted = set()
    for k, c in enumerate(sc.clients):
        if c.error is not None:
            if isinstance(c.error, sched.Abort):
                aborted.add(k)
                obs.fault('abort')
                continue
            raise c.error
        tables[k] = c.result
        if mode == 'nested' and k > 0:
            tables[k] = nested.get(k)
    for k, t in enumerate(tables):
        if t is None:
            continue
        d = diff(want[k], reduced(t))
        obs.event(k, lib.table_digest(t))
        obs.count('runs-compared')
        if d:
            raise Violation(f'run-not-isolated:{mode}', f'client {k} ({mode}, aborted clients {sorted(aborted)}): alone vs shared: {d[1]}', key=f'run-not-isolated:{d[0]}')
    # no data shared between photon lists
    live = [(k, t) for k, t in enumerate(tables) if t is not None]
    for a in range(len(live)):
        for b in range(a + 1, len(live)):
            for ca in live[a][1].colnames:
                for cb in live[b][1].colnames:
                    x, y = np.asarray(live[a][1][ca]), np.asarray(live[b][1][cb])
                    if x.size and y.size and np.may_share_memory(x, y) and np.shares_memory(x, y):
                        raise Violation('shared-memory', f'clients {live[a][0]} and {live[b][0]} share memory: columns {ca} and {cb}')
            if live[a][1].meta is live[b][1].meta:
                raise Violation('shared-meta', 'two photon lists share one header')
    # deface the results (they belong to the caller) and use the instrument again
    for k, t in live:
        for c in t.colnames:
            x = np.asarray(t[c])
            if x.dtype.kind == 'f' and x.flags.writeable:
                x[...] = -12345.
            elif x.dtype.kind == 'i' and x.flags.writeable:
                x[...] = -12345
        for key in list(t.meta):
            v = t.meta[key]
            if isinstance(v, (list, dict)):
                v.clear()
            t.meta[key] = 'defaced'
    if len(live) > 1 or aborted:
        obs.nontrivial = True
    order = sorted(range(len(clients)), key=lambda k: clients[k]['seedtype'])
    for k in order:
        np.random.seed(clients[k]['seed'] % 2**32)
        t = client_run(progs[k], specof[k], clients[k]['n_phot'])
        d = diff(want[k], reduced(t))
        obs.count('runs-on-used-instrument')
        if d:
            raise Violation('instrument-altered', f'run {k} repeated on the used instrument (aborted earlier: {sorted(aborted)}): new vs used: {d[1]}',
                            key=f'instrument-altered:{d[0]}')
