"""C13: hooks of containers and column recorders see every stage once, in order."""
import numpy as np
from sim import lib, world, watch
from sim.core import Violation, HarnessError

ID = 'C13'
TECHNIQUE = ('deterministic simulation: random trees of containers with seeded hooks (recorders, tracers, hooks that edit or replace columns, fail, '
             'or start further runs) and user elements are run several times on the same recorders, with failing user functions and interrupts at '
             'arbitrary source lines; calls and snapshots are compared bit for bit with a small reference executor that walks the same tree over '
             'newly built elements with the same draws')
RULE = 'at least three hook calls were compared and a recorder holds a snapshot; distinct = distinct event log (hook calls with table digests)'
STATE_MEASURE = 'hash of (shape of the container tree, kinds and places of hooks, fault kinds)'
ASSUMPTIONS = ['an interrupt (an exception at any source line of marxs code) may stop the run at any point, recorders then hold a prefix',
               'hooks that raise stop the run']
REAL = ['marxs.simulator (Sequence, Parallel, KeepCol)', 'marxs.source', 'marxs.optics']
STUB = ['hook functions other than KeepCol', 'user elements', 'user functions of elements']
N = {'quick': 1500, 'thorough': 30000}
TIMEOUT = 150

COLS = ['pos', 'pos', 'dir', 'energy', 'probability', 'polarization', 'uid', 'userf', 'users', 'user2', 'userb', 'order', 'detpix_x', 'time', 'extra']


def gen_hook(rng):
    h = {'c': rng.randrange(6), 'when': rng.choice(['pre', 'post', 'post']),
         't': rng.choice(['keep', 'keep', 'keep', 'trace', 'trace', 'mark', 'edit', 'replace', 'addcol', 'nest']),
         'col': rng.choice(COLS[:11] if rng.random() < .9 else COLS), 'share': rng.randrange(3) if rng.random() < .3 else None,
         'late': rng.random() < .25, 'at': rng.randrange(4), 'f': lib.U(rng, .3, .9)}
    return h


def gen(rng, i, tier):
    spec = lib.gen_spec(rng, maxn=12)
    plan = {'spec': spec, 'l_user': [], 'l_cuts': [], 'l_hooks': [], 'l_runs': [], 'l_format': []}
    for _ in range(rng.choice([0, 0, 1, 2])):
        plan['l_user'].append([rng.randrange(10), rng.choice(['copy', 'select', 'same', 'none'])])
    if rng.random() < .3:
        at, d = rng.randrange(2, 12), rng.choice([.4, 40., .01])
        for _ in range(rng.randint(3, 7)):
            plan['l_user'].append([at, d])
        plan['l_hooks'].append({'c': 0, 'when': rng.choice(['pre', 'post']), 't': 'keep', 'col': 'pos', 'share': None, 'late': False, 'at': 0, 'f': .5})
        plan['l_format'].append(2.5 * d)
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        plan['l_cuts'].append([rng.randrange(8), rng.randrange(5)])
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        plan['l_hooks'].append(gen_hook(rng))
    for _ in range(rng.choice([1, 2, 2, 3])):
        r = {'n_phot': rng.choice([1, 2, 5, 12]), 'seed': rng.randrange(2**31), 'l_faults': [], 'abort': None, 'raise': None}
        x = rng.random()
        if x < .12:
            r['abort'] = rng.choice([rng.randint(1, 30), rng.randint(1, 200), rng.randint(1, 1500)])
        elif x < .24:
            r['raise'] = rng.randrange(12)
        elif x < .36:
            r['l_faults'].append({'n': rng.randrange(6), 'kind': 'raise'})
        plan['l_runs'].append(r)
    for _ in range(rng.choice([1, 2])):
        plan['l_format'].append(rng.choice([None, 0., 1e-12, 1e-8, 1e-3, 1., 1e3, 1e9]))
    return plan


class UserElement:
    """A callable of the user's in a sequence."""

    def __init__(self, kind):
        self.kind = kind

    def __call__(self, photons):
        if self.kind == 'copy':
            return photons.copy()
        if self.kind == 'none':
            return photons[:0]
        if self.kind == 'select':
            return photons[np.arange(len(photons)) % 3 != 1]
        return photons


class Tree:
    """Containers of one simulation.  ``real``: build marxs Sequences with their hooks, else only the description."""

    def __init__(self, plan, real):
        from marxs import simulator
        self.real = real
        self.prog = lib.Program(plan['spec'])
        items = [('elem', n, el, s) for n, el, s in self.prog.all()]
        for j, (at, kind) in enumerate(plan['l_user']):
            el = UserElement(kind) if isinstance(kind, str) else simulator.Propagator(distance=kind)
            at %= len(items) + 1
            if not isinstance(kind, str):
                at = max(at, len(self.prog.front()))
            items.insert(at, ('elem', f'user{j}', el, None))
        self.groups = []

        def group(content, cid):
            return ('seq', f'seq{cid}', list(content), cid)
        for j, (a, n) in enumerate(plan['l_cuts']):
            if not items:
                break
            a %= len(items)
            b = min(len(items), a + 1 + n)
            items[a:b] = [group(items[a:b], 1 + j)]
        self.root = group(items, 0)
        # containers in depth-first order, the root first
        self.containers = []

        def walk(it):
            if it[0] == 'seq':
                self.containers.append(it)
                for x in it[2]:
                    walk(x)
            elif it[3] is not None and it[3]['t'] in ('par', 'gas', 'detpar') and isinstance(it[2], simulator.Parallel):
                self.containers.append(it)
        walk(self.root)
        self.hooks = [{'pre': [], 'post': []} for _ in self.containers]
        self.objs = {}

    def build(self, it):
        """The marxs object for an item (hooks included)."""
        from marxs import simulator
        k = [j for j, c in enumerate(self.containers) if c is it]
        if it[0] == 'elem':
            if k:
                it[2].preprocess_steps = list(self.hooks[k[0]]['pre'])
                it[2].postprocess_steps = list(self.hooks[k[0]]['post'])
                self.objs[k[0]] = it[2]
            return it[2]
        elems = [self.build(x) for x in it[2]]
        h = self.hooks[k[0]]
        kw = {}
        if h['pre']:
            kw['preprocess_steps'] = list(h['pre'])
        if h['post']:
            kw['postprocess_steps'] = list(h['post'])
        obj = simulator.Sequence(elements=elems, name=it[1], **kw)
        self.objs[k[0]] = obj
        return obj

    def add_late(self, k, when, hook):
        """Attach a hook to a container that has been used already."""
        self.hooks[k][when].append(hook)
        if self.real:
            getattr(self.objs[k], when + 'process_steps').append(hook)


def ref_call(tree, it, photons):
    """The reference: what running a container means."""
    k = [j for j, c in enumerate(tree.containers) if c is it]
    if not k:
        return it[2](photons)
    h = tree.hooks[k[0]]
    children = [lambda p, x=x: ref_call(tree, x, p) for x in it[2]] if it[0] == 'seq' else list(it[2].elements)
    for child in children:
        for f in list(h['pre']):
            f(photons)
        photons = child(photons)
        for f in list(h['post']):
            f(photons)
    return photons


class Log:
    def __init__(self):
        self.calls = []
        self.ncall = 0
        self.raise_at = None
        self.fired = False


def attempt(log):
    n = log.ncall
    log.ncall += 1
    if log.raise_at is not None and n == log.raise_at:
        log.fired = True
        raise lib.UserError(f'hook call {n}')


class ModelKeep:
    def __init__(self, col):
        self.colname = col
        self.data = []

    def __call__(self, photons):
        if self.colname not in photons.colnames:
            raise KeyError(self.colname)
        self.data.append(np.array(photons[self.colname], copy=True))


def mk_hooks(tree, plan, log, side):
    """Hook functions for one side ('real' or 'ref'), in the order of the plan."""
    from marxs import simulator
    recorders = {}
    out = []
    keeps = []
    for j, h in enumerate(plan['l_hooks']):
        inner = None
        if h['t'] == 'keep':
            key = (h['share'], h['col']) if h['share'] is not None else ('own', j)
            if key not in recorders:
                recorders[key] = simulator.KeepCol(h['col']) if side == 'real' else ModelKeep(h['col'])
                keeps.append(recorders[key])
            inner = recorders[key]
            direct = side == 'real' and h['f'] < .6    # hand over the recorder itself

            if direct:
                out.append((h, inner))
                continue
            if side == 'ref' and h['f'] < .6:
                out.append((h, inner))
                continue
        busy = [False]
        count = [0]

        def hook(photons, j=j, h=h, inner=inner, busy=busy, count=count):
            attempt(log)
            log.calls.append((j, len(photons), lib.table_digest(photons), repr({k: v for k, v in photons.meta.items() if k not in lib.STAMPS})[:3000]))
            if inner is not None:
                inner(photons)
            elif h['t'] == 'mark':
                photons.meta['MARK%d' % j] = photons.meta.get('MARK%d' % j, 0) + 1
            elif h['t'] == 'edit' and 'probability' in photons.colnames:
                photons['probability'][:] *= h['f']
                photons['userf'][:] += 1
            elif h['t'] == 'replace' and 'pos' in photons.colnames:
                photons['pos'] = photons['pos'] + 0.
                photons['energy'] = photons['energy'] * 1.
                photons['pos'][:, 3] = 1
            elif h['t'] == 'addcol':
                photons['extra'] = np.full(len(photons), len(log.calls))
            elif h['t'] == 'nest' and not busy[0]:
                count[0] += 1
                if count[0] == h['at'] + 1:
                    busy[0] = True
                    try:
                        nested(tree, tree.containers[h['c'] % len(tree.containers)], photons)
                    finally:
                        busy[0] = False
        out.append((h, hook))
    return out, keeps


def nested(tree, it, photons):
    """A hook starts another run of a container with a few photons."""
    def names(x):
        return [x[1]] if x[0] == 'elem' else [n for y in x[2] for n in names(y)]
    inside = names(it)
    if 'pointing' in inside:
        sub = tree.initial[:2].copy()
    elif 'dir' not in photons.colnames or ('pos' not in photons.colnames and 'aperture' not in inside):
        return
    else:
        sub = photons[:2].copy()
    run_container(tree, it, sub)


def run_container(tree, it, photons):
    if tree.real:
        k = [j for j, c in enumerate(tree.containers) if c is it][0]
        return tree.objs[k](photons)
    return ref_call(tree, it, photons)


class Side:
    def __init__(self, plan, real):
        self.tree = Tree(plan, real)
        self.log = Log()
        self.hooks, self.keeps = mk_hooks(self.tree, plan, self.log, 'real' if real else 'ref')
        self.late = []
        for h, f in self.hooks:
            k = h['c'] % len(self.tree.containers)
            if h['late']:
                self.late.append((k, h['when'], f))
            else:
                self.tree.hooks[k][h['when']].append(f)
        if real:
            self.tree.build(self.tree.root)

    def run(self, r, abort=None):
        """Returns (outcome, photons, lengths of the recorders afterwards)."""
        cb = self.tree.prog.cb
        cb.faults = {}
        cb.fired = []
        self.log.ncall = 0
        self.log.raise_at = r['raise']
        self.log.fired = False
        np.random.seed(r['seed'] % 2**32)
        src = dict(self.tree.prog.spec['source'], n_phot=r['n_phot'])
        photons = self.tree.prog.source.generate_photons(lib.exposure(src))
        photons = watch.add_user_columns(photons)
        self.tree.initial = photons.copy()
        cb.n = 0
        cb.faults = {f['n']: f for f in r['l_faults']}
        out = None
        status = 'ok'
        try:
            if abort is not None:
                n = [0]

                def hook(code, line):
                    n[0] += 1
                    if n[0] == abort:
                        raise world.SimCrash(f'{code.co_name}')
                with world.Steps(hook=hook):
                    out = run_container(self.tree, self.tree.root, photons)
            else:
                out = run_container(self.tree, self.tree.root, photons)
        except lib.UserError:
            status = 'raise'
        except world.SimCrash:
            status = 'abort'
        except KeyError as e:
            if any(k.colname in str(e) and k.colname not in photons.colnames for k in self.keeps) or 'extra' in str(e):
                status = 'nocolumn'
            else:
                raise
        return status, photons, out


def same_snap(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.dtype.kind == b.dtype.kind and lib.same_array(a, b)


def check_keep(k, m, exact, where):
    """Recorder k against the model m; exact: as many snapshots, else a prefix.  Returns the number of snapshots."""
    n = len(k.data)
    if n > len(m) or (exact and n != len(m)):
        raise Violation('snapshot-count', f'{where}: recorder of {k.colname} holds {n} snapshots, {len(m)} calls were made')
    for j in range(n):
        if not same_snap(k.data[j], m[j]):
            raise Violation('snapshot-wrong', f'{where}: recorder of {k.colname}, snapshot {j} is {np.asarray(k.data[j])!r} but the column was {m[j]!r}')
    return n


def run(plan, obs):
    if not plan['l_runs'] or not plan['l_hooks']:
        return
    real, ref = Side(plan, True), Side(plan, False)
    live = []
    used = [0] * len(real.keeps)
    for i, r in enumerate(plan['l_runs']):
        if i == 1:
            for s in (real, ref):
                for k, when, f in s.late:
                    s.tree.add_late(k, when, f)
        nlog = len(ref.log.calls)
        nlogr = len(real.log.calls)
        if nlog != nlogr:
            raise HarnessError('logs out of step')
        before = [len(k.data) for k in real.keeps]
        sref, pref, oref = ref.run(r)
        sreal, preal, oreal = real.run(r, r['abort'])
        obs.event(i, sreal, len(real.log.calls))
        if sreal == 'abort':
            obs.fault('interrupt')
        elif r['l_faults'] and real.tree.prog.cb.fired:
            obs.fault('failing-user-function')
        elif real.log.fired:
            obs.fault('failing-hook')
        elif sreal == 'nocolumn':
            obs.fault('missing-column')
        where = f'run {i} ({sreal})'
        if sreal != 'abort' and sreal != sref:
            raise Violation('outcome', f'{where}: running the container ended with {sreal}, element by element it ends with {sref}')
        # hook calls
        want, got = ref.log.calls[nlog:], real.log.calls[nlog:]
        names = [f"{h['when']}:{h['t']}@{h['c'] % len(real.tree.containers)}" for h, f in real.hooks]
        for j, g in enumerate(got):
            if j >= len(want):
                raise Violation('extra-hook-call', f'{where}: hook call {j} ({names[g[0]]}) was made after all {len(want)} expected calls')
            if g[0] != want[j][0]:
                raise Violation('hook-order', f'{where}: hook call {j} is {names[g[0]]}, expected {names[want[j][0]]}')
            if g[1:] != want[j][1:]:
                raise Violation('hook-photons', f'{where}: hook call {j} ({names[g[0]]}) got a photon list that differs from the photons at that point '
                                f'({g[1]} vs {want[j][1]} photons, digests {g[2]} {want[j][2]}, header {g[3] == want[j][3]})')
        if sreal != 'abort' and len(got) != len(want):
            raise Violation('missing-hook-call', f'{where}: {len(got)} hook calls, expected {len(want)}; next is {names[want[len(got)][0]]}')
        obs.count('hook-calls', len(got))
        for g in got:
            obs.event(g[0], g[1], g[2])
        # recorders
        for j, (k, m) in enumerate(zip(real.keeps, ref.keeps)):
            n = check_keep(k, m.data, sreal != 'abort', where)
            obs.count('snapshots', n - before[j])
            if sreal == 'abort':
                # the model continues from where the recorder was interrupted
                del m.data[n:]
        if sreal == 'abort':
            del ref.log.calls[nlog + len(got):]
        if sreal == 'ok':
            d = lib.table_diff(oreal, oref)
            if d:
                raise Violation('result-differs', f'{where}: result of the container and of the elements one by one: {d}')
        for t in (preal, oreal):
            if t is not None:
                live.append(t)
        # snapshots are private
        for k in real.keeps:
            for s in k.data[-3:]:
                for t in live[-2:]:
                    if k.colname in t.colnames and np.asarray(s).size and np.shares_memory(np.asarray(s), np.asarray(t[k.colname])):
                        raise Violation('snapshot-shared', f'{where}: a snapshot of {k.colname} shares memory with the photon list')
        obs.state(sreal, i, len(got) > 0)
        if sreal == 'abort' and any(h['t'] == 'nest' for h in plan['l_hooks']):
            break
    # whatever happens to the photons later
    for t in live:
        for c in t.colnames:
            x = np.asarray(t[c])
            if x.flags.writeable:
                x[...] = '?' if x.dtype.kind == 'U' else 0 if x.dtype.kind == 'b' else -77
        t.meta.clear()
        t.remove_columns(t.colnames[:2])
    for k, m in zip(real.keeps, ref.keeps):
        check_keep(k, m.data, True, 'after the photons were changed')
    views(plan, obs, real, ref)
    obs.state(tuple(lib.features(plan['spec'])), len(plan['l_cuts']), tuple((h['t'], h['when']) for h in plan['l_hooks']))
    if len(real.log.calls) + sum(len(k.data) for k in real.keeps) >= 3 and any(len(k.data) for k in real.keeps):
        obs.nontrivial = True


def views(plan, obs, real, ref):
    for k, m in zip(real.keeps, ref.keeps):
        if not m.data:
            continue
        shapes = {d.shape for d in m.data}
        for kw in ({}, {'dtype': np.float32} if m.data[0].dtype.kind in 'fi' else {}):
            try:
                arr = np.asarray(k, **kw)
            except ValueError:
                if len(shapes) == 1:
                    raise
                obs.count('views-refused')
                arr = None
            if arr is not None:
                if len(shapes) > 1:
                    raise Violation('view-mixed', f'array of snapshots with different shapes {shapes}: {arr.shape}')
                want = np.stack(m.data)
                if arr.shape != want.shape or not np.array_equal(arr, want.astype(arr.dtype), equal_nan=arr.dtype.kind == 'f'):
                    raise Violation('view-wrong', f'array view of {k.colname} with {len(m.data)} snapshots has shape {arr.shape}')
                if kw and arr.dtype != kw['dtype']:
                    raise Violation('view-dtype', f'array view has type {arr.dtype}')
                obs.count('views')
        if k.colname == 'pos':
            for atol in plan['l_format']:
                check_format(obs, k, m.data, atol, shapes)
        check_keep(k, m.data, True, 'after array views')


def check_format(obs, k, data, atol, shapes):
    if len(shapes) > 1:
        try:
            out = k.format_positions(atol=atol)
        except ValueError:
            obs.count('views-refused')
            return
        raise Violation('view-mixed', f'format_positions of snapshots with shapes {shapes} gives {out.shape}')
    w = np.stack([d[:, 3] for d in data])
    if not np.allclose(w, 1):
        return
    xyz = [d[:, :3] for d in data]
    out = np.asarray(k.format_positions(atol=atol))
    obs.count('position-views')
    if out.ndim != 3 or out.shape[0] != len(xyz[0]) or out.shape[2] != 3:
        raise Violation('positions-shape', f'format_positions({atol}) has shape {out.shape} for {len(xyz)} snapshots of {len(xyz[0])} photons')
    same = lambda a, b: np.array_equal(a, b, equal_nan=True)
    if atol is None:
        if out.shape[1] != len(xyz) or not all(same(out[:, j], xyz[j]) for j in range(len(xyz))):
            raise Violation('positions-wrong', f'format_positions() has {out.shape[1]} points per ray for {len(xyz)} snapshots')
        return
    # a and b identical within tolerance: 'yes', 'no', or too close to call
    def close(a, b):
        d = np.abs(a - b)
        nan = np.isnan(a) & np.isnan(b)
        if np.any(np.isnan(a) ^ np.isnan(b)):
            return 'no'
        lim = atol + 1e-5 * np.abs(b)
        lim2 = atol + 1e-5 * np.abs(a)
        if np.any((d > np.maximum(lim, lim2) * (1 + 1e-9)) & ~nan):
            return 'no'
        if np.all((d <= np.minimum(lim, lim2) * (1 - 1e-9)) | nan):
            return 'yes'
        return '?'
    keep = [0]
    for j in range(1, len(xyz)):
        c = close(xyz[keep[-1]], xyz[j])
        if c == '?':
            obs.count('positions-too-close-to-call')
            return
        if c == 'no':
            keep.append(j)
    if out.shape[1] != len(keep) or not all(same(out[:, j], xyz[keep[j]]) for j in range(len(keep))):
        raise Violation('positions-wrong', f'format_positions({atol}) has {out.shape[1]} points per ray, expected snapshots {keep} of {len(xyz)}')
    if len(keep) < len(xyz):
        obs.count('duplicates-removed', len(xyz) - len(keep))
