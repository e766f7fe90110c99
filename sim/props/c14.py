"""C14: provenance in the header of photon lists is true at the time it is stamped, stays, and protects against mixing simulations."""
import copy
import datetime as _dtm
import json
import os
import re
import subprocess
import sys
import numpy as np
from sim import lib, world, watch
from sim.core import Violation, HarnessError

ID = 'C14'
TECHNIQUE = ('deterministic simulation: histories of photon generation, tagging, instrument runs, checkpoints and merges under a simulated clock (steps per '
             'reading and per source line, midnight, forward and backward jumps), environment (user, host, unset) and interrupts; stamps are compared '
             'with the readings of the simulated clock and a header model, the consistency checks with a small reference')
RULE = 'at least one list was generated and a stamp or a decision of a consistency check compared; distinct = distinct event log'
STATE_MEASURE = 'hash of (sequence of operations, kind of clock, environment)'
ASSUMPTIONS = ['SIMDATE and SIMTIME may be any one reading of the clock during the call, rounded or cut to full seconds or better',
               'for unset USER or HOST only a string is required that is not the name of an earlier user or host',
               'only in-memory headers are compared with each other by the consistency check (FITS drops comments of keywords)']
REAL = ['marxs.base', 'marxs.source', 'marxs.optics', 'marxs.simulator', 'marxs.missions.chandra.Chandra', 'astropy ECSV and FITS writers']
STUB = ['clock', 'environment variables', 'user functions']
N = {'quick': 1500, 'thorough': 40000}
TIMEOUT = 150

DAY = 86400.
KEYS = ['ORIGIN', 'CREATOR', 'MARXSVER', 'MARXSGIT', 'MARXSTIM']
NAMES = ['alice', 'bob', 'root', 'x y', 'user-7']
HOSTS = ['h1', 'node17', 'cluster.example.org']


def gen_src(rng):
    s = lib.gen_source(rng, maxn=8)
    return s


def gen(rng, i, tier):
    mid = 20000 * DAY
    plan = {'clock': {'start': rng.choice([mid - .002, mid - 1., mid - 3600., mid - 1e-4, 1.7e9 + rng.random(), 1.7e9, 951782399.5, 0.]),
                      'tick': rng.choice([0., 1e-4, 1e-3, .5, 1800., 43200.]), 'line': rng.choice([0., 0., 1e-5, 1e-3, 1., 600.]),
                      'jumps': {str(rng.randrange(12)): rng.choice([-DAY, DAY, -1e6, 3600., -.5, 366 * DAY]) for _ in range(rng.choice([0, 0, 1, 2]))}},
            'user': rng.choice(NAMES + [None]), 'host': rng.choice(HOSTS + [None]),
            'l_tags': [], 'l_src': [], 'l_ops': [], 'optimised': i % 60 == 13}
    for _ in range(rng.choice([1, 2, 2])):
        plan['l_src'].append({'spec': lib.gen_spec(rng, maxn=8), 'unit': rng.choice(['s', 'ks', 'min', 'h', 'ms'])})
    for j in range(rng.choice([1, 2, 3])):
        t = {}
        for k in rng.sample(['ORIGIN', 'CREATOR', 'OBSERVER', 'TELESCOP', 'note'], rng.randint(0, 3)):
            t[k] = rng.choice([f'v{j}', [f'v{j}', 'comment'], 17 + j, 2.5])
        plan['l_tags'].append(t)
    for _ in range(rng.choice([3, 5, 8, 12])):
        op = rng.choice(['generate', 'generate', 'generate', 'tag', 'tag', 'run', 'env', 'sleep', 'nested', 'interrupt', 'edit', 'check', 'check', 'check', 'check3', 'energy', 'checkpoint', 'chandra'])
        plan['l_ops'].append({'op': op, 'a': rng.randrange(8), 'b': rng.randrange(8), 'c': rng.randrange(8), 'x': rng.random(),
                              'user': rng.choice(NAMES + [None, None]), 'host': rng.choice(HOSTS + [None, None]),
                              'dt': rng.choice([1., 3600., DAY, -DAY, -3600., 400 * DAY]),
                              'kw': rng.choice([None, None, {'OBSERVER': 'o%d' % rng.randrange(3)}, {'ORIGIN': 'call'}, {'runid': rng.randrange(9)}]),
                              'key': rng.choice(KEYS + ['ORIGIN', 'CREATOR', 'OBSERVER']), 'what': rng.choice(['set', 'set', 'copy', 'del', 'add', 'comment']),
                              'keywords': rng.choice([None, None, None, ['ORIGIN'], ['OBSERVER', 'CREATOR'], [], ['SIMUSER', 'MARXSVER'], ['EXPOSURE']]),
                              'missing': rng.choice([None, True, False]), 'fmt': rng.choice(['ascii.ecsv', 'fits', 'pickle']), 'n': rng.randint(1, 400)})
    return plan


def val(v):
    return v[0] if isinstance(v, (tuple, list)) and len(v) else v


def parse_time(s):
    m = re.fullmatch(r'(\d\d):(\d\d):(\d\d)(?:\.(\d*))?', s.strip())
    if not m:
        return None
    return int(m[1]) * 3600 + int(m[2]) * 60 + int(m[3]) + (float('0.' + m[4]) if m[4] else 0.)


def utc(t):
    return _dtm.datetime.fromtimestamp(t, _dtm.timezone.utc)


class State:
    def __init__(self, plan, obs):
        w = world.current()
        c = plan['clock']
        self.clock = w.clock = world.Clock(c['start'], c['tick'], c['jumps'])
        self.line = c['line']
        self.users, self.hosts = set(), set()
        self.lists = []     # [table, model header, spec index, state]
        self.obs = obs
        self.progs = {}
        self.setenv(plan['user'], plan['host'])

    def setenv(self, user, host):
        self.user, self.host = user, host
        for name, v in (('USER', user), ('HOST', host)):
            if v is None:
                os.environ.pop(name, None)
                self.obs.fault('unset-user-or-host')
            else:
                os.environ[name] = v
        for n in ('LOGNAME', 'LNAME', 'USERNAME', 'HOSTNAME'):
            os.environ.pop(n, None)

    def steps(self, abort=None):
        n = [0]

        def hook(code, line):
            n[0] += 1
            if abort is not None and n[0] == abort:
                raise world.SimCrash(code.co_name)
            if self.line:
                self.clock.advance(self.line)
        return world.Steps(hook=hook)


def dates(readings, start, end, ticking):
    out = {utc(r).date().isoformat() for r in readings}
    return out or {utc(start).date().isoformat(), utc(end).date().isoformat()}


def check_stamps(st, photons, readings, exposure, where, user, host):
    import marxs
    m = photons.meta
    for k in ('EXPOSURE', 'MARXSVER', 'SIMDATE', 'SIMTIME', 'SIMUSER', 'SIMHOST'):
        if k not in m:
            raise Violation('stamp-missing', f'{where}: header has no {k}')
    if abs(float(val(m['EXPOSURE'])) - exposure) > 1e-9 * exposure:
        raise Violation('stamp-exposure', f"{where}: EXPOSURE is {m['EXPOSURE']} for an exposure of {exposure} s")
    if str(val(m['MARXSVER'])) != str(marxs.__version__):
        raise Violation('stamp-version', f"{where}: MARXSVER is {m['MARXSVER']}, the code is {marxs.__version__}")
    for k, want, old in (('SIMUSER', user, st.users), ('SIMHOST', host, st.hosts)):
        v = val(m[k])
        if not isinstance(v, str) or (want is not None and v != want) or (want is None and (v in old or not v)):
            raise Violation('stamp-' + k.lower(), f'{where}: {k} is {v!r}, environment says {want!r}')
    d, t = str(val(m['SIMDATE'])), str(val(m['SIMTIME']))
    sec = parse_time(t)
    if sec is None:
        raise Violation('stamp-time', f'{where}: SIMTIME is {t!r}')
    for r in readings:
        x = utc(r)
        rs = x.hour * 3600 + x.minute * 60 + x.second + x.microsecond * 1e-6
        if x.date().isoformat() == d and abs(rs - sec) < 1.000001:
            return
    raise Violation('stamp-instant', f'{where}: SIMDATE {d} and SIMTIME {t} are not one instant during the run; the clock was read at {[str(utc(r)) for r in readings[:6]]}')


def generate(st, plan, k, where, inner=None, abort=None):
    """One call of generate_photons.  inner: called from a user function while photons are generated."""
    import astropy.units as u
    s = plan['l_src'][k % len(plan['l_src'])]
    k = k % len(plan['l_src'])
    if k not in st.progs:
        st.progs[k] = lib.Program(s['spec'])
    prog = st.progs[k]
    exposure = lib.exposure(s['spec']['source']).to(getattr(u, s['unit']))
    user, host = st.user, st.host
    st.users.discard(user)
    n0 = len(st.clock.readings)
    busy = [False]
    nested = []

    def hook(label):
        if inner is not None and not busy[0] and not nested:
            busy[0] = True
            n1 = len(st.clock.readings)
            nested.append((n1, inner()))
            nested[-1] += (len(st.clock.readings),)
            busy[0] = False
    old = prog.cb.hook
    prog.cb.hook = hook
    try:
        if inner is not None or (not st.line and abort is None):
            photons = prog.source.generate_photons(exposure)
        else:
            with st.steps(abort):
                photons = prog.source.generate_photons(exposure)
    finally:
        prog.cb.hook = old
    readings = list(st.clock.readings[n0:])
    if nested:
        readings = st.clock.readings[n0:nested[0][0]] + st.clock.readings[nested[0][2]:]
        st.obs.count('nested-generation')
    check_stamps(st, photons, readings, float(exposure.to_value(u.s)), where, user, host)
    st.users.add(user)
    st.hosts.add(host)
    st.obs.event('gen', val(photons.meta['SIMDATE']), val(photons.meta['SIMTIME']), len(photons))
    st.obs.count('lists-generated')
    st.lists.append([photons, dict(photons.meta), k, 'new'])
    return photons


def check_header(st, j, where):
    t, model = st.lists[j][:2]
    for k, v in model.items():
        if k not in t.meta:
            raise Violation('stamp-lost', f'{where}: keyword {k} is gone from list {j}')
        if t.meta[k] != v:
            raise Violation('stamp-changed', f'{where}: keyword {k} of list {j} is {t.meta[k]!r}, it was {v!r}')


def ref_consistent(m1, m2, keywords, missing):
    """Keywords that do not agree."""
    bad = []
    for k in keywords:
        if k in m1 and k in m2:
            if m1[k] != m2[k]:
                bad.append(k)
        elif (k in m1) != (k in m2) or not missing:
            bad.append(k)
    return bad


def run(plan, obs):
    from marxs import base
    st = State(plan, obs)
    tags = []
    for t in plan['l_tags']:
        kw = {k: tuple(v) if isinstance(v, list) else v for k, v in t.items()}
        given = dict(kw)
        tags.append((base.TagVersion(**kw), given))
    if not plan['l_src'] or not tags:
        return
    names = []
    checked = 0
    cases = []
    for i, op in enumerate(plan['l_ops']):
        o = op['op']
        where = f'step {i} ({o})'
        if o != 'generate' and o not in ('env', 'sleep', 'interrupt', 'nested') and not st.lists:
            o = 'generate'
        names.append(o)
        if o == 'generate':
            generate(st, plan, op['a'], where)
        elif o == 'nested':
            def inner():
                return generate(st, plan, op['b'] + 1 if (op['b'] % len(plan['l_src'])) == (op['a'] % len(plan['l_src'])) else op['b'], where + ' inner')
            generate(st, plan, op['a'], where, inner=inner if len(plan['l_src']) > 1 else None)
        elif o == 'interrupt':
            try:
                generate(st, plan, op['a'], where, abort=op['n'])
            except world.SimCrash:
                obs.fault('interrupt')
        elif o == 'env':
            st.setenv(op['user'], op['host'])
        elif o == 'sleep':
            st.clock.advance(op['dt'])
            obs.fault('clock-jump')
        else:
            j = op['a'] % len(st.lists)
            photons, model, k, state = st.lists[j]
            if o == 'tag':
                tag, given = tags[op['b'] % len(tags)]
                kw = dict(op['kw'] or {})
                n0 = len(st.clock.readings)
                t0 = st.clock.t
                before = dict(photons.meta)
                with st.steps():
                    out = tag(photons, **kw)
                if out is None:
                    raise Violation('returns-nothing', f'{where}: TagVersion returned None')
                photons = out
                ok = dates(st.clock.readings[n0:], t0, st.clock.t, None)
                if str(val(photons.meta.get('DATE'))) not in ok:
                    raise Violation('tag-date', f"{where}: DATE is {photons.meta.get('DATE')!r} but the tag was applied on {sorted(ok)}")
                want = dict(given)
                want.update(kw)
                for kk, v in want.items():
                    if photons.meta.get(kk) != v:
                        raise Violation('tag-value', f'{where}: tag was given {kk}={v!r}, the header has {photons.meta.get(kk)!r}')
                import marxs
                for kk, v in (('ORIGIN', None), ('CREATOR', None), ('MARXSVER', None)):
                    if kk not in photons.meta:
                        raise Violation('tag-missing', f'{where}: the tag did not record {kk}')
                if not str(marxs.__version__).startswith(str(val(photons.meta['MARXSVER']))):
                    raise Violation('tag-version', f"{where}: MARXSVER is {photons.meta['MARXSVER']!r}, the code is {marxs.__version__}")
                allowed = set(want) | {'DATE', 'ORIGIN', 'CREATOR', 'MARXSVER', 'MARXSGIT', 'MARXSTIM'}
                for kk in set(before) | set(photons.meta):
                    if kk not in allowed and before.get(kk) != photons.meta.get(kk):
                        raise Violation('tag-other', f'{where}: the tag changed {kk} from {before.get(kk)!r} to {photons.meta.get(kk)!r}')
                st.lists[j] = [photons, dict(photons.meta), k, state]
                checked += 1
                obs.count('tags')
            elif o in ('run', 'chandra'):
                if state != 'new':
                    continue
                prog = st.progs[k]
                if any(s['t'] == 'tag' for s in prog.spec['l_stages']):
                    for kk in ('DATE', 'ORIGIN', 'CREATOR', 'MARXSVER', 'MARXSGIT', 'MARXSTIM'):
                        model.pop(kk, None)
                with st.steps():
                    if o == 'chandra':
                        from marxs.missions.chandra.chandra_global import Chandra
                        photons = Chandra(elements=[e for n, e, s in prog.all()])(photons)
                        model.update(MISSION=('AXAF', 'Mission'), TELESCOP=('CHANDRA', 'Telescope'))
                        for kk in ('MISSION', 'TELESCOP'):
                            if kk not in photons.meta:
                                raise Violation('stamp-missing', f'{where}: Chandra does not record {kk}')
                            model[kk] = photons.meta[kk]
                    else:
                        for n, e, s in prog.all():
                            photons = e(photons)
                st.lists[j] = [photons, model, k, 'done']
                check_header(st, j, where)
                st.lists[j][1] = dict(photons.meta)
                checked += 1
                obs.count('instrument-runs')
            elif o == 'edit':
                other = st.lists[op['b'] % len(st.lists)][0]
                kk = op['key']
                if op['what'] == 'del':
                    photons.meta.pop(kk, None)
                elif op['what'] == 'copy':
                    for x in KEYS:
                        photons.meta.pop(x, None)
                        if x in other.meta:
                            photons.meta[x] = other.meta[x]
                elif op['what'] == 'comment' and isinstance(photons.meta.get(kk), tuple):
                    photons.meta[kk] = (str(val(photons.meta[kk])) + '*', photons.meta[kk][1])
                else:
                    photons.meta[kk] = 'edited%d' % op['c']
                st.lists[j][1] = dict(photons.meta)
            elif o in ('check', 'check3'):
                idx = [op['a'], op['b']] + ([op['c']] if o == 'check3' else [])
                group = [st.lists[x % len(st.lists)][0] for x in idx]
                kws = op['keywords'] if op['keywords'] is not None else KEYS
                miss = True if op['missing'] is None else op['missing']
                for g in group[1:]:
                    kw = {}
                    if op['keywords'] is not None:
                        kw['keywords'] = list(kws)
                    if op['missing'] is not None:
                        kw['allow_missing'] = miss
                    a, b = copy.deepcopy(dict(group[0].meta)), copy.deepcopy(dict(g.meta))
                    bad = ref_consistent(a, b, kws, miss)
                    try:
                        base.check_meta_consistent(group[0].meta, g.meta, **kw)
                        err = None
                    except (AssertionError, KeyError) as e:
                        err = e
                    cases.append([{x: val(a[x]) for x in a if x in kws}, {x: val(b[x]) for x in b if x in kws}, kws, miss])
                    obs.event('check', bad, err is None)
                    checked += 1
                    obs.count('consistency-checks')
                    if bad and err is None:
                        raise Violation('inconsistent-accepted', f'{where}: lists differ in {bad} but were accepted: {[(a.get(x), b.get(x)) for x in bad]}')
                    if not bad and err is not None:
                        raise Violation('consistent-refused', f'{where}: keywords {kws} agree but the check says {err!r}')
                    if bad and not any(x in str(err) for x in bad):
                        raise Violation('keyword-not-named', f'{where}: the check does not name any of {bad}: {err!r}')
                    if dict(group[0].meta) != a or dict(g.meta) != b:
                        raise Violation('check-changes-header', f'{where}: the consistency check changed a header')
            elif o == 'energy':
                t = photons.copy()
                kind = op['b'] % 6
                want = True
                if kind == 0:
                    t.remove_column('energy')
                elif kind == 1:
                    t = t[:0]
                elif len(t):
                    t['energy'] = np.full(len(t), .5 + op['x'])
                    if kind > 2:
                        t['energy'][op['c'] % len(t)] *= 1 + (1e-3 if kind == 3 else .5 if kind == 4 else -1e-3)
                        want = len(t) == 1
                try:
                    base.check_energy_consistent(t)
                    ok = True
                except AssertionError:
                    ok = False
                checked += 1
                if ok != want:
                    raise Violation('energy-check', f'{where}: energies {list(t["energy"]) if "energy" in t.colnames else None}: check says {ok}')
            elif o == 'checkpoint':
                w = world.current()
                path = os.path.join(w.scratch(), 'ck.' + op['fmt'][-4:])
                if len(photons) == 0:
                    continue
                t = photons
                if op['fmt'] == 'pickle':
                    import pickle
                    t = pickle.loads(pickle.dumps(photons))
                else:
                    photons.write(path, format=op['fmt'], overwrite=True)
                    t = type(photons).read(path, format=op['fmt'])
                up = {str(x).upper(): val(v) for x, v in t.meta.items()}
                for kk, v in model.items():
                    if op['fmt'] == 'fits' and (kk in ('EXTNAME', 'LONGSTRN', 'note', 'runid') or len(kk) > 8):
                        continue
                    if kk.upper() not in up or str(up[kk.upper()]) != str(val(v)):
                        raise Violation('checkpoint-stamp', f"{where}: {kk} was {v!r}, after reading the {op['fmt']} file it is {up.get(kk.upper())!r}")
                checked += 1
                obs.count('checkpoints')
        for j in range(len(st.lists)):
            check_header(st, j, where)
    obs.simtime += st.clock.elapsed
    if st.clock.jumped:
        obs.fault('clock-jump', st.clock.jumped)
    if plan['optimised'] and cases:
        optimised(cases, obs)
    obs.state(tuple(names), plan['clock']['tick'], plan['clock']['line'] > 0, plan['user'] is None)
    if st.lists and (checked or len(st.lists)):
        obs.nontrivial = True


def optimised(cases, obs):
    """The same decisions in an interpreter that ignores assert statements."""
    from sim import core
    code = ('import sys, json\nfrom marxs.base import check_meta_consistent as c, check_energy_consistent as e\nfrom astropy.table import Table\n'
            'out = []\n'
            'for a, b, k, m in json.load(sys.stdin):\n    try:\n        c(a, b, keywords=k, allow_missing=m); out.append(True)\n    except (AssertionError, KeyError): out.append(False)\n'
            'try:\n    e(Table({"energy": [1., 2.]})); out.append(True)\nexcept AssertionError: out.append(False)\n'
            'print("OUT" + json.dumps(out))\n')
    repo = os.path.dirname(core.MARXS.rstrip('/'))
    env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, '-O', '-W', 'ignore', '-c', code], input=json.dumps(cases).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd='/')
    line = [x for x in p.stdout.decode().splitlines() if x.startswith('OUT')]
    if not line:
        raise HarnessError(p.stderr.decode()[-1500:])
    got = json.loads(line[0][3:])
    want = [not ref_consistent(a, b, k, m) for a, b, k, m in cases] + [False]
    obs.count('optimised-interpreter')
    if got != want:
        raise Violation('ignored-by-O', f'python -O: decisions {got}, expected {want}')
