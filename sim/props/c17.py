"""C17: header-or-column quantities of response tables against a model with plain lists."""
import copy
import os
import numpy as np
import astropy.units as u
from sim import world
from sim.core import Violation

ID = 'C17'
TECHNIQUE = ('deterministic simulation of histories of set, partial set, read, copy, slice, write and re-read operations (with disk errors, full disk, '
             'torn writes and crashes while writing) on response tables; every quantity against a model of plain lists after each operation')
RULE = 'the history moved a quantity between header and column; distinct = distinct event log'
STATE_MEASURE = 'hash of (operation kinds with the storage place of the quantity before and after)'
ASSUMPTIONS = ['names of quantities are upper case (FITS keywords)', 'assigning to elements of a value that lives in the header may be refused with an exception',
               'strings in one quantity have the same length (no truncation)', 'at least one column is never assigned to, so that the number of rows is defined']
REAL = ['marxs.reduction.ogip.ColOrKeyTable', 'marxs.reduction.ogip.ColOrKeyColumn', 'marxs.reduction.ogip.ARF', 'astropy.table', 'astropy.io.fits']
STUB = ['disk (fault injecting, in scratch directory)', 'process crash']
N = {'quick': 2000, 'thorough': 60000}
TIMEOUT = 100

NAMES = {'AREA': 'f', 'QUAL': 'i', 'GROUPNAM': 's', 'FLAG': 'b', 'EXPO': 'q', 'VEC': 'v', 'LONGQUANTITY': 'f', 'ORDER': 'i'}


def value(rng, kind):
    return {'f': lambda: rng.choice([0., 1.5, -2.25, 1e-12, 3e5, rng.uniform(-1, 1), float('nan')]),
            'i': lambda: rng.randint(-3, 3), 's': lambda: rng.choice(['abc', 'xyz', 'AAA']), 'b': lambda: rng.random() < .5,
            'q': lambda: rng.choice([0., 1., 2.5]), 'v': lambda: [rng.randint(0, 1) * 1., rng.randint(0, 2) * 1.]}[kind]()


def gen(rng, i, tier):
    n = n0 = rng.choice([1, 2, 2, 3, 5, 9])
    ops = []
    names = list(NAMES)
    for _ in range(rng.randint(2, 16)):
        name = rng.choice(names)
        kind = NAMES[name]
        k = rng.random()
        if k < .3:
            how = rng.choice(['scalar', 'constlist', 'array', 'array', 'list', 'array0d'])
            if how in ('scalar', 'constlist', 'array0d'):
                v = value(rng, kind)
                vals = [v] * n
            else:
                vals = [value(rng, kind) for _ in range(n)]
            ops.append({'op': 'set', 'name': name, 'how': how, 'vals': vals})
        elif k < .55:
            sel = rng.choice(['int', 'neg', 'slice', 'mask', 'fancy', 'all'])
            idx = {'int': lambda: [rng.randrange(n)], 'neg': lambda: [n - 1], 'slice': lambda: list(range(rng.randrange(n), n)),
                   'mask': lambda: [j for j in range(n) if rng.random() < .5], 'all': lambda: list(range(n)),
                   'fancy': lambda: sorted(rng.sample(range(n), rng.randint(1, n)), reverse=True)}[sel]()
            ops.append({'op': 'part', 'name': name, 'sel': sel, 'idx': idx, 'val': value(rng, kind), 'row': sel == 'int' and rng.random() < .2})
        elif k < .63:
            order = list(range(n))
            rng.shuffle(order)
            ops.append({'op': 'loop', 'name': name, 'order': order, 'vals': [value(rng, kind) for _ in range(n)]})
        elif k < .7:
            ops.append({'op': 'subpart', 'name': name, 'from': rng.randrange(n), 'val': value(rng, kind)})
        elif k < .75:
            ops.append({'op': 'badlen', 'name': name, 'vals': [value(rng, kind) for _ in range(n + rng.choice([-1, 1, 2]))]})
        elif k < .8:
            ops.append({'op': 'copy', 'use': rng.choice(['old', 'new'])})
        elif k < .83 and n > 1:
            ops.append({'op': 'rows', 'idx': sorted(rng.sample(range(n), rng.randint(1, n)))})
            n = len(ops[-1]['idx'])
        elif k < .87:
            ops.append({'op': 'absent'})
        else:
            ops.append({'op': 'file', 'adopt': rng.random() < .6, 'inproc': rng.random() < .4, 'reuse': rng.random() < .3, 'fault': rng.choice([None, None, {
                'op': rng.choice(['write', 'open', 'close', '*']), 'n': rng.randrange(4), 'kind': rng.choice(['EIO', 'ENOSPC', 'torn', 'crash']),
                'frac': rng.random()}])})
    start = [nm for nm in names if rng.random() < .4]
    return {'nrow0': n0, 'cls': rng.choice(['table', 'arf']), 'start': {nm: [value(rng, NAMES[nm]) for _ in range(n0)] for nm in start},
            'hdr': {nm: value(rng, NAMES[nm]) for nm in ('ORDER', 'AREA') if nm not in start and rng.random() < .5}, 'l_ops': ops}


def to_value(kind, v):
    if kind == 'q':
        return v * u.s
    return v


def to_array(kind, vals, how='array'):
    if how == 'scalar':
        return np.array(vals) if kind == 'v' else to_value(kind, vals[0])
    if how == 'array0d' and kind in 'fi':
        return np.array(vals[0])
    if how in ('list', 'constlist') and kind != 'q':
        return list(vals)
    if kind == 'q':
        return np.array(vals) * u.s
    return np.array(vals, dtype={'f': float, 'i': int, 's': 'U3', 'b': bool, 'v': float}[kind])


def read_back(t, name, n):
    """Value of a quantity through the column interface, one entry per row."""
    x = t[name]
    if hasattr(x, 'filled'):
        x = np.ma.asarray(x).astype(float).filled(np.nan) if x.dtype.kind == 'f' else x.filled('' if x.dtype.kind in 'US' else 0)
    if isinstance(x, u.Quantity):
        x = x.to(u.s).value
        if hasattr(x, 'unmasked'):
            x = np.where(x.mask, np.nan, x.unmasked)
    if getattr(x, 'unit', None) is not None:
        raise Violation('unit', f'{name}: unit {x.unit} on something that is not a Quantity')
    if NAMES[name] == 'v':
        return np.broadcast_to(np.asarray(x, dtype=float), (n, 2))
    if np.ndim(x) == 0:
        return [x] * n
    return [v for v in x]


def same(kind, got, want):
    if len(got) != len(want):
        return False
    for a, b in zip(got, want):
        if kind == 'v':
            if list(a) != list(b):
                return False
        elif kind == 's':
            if isinstance(a, bytes):
                a = a.decode()
            if str(a) != b:
                return False
        elif kind in 'fq':
            a = float(a)
            if not (a == b or (a != a and b != b) or abs(a - b) <= 1e-14 * abs(b)):
                return False
        elif kind == 'b':
            if bool(a) != b or isinstance(a, (str, bytes)):
                return False
        elif a != b:
            return False
    return True


def place(t, name):
    return ('c' if name in t.colnames else '') + ('h' if name in t.meta else '')


def shape_of(t):
    return sorted(t.colnames), sorted((k, repr(v)) for k, v in t.meta.items()), len(t)


def check(t, model, n, who, obs=None):
    before = shape_of(t)
    for name, vals in model.items():
        kind = NAMES[name]
        pl = place(t, name)
        if pl == 'ch':
            raise Violation('stored-twice', f'{who}: {name} is in the header ({t.meta[name]!r}) and in a column', key='stored-twice')
        try:
            got = read_back(t, name, n)
        except (TypeError, ValueError) as ex:
            raise Violation('unreadable', f'{who}: {name} (stored: {pl}) cannot be interpreted: {ex!r}; expected {vals}'[:300], key='unreadable:' + kind)
        except KeyError:
            raise Violation('lost', f'{who}: {name} is neither in the header nor a column, expected {vals}', key='lost')
        if not same(kind, got, vals):
            raise Violation('wrong-value', f'{who}: {name} (stored: {pl}) reads {[str(g) for g in got]}, expected {vals}'[:300], key='wrong-value:' + kind)
    for c in t.colnames:
        if c in NAMES and c not in model:
            raise Violation('extra', f'{who}: column {c} appeared')
    if len(t) != n:
        raise Violation('rows', f'{who}: table has {len(t)} rows, expected {n}')
    if shape_of(t) != before:
        raise Violation('reading-changes', f'{who}: reading the quantities changed the table from {before} to {shape_of(t)}'[:400])


def run(plan, obs):
    from marxs.reduction.ogip import ColOrKeyTable, ARF
    w = world.current()
    root = w.scratch()
    n = plan['nrow0']
    cls = ColOrKeyTable if plan['cls'] == 'table' else ARF
    data = {'ENERG_LO': np.arange(n) * u.keV, 'ENERG_HI': np.arange(1, n + 1) * u.keV, 'SPECRESP': np.arange(n) * u.cm**2}
    model = {}
    for nm, vals in plan['start'].items():
        model[nm] = list(vals[:n])
        data[nm] = to_array(NAMES[nm], model[nm])
    t = cls(data, meta={'TELESCOP': 'sim', 'INSTRUME': 'none', 'FILTER': 'none', **plan['hdr']})
    for nm, v in plan['hdr'].items():
        if v == v:   # a header cannot hold NaN
            model[nm] = [v] * n
        else:
            del t.meta[nm]
    check(t, model, n, 'new table')
    others = []
    nfile = 0
    trace = []
    for k, op in enumerate(plan['l_ops']):
        who = f"operation {k} ({op['op']} {op.get('name', '')} {op.get('how', op.get('sel', ''))})"
        name = op.get('name')
        kind = NAMES.get(name)
        pl = place(t, name) if name else ''
        if any(len(op.get(x, [])) > n for x in ('order',)) or any(j >= n for j in op.get('idx', [])) or op.get('from', 0) >= n:
            continue   # left over by minimisation
        if op['op'] == 'set':
            vals = (list(op['vals']) * n)[:n]
            t[name] = to_array(kind, vals, op['how'])
            model[name] = vals
        elif op['op'] == 'badlen':
            vals = op['vals']
            if len(vals) in (0, 1, n) or all(v == vals[0] for v in vals):
                continue
            old = model.get(name)
            try:
                t[name] = to_array(kind, vals)
            except Exception:  # noqa
                obs.count('wrong-length-refused')
            else:
                raise Violation('wrong-length', f'{who}: {len(vals)} values were accepted for {n} rows')
            assert model.get(name) == old
        elif op['op'] in ('part', 'subpart', 'loop'):
            if name not in model:
                continue
            new = list(model[name])
            if op['op'] == 'part':
                for j in op['idx']:
                    new[j] = op['val']
            elif op['op'] == 'subpart':
                new[op['from']] = op['val']
            else:
                new = list(op['vals'][:n])
            before = shape_of(t)
            try:
                v = to_value(kind, op['val']) if op['op'] != 'loop' else None
                if op['op'] == 'part':
                    idx = {'int': lambda: op['idx'][0], 'neg': lambda: -1, 'slice': lambda: slice(op['idx'][0], None), 'all': lambda: slice(None),
                           'mask': lambda: np.isin(np.arange(n), op['idx']), 'fancy': lambda: list(op['idx'])}[op['sel']]()
                    if op['sel'] == 'neg':
                        new = list(model[name])
                        new[-1] = op['val']
                    if op['sel'] == 'slice':
                        new = list(model[name])
                        new[op['idx'][0]:] = [op['val']] * (n - op['idx'][0])
                    if op['sel'] == 'all':
                        new = [op['val']] * n
                    if op['row']:
                        t[op['idx'][0]][name] = v
                    else:
                        t[name][idx] = v
                elif op['op'] == 'subpart':
                    t[name][op['from']:][0] = v
                else:
                    col = t[name]
                    for j in op['order']:
                        if j < n:
                            col[j] = to_value(kind, new[j])
            except Violation:
                raise
            except Exception as ex:  # noqa
                if 'c' in pl:
                    raise Violation('partial-set-fails', f'{who}: {name} is a column, but setting elements fails: {ex!r}'[:300],
                                    key=f'partial-set-fails:{type(ex).__name__}')
                obs.count('header-element-refused')
                if shape_of(t) != before:
                    raise Violation('refused-but-changed', f'{who}: setting elements of a header value failed, but the table changed')
            else:
                model[name] = new
        elif op['op'] == 'copy':
            c = t.copy()
            if op['use'] == 'new':
                others.append((k, t, copy.deepcopy(model), n))
                t = c
            else:
                others.append((k, c, copy.deepcopy(model), n))
        elif op['op'] == 'rows':
            others.append((k, t, copy.deepcopy(model), n))
            t = t[list(op['idx'])]
            model = {m: [v[j] for j in op['idx']] for m, v in model.items()}
            n = len(op['idx'])
        elif op['op'] == 'absent':
            before = shape_of(t)
            try:
                t['NOTTHERE']
            except KeyError:
                pass
            else:
                raise Violation('absent', f'{who}: reading a quantity that does not exist returned something')
            if shape_of(t) != before:
                raise Violation('reading-changes', f'{who}: asking for a missing quantity changed the table')
        elif op['op'] == 'file':
            if not op['reuse']:
                nfile += 1
            path = os.path.join(root, f'f{nfile}.fits')
            t2 = to_file(w, t, cls, path, root, op, model, n, who, obs)
            if t2 is not None:
                check(t2, model, n, who + ' read back')
                if op['adopt']:
                    t = t2
                else:
                    others.append((k, t2, copy.deepcopy(model), n))
        if name:
            pl2 = place(t, name)
            trace.append((op['op'], pl, pl2))
            if pl != pl2 and pl:
                obs.nontrivial = True
                obs.count(f'moved-{pl}-to-{pl2}')
        check(t, model, n, who)
        obs.event(k, op['op'], pl, sorted(model), sorted(t.colnames))
    for k, tab, mod, m in others:
        check(tab, mod, m, f'table kept at operation {k}, at the end')
    obs.simtime += len(plan['l_ops'])
    obs.state(*trace)


def to_file(w, t, cls, path, root, op, model, n, who, obs):
    kw = {} if cls.__name__ == 'ARF' else {'format': 'fits'}
    if op['inproc'] and op['fault'] is None:
        t.write(path, overwrite=True, **kw)
        status = 'ok'
    else:
        w.fs = world.FaultFS(root, [op['fault']] if op['fault'] else [])

        def body():
            try:
                t.write(path, overwrite=True, **kw)
                return 'ok'
            except Exception as ex:  # noqa
                return repr(ex)[:200]
        try:
            st, res = world.life(body)
            fired = list(w.fs.fired)
        finally:
            w.fs = None
        for f in fired:
            obs.fault(f'disk:{f[0]}:{f[1]}')
        status = 'crash' if st == 'crash' else 'ok' if res == 'ok' else 'error'
        if status == 'error' and not fired:
            raise Violation('write-fails', f'{who}: {res}')
    obs.count('write-' + status)
    try:
        t2 = cls.read(path, **kw)
    except Exception as ex:  # noqa
        if status == 'ok':
            raise Violation('read-fails', f'{who}: a file that was written cannot be read: {ex!r}'[:300], key=f'read-fails:{type(ex).__name__}')
        obs.count('damaged-file-refused')
        return None
    if status != 'ok' and op['reuse']:
        return None    # may still be the previous version
    return t2
