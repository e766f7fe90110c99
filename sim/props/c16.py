"""C16: order-sorting campaigns under disk faults, crashes and restarts."""
import os
import shutil
import numpy as np
import astropy.units as u
from astropy.io import fits
from astropy.table import QTable
from scipy.stats import norm
from sim import world, core
from sim.core import Violation
import logging
logging.getLogger("marxs").setLevel(logging.CRITICAL)

ID = 'C16'
TECHNIQUE = ('deterministic simulation of order-sorting campaigns on a fault-injecting disk: seeded sets of effective area files, requests and windows, '
             'with disk errors, full disk, torn writes and crashes at arbitrary source lines, restarts in new simulated processes; directory contents '
             'against an independent reference model of the campaign')
RULE = 'at least one fault, crash, existing output or missing input; distinct = distinct event log'
STATE_MEASURE = 'hash of (window type, orders, offsets, inputs present, outcome of each life, operations that failed)'
ASSUMPTIONS = ['order sorting is requested for dispersed orders (not for order 0)',
               'outputs are identified by their CCDORDER and TRUEORD keywords; PDF plots are only required to exist',
               'a fault is "reported" by any exception; a campaign that returns normally has to be complete and correct',
               'inputs that already had order sorting applied have factors above 0.05']
REAL = ['marxs.reduction.osip', 'marxs.reduction.ogip', 'marxs.optics.detector.CCDRedistNormal', 'astropy.io.fits', 'matplotlib (PDF output)']
STUB = ['disk (fault injecting, in scratch directory)', 'process crash', 'operator (restarts)', 'contents of effective area files']
N = {'quick': 300, 'thorough': 6000}
TIMEOUT = 200


def gen(rng, i, tier):
    side = rng.choice([-1, 1])
    lo = rng.randint(1, 6)
    orders = [side * o for o in range(lo, lo + rng.randint(1, 3))]
    if rng.random() < .2:
        orders.append(-orders[0])
    rng.shuffle(orders)
    offs = rng.choice([[-1, 0, 1], [-1, 0, 1], [0], [0, 1], [-2, -1, 0, 1, 2], [1, -1], [0, -3]])
    need = sorted({o + t for o in orders for t in offs if o and (o + t) * o > 0})
    p = rng.choice([0, .2, .5, 1 if rng.random() < .2 else .1])
    inputs = []
    for o in need + ([0] if rng.random() < .3 else []):
        if o == 0 or rng.random() >= p:
            inputs.append({'order': o, 'seed': rng.randrange(2**31), 'resp': rng.choice(['rand', 'rand', 'rand', 'const', 'zero', 'somezero']),
                           'osip': rng.choice([None, None, None, 'const', 'col']), 'stretch': rng.choice([1, 1, 1, .7, 1.6])})
    kind = rng.choice(['width', 'width', 'frac', 'dist'])
    val = {'width': rng.choice([0, 1, 40, 80, 200, 5000]), 'frac': rng.choice([.01, .5, .8, .95, 1 - 1e-6]),
           'dist': rng.choice([.1, .5, .9, 1., 2.])}[kind]
    plan = {'l_orders': orders, 'offs': offs, 'l_inputs': inputs, 'kind': kind, 'val': val, 'sig': rng.choice([[40, 40], [20, 90], [90, 20], [1, 1], [5, 60]]),
            'n_bins': rng.choice([1, 2, 3, 10, 50]), 'emin': rng.choice([.2, .5, 1.]), 'emax': rng.choice([1.5, 2.5]),
            'out': rng.choice(['.', 'out', 'out', 'deep/er']), 'outroot': rng.choice(['', '', 'x_', 'new/']), 'inroot': rng.choice(['', 'in_']),
            'names': rng.choice(['default', 'default', 'channel']), 'warm': rng.random() < .4, 'binlo': rng.random() < .6, 'unit': rng.choice(['eV', 'keV']),
            'l_lives': [], 'last': rng.choice(['plain', 'plain', 'twice', 'fresh'])}
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        k = rng.random()
        ov = rng.random() < .6
        if k < .15:
            plan['l_lives'].append({'k': 'none', 'ov': ov})
        elif k < .4:
            plan['l_lives'].append({'k': 'line', 'at': rng.choice([rng.randint(1, 50), rng.randint(1, 300), rng.randint(1, 700)]), 'ov': ov})
        else:
            op = rng.choice(['write', 'write', 'open', 'close', '*', '*', 'open_r', 'mkdir', 'remove'])
            n = rng.randrange({'write': 40, 'open': 10, 'close': 10, '*': 120, 'open_r': 25, 'mkdir': 2, 'remove': 4}[op])
            if rng.random() < .15:
                plan['l_lives'].append({'k': 'quota', 'bytes': rng.choice([100, 3000, 10000, 30000]), 'ov': ov})
                continue
            plan['l_lives'].append({'k': 'disk', 'ov': ov, 'fault': {'op': op, 'n': n, 'kind': rng.choice(['EIO', 'ENOSPC', 'torn', 'crash', 'EACCES']),
                                                                     'frac': rng.random()}})
    return plan


def fname_channel(filetype='fits', **kw):
    from marxs.reduction.ogip import filename_from_meta
    return 'chan_' + kw['ARCCHAN'] + filename_from_meta(filetype, **kw)


def edges(plan, inp=None):
    return np.linspace(plan['emin'], plan['emax'], plan['n_bins'] + 1) * (inp['stretch'] if inp else 1)


def content(plan, inp):
    """Area and earlier order-sorting factor of an input file."""
    r = np.random.RandomState(inp['seed'])
    n = plan['n_bins']
    resp = {'rand': lambda: r.uniform(1, 100, n), 'const': lambda: np.full(n, 12.5), 'zero': lambda: np.zeros(n),
            'somezero': lambda: r.uniform(1, 100, n) * (r.uniform(size=n) < .5)}[inp['resp']]()
    fac = {None: None, 'const': .25, 'col': r.uniform(.05, 1, n)}[inp['osip']]
    if fac is not None and n == 1:
        fac = .25
    return resp, fac


def write_inputs(plan, root):
    from marxs.reduction.ogip import ARF, filename_from_meta
    names = {}
    for inp in plan['l_inputs']:
        e = edges(plan, inp)
        resp, fac = content(plan, inp)
        cols = [fits.Column('ENERG_LO', 'D', unit='keV', array=e[:-1]), fits.Column('ENERG_HI', 'D', unit='keV', array=e[1:]),
                fits.Column('SPECRESP', 'D', unit='cm2', array=resp)]
        if plan['binlo']:
            cols += [fits.Column('BIN_LO', 'D', unit='Angstrom', array=12.398419843320028 / e[1:]),
                     fits.Column('BIN_HI', 'D', unit='Angstrom', array=12.398419843320028 / e[:-1])]
        if inp['osip'] == 'col' and np.ndim(fac):
            cols.append(fits.Column('OSIPFAC', 'D', array=fac))
        h = fits.BinTableHDU.from_columns(cols, name='SPECRESP')
        for k, v in [('HDUCLASS', 'OGIP'), ('HDUCLAS1', 'RESPONSE'), ('HDUCLAS2', 'SPECRESP'), ('TELESCOP', 'sim'), ('INSTRUME', 'base'),
                     ('FILTER', 'none'), ('ORDER', inp['order']), ('ARCCHAN', '1111'), ('TAG', 100 + inp['order'])]:
            h.header[k] = v
        if fac is not None and not np.ndim(fac):
            h.header['OSIPFAC'] = fac
        f = fname_channel if plan['names'] == 'channel' else filename_from_meta
        kw = {'ARCCHAN': '1111'} if plan['names'] == 'channel' else {}
        name = plan['inroot'] + f('arf', ORDER=inp['order'], **kw)
        fits.HDUList([fits.PrimaryHDU(), h]).writeto(os.path.join(root, name))
        names[inp['order']] = name
    return names


def make_osip(plan):
    from marxs.reduction import osip, ogip
    from marxs.optics.detector import CCDRedistNormal
    red = CCDRedistNormal(tab_width=QTable({'energy': [0.1, 8.] * u.keV, 'sigma': plan['sig'] * u.eV}))
    kw = {'ccd_redist': red, 'offset_orders': list(plan['offs'])}
    if plan['names'] == 'channel':
        kw['filename_from_meta'] = fname_channel
    if plan['kind'] == 'width':
        return osip.FixedWidthOSIP((plan['val'] * u.eV).to(plan['unit']), **kw)
    if plan['kind'] == 'frac':
        return osip.FixedFractionOSIP(plan['val'], **kw)
    return osip.FractionalDistanceOSIP(plan['val'], **kw)


def sigma(plan, e):
    return np.interp(e, [.1, 8.], plan['sig']) / 1000


def window(plan, e, order):
    """Lower and upper limit of the extraction window in keV."""
    if plan['kind'] == 'width':
        return e - plan['val'] / 1000, e + plan['val'] / 1000
    if plan['kind'] == 'dist':
        d = plan['val'] / 2 * e / abs(order)
        return e - d, e + d
    lo, hi = norm.interval(plan['val'])
    return e + lo * sigma(plan, e), e + hi * sigma(plan, e)


def ref_factor(plan, e_nom, order, true):
    if order * true <= 0:
        return np.zeros_like(e_nom)
    lo, hi = window(plan, e_nom, order)
    e = e_nom * true / order
    s = sigma(plan, e)
    return norm.cdf((hi - e) / s) - norm.cdf((lo - e) / s)


def expected(plan):
    """{(order, true): (area, factor, tag, edges)} for all combinations whose input exists."""
    inputs = {inp['order']: inp for inp in plan['l_inputs']}
    out = {}
    for o in plan['l_orders']:
        for t in plan['offs']:
            m = o + t
            if o * m > 0 and m in inputs:
                resp, fac = content(plan, inputs[m])
                e = edges(plan, inputs[m])
                mid = .5 * (e[1:] + e[:-1])
                f = ref_factor(plan, mid / m * o, o, m)
                base = resp if fac is None else resp / fac
                out[o, m] = (base * f, f, 100 + m, e)
    return out


def campaign(plan, root, osip, overwrite):
    kw = {'filename_from_meta_kwargs': {'ARCCHAN': '1111'}} if plan['names'] == 'channel' else {}
    osip.apply_osip_all(root, os.path.join(root, plan['out']), list(plan['l_orders']), inroot=plan['inroot'], outroot=plan['outroot'],
                        overwrite=overwrite, **kw)


def listing(root):
    out = {}
    for d, _, files in os.walk(root):
        for f in files:
            p = os.path.join(d, f)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, root)] = fh.read()
    return out


def read_outputs(plan, root, inputs):
    """All effective area files in the directory that are not inputs: {(ccdorder, true order): [names]}"""
    out = {}
    for name in sorted(listing(root)):
        if not name.endswith('.arf') or name in inputs:
            continue
        try:
            with fits.open(os.path.join(root, name), memmap=False) as h:
                hd = dict(h[1].header)
                d = h[1].data
                col = {c: np.array(d[c], dtype=float) for c in d.names}
            key = (int(hd['CCDORDER']), int(hd['TRUEORD']))
        except Exception as ex:  # noqa
            raise Violation('unreadable-output', f'{name} cannot be read although the campaign was completed: {ex!r}'[:300])
        out.setdefault(key, []).append((name, hd, col))
    return out


def check_complete(plan, root, inputs, want, who):
    got = read_outputs(plan, root, inputs)
    if set(got) != set(want):
        raise Violation('set-of-outputs', f'{who}: outputs for (order, true order) {sorted(got)}, expected {sorted(want)}')
    for key, (area, fac, tag, e) in want.items():
        if len(got[key]) != 1:
            raise Violation('set-of-outputs', f'{who}: {len(got[key])} files for order {key}: {[g[0] for g in got[key]]}')
        name, hd, col = got[key][0]
        if not name.startswith(os.path.normpath(os.path.join(plan['out'], plan['outroot'] + 'x'))[:-1]):
            raise Violation('output-place', f"{who}: {name} is not in {plan['out']} with prefix {plan['outroot']!r}")
        for c, v in [('ENERG_LO', e[:-1]), ('ENERG_HI', e[1:]), ('SPECRESP', area), ('OSIPFAC', fac)]:
            if c in col and c in hd:
                raise Violation('column-and-keyword', f'{who}: {name} has {c} as column and as keyword')
            x = col[c] if c in col else hd.get(c)
            if x is None:
                raise Violation('missing-quantity', f'{who}: {name} has no {c}', key=f'missing-quantity:{c}')
            x = np.broadcast_to(np.asarray(x, dtype=float), v.shape)
            if not np.allclose(x, v, rtol=1e-8, atol=1e-11 * max(1, np.max(np.abs(v)))):
                k = int(np.argmax(~np.isclose(x, v, rtol=1e-8, atol=1e-11 * max(1, np.max(np.abs(v))))))
                raise Violation('wrong-values', f"{who}: {name} {c}[{k}] is {x[k]!r}, expected {v[k]!r} ({plan['kind']} {plan['val']}, order {key})",
                                key=f'wrong-values:{c}')
        if np.any(fac < 0) or np.any(fac > 1):
            raise core.HarnessError('reference factor')
        m = {'INSTRUME': f'ORDER_{key[0]}', 'TAG': tag, 'TELESCOP': 'sim'}
        for k, v in m.items():
            if hd.get(k) != v:
                raise Violation('keywords', f'{who}: {name}: {k} is {hd.get(k)!r}, expected {v!r}', key=f'keywords:{k}')
        if int(hd['ORDER']) != key[1]:
            raise Violation('keywords', f"{who}: {name}: ORDER is {hd['ORDER']}, true order is {key[1]}", key='keywords:ORDER')
        if not hd.get('OSIP'):
            raise Violation('keywords', f'{who}: {name} does not describe the extraction window', key='keywords:OSIP')


def life_body(plan, root, overwrite, times, stats):
    import matplotlib.pyplot as plt
    osip = make_osip(plan)
    if plan['warm']:
        # the same object was used for something else before
        for o, m in expected(plan):
            osip.osip_factor(np.linspace(.4, 1.1, plan['n_bins']) * u.keV, o, m)
    try:
        for _ in range(times):
            campaign(plan, root, osip, overwrite)
        return 'ok', None
    except Exception as ex:  # noqa  the operator sees the error
        return 'error', f'{type(ex).__name__}: {ex}'[:200]
    finally:
        plt.close('all')


def check_window(plan, osip, obs):
    """The two ways to ask for the window agree with each other and with the definition."""
    e = edges(plan)
    mid = (.5 * (e[1:] + e[:-1])) * u.keV
    for o in plan['l_orders'][:2]:
        if o == 0:
            continue
        rg = osip.osip_range(mid, o).to(u.keV).value
        tab = osip.osip_tab(mid, o).to(u.keV).value
        lo, hi = window(plan, mid.value, o)
        if not np.allclose(rg, [lo, hi], atol=1e-9):
            raise Violation('window', f"order {o}, {plan['kind']} {plan['val']}: osip_range gives {rg.tolist()}, stated window {[lo.tolist(), hi.tolist()]}"[:300])
        if not np.allclose(tab, [mid.value - lo, hi - mid.value], atol=1e-9):
            raise Violation('window-width', f'order {o}: osip_tab gives {tab.tolist()}, stated half-widths {[(mid.value - lo).tolist(), (hi - mid.value).tolist()]}'[:300])
        for t in [0, 1, -1]:
            f = np.asarray(osip.osip_factor(mid, o, o + t), dtype=float)
            fw = np.asarray(osip.osip_factor(mid.to(u.Angstrom, equivalencies=u.spectral()), o, o + t), dtype=float)
            w = ref_factor(plan, mid.value, o, o + t)
            if np.shape(f) != w.shape:
                raise Violation('factor-shape', f'osip_factor for {len(w)} energies (order {o}, true order {o + t}) has shape {np.shape(f)}')
            if not (np.allclose(f, w, atol=1e-10) and np.allclose(fw, w, atol=1e-10)):
                raise Violation('factor', f'order {o}, true order {o + t}: factor {f.tolist()} / {fw.tolist()} (by wavelength), expected {w.tolist()}'[:300])
            if np.any(f < 0) or np.any(f > 1):
                raise Violation('factor-range', f'factor outside of 0..1: {f.tolist()}'[:300])


def run(plan, obs):
    plan['l_orders'] = list(dict.fromkeys(plan['l_orders']))
    if not plan['l_orders']:
        return
    w = world.current()
    base = w.scratch()
    names = write_inputs(plan, base)
    inputs = set(names.values())
    before = listing(base)
    want = expected(plan)
    check_window(plan, make_osip(plan), obs)
    makeout = plan['outroot'] != 'new/' or not want

    # an undisturbed campaign in another directory
    calm = w.scratch()
    for f in inputs:
        shutil.copy(os.path.join(base, f), os.path.join(calm, f))
    w.fs = None

    def undisturbed():
        return life_body(plan, calm, False, 1, {})
    st, (res, msg) = world.life(undisturbed)
    obs.event('calm', res)
    if res == 'error':
        if makeout:
            raise Violation('campaign-fails', f'campaign without any fault fails: {msg}', key='campaign-fails:' + msg.split(':')[0])
        obs.count('missing-output-directory')
        # the operator creates the directory
        os.makedirs(os.path.join(calm, plan['out'], 'new'), exist_ok=True)
        os.makedirs(os.path.join(base, plan['out'], 'new'), exist_ok=True)
        st, (res, msg) = world.life(undisturbed)
        if res == 'error':
            raise Violation('campaign-fails', f'campaign without any fault fails: {msg}', key='campaign-fails:' + msg.split(':')[0])
    check_complete(plan, calm, inputs, want, 'undisturbed campaign')
    missing = [(o, o + t) for o in plan['l_orders'] for t in plan['offs'] if o * (o + t) > 0 and o + t not in names]
    if missing:
        obs.count('missing-inputs', len(missing))
        obs.nontrivial = True
    final = sorted(listing(calm))

    outcomes = []
    lives = list(plan['l_lives']) + [{'k': 'final', 'ov': True}]
    for k, life in enumerate(lives):
        pre = listing(base)
        existing = {n for n in pre if n in final and n not in inputs and n.endswith('.arf')}
        if life['k'] == 'final' and plan['last'] == 'fresh':
            # another operator starts over in an empty directory
            for n in list(pre):
                if n not in inputs:
                    os.remove(os.path.join(base, n))
            existing = set()
        w.fs = world.FaultFS(base, [life['fault']] if life['k'] == 'disk' else [], quota=life['bytes'] if life['k'] == 'quota' else None)
        times = 2 if life['k'] == 'final' and plan['last'] == 'twice' else 1

        def body():
            fs = w.fs
            if life['k'] != 'line':
                return life_body(plan, base, life['ov'], times, {})

            def hook(code, lineno):
                if steps.n >= life['at']:
                    fs.dead = True
                    raise world.SimCrash()
            with world.Steps(None, hook) as steps:
                return life_body(plan, base, life['ov'], times, {})
        st, val = world.life(body)
        fired = list(w.fs.fired)
        w.fs = None
        for f in fired:
            obs.fault(f'disk:{f[0]}:{f[1]}')
        now = listing(base)
        who = f"campaign {k} ({life['k']}{' ' + str(life.get('fault') or '') if life['k'] == 'disk' else ''}, overwrite={life['ov']})"
        for f in sorted(inputs):
            if now.get(f) != before[f]:
                raise Violation('input-changed', f'{who}: input {f} was changed')
        if st == 'crash':
            obs.fault('crash')
            obs.nontrivial = True
            outcomes.append('crash')
            obs.event(k, 'crash', sorted(now))
            continue
        res, msg = val
        obs.event(k, res, life['k'], life['ov'], [f[:2] for f in fired], sorted(now))
        obs.count('campaigns-' + res)
        outcomes.append((res, tuple(f[:2] for f in fired)))
        if fired or existing:
            obs.nontrivial = True
        if res == 'ok':
            if existing and not life['ov'] and want:
                raise Violation('overwritten', f'{who}: {sorted(existing)} existed, no permission to overwrite, but the campaign was completed')
            check_complete(plan, base, inputs, want, who)
            lost = set(final) - set(now)
            if lost:
                raise Violation('error-swallowed', f'{who}: returned without an error, but {sorted(lost)} is missing; faults {fired}')
        else:
            if not fired and not (existing and not life['ov']):
                raise Violation('campaign-fails', f'{who}: no fault, but {msg}', key='campaign-fails:' + msg.split(':')[0])
            if existing and not life['ov']:
                obs.count('refused-to-overwrite')
        if existing and not life['ov']:
            for f in existing:
                if now.get(f) != pre[f]:
                    raise Violation('overwritten', f'{who}: {f} was changed without permission to overwrite')
    now = listing(base)
    if sorted(now) != final:
        raise Violation('set-of-files', f'after restarts the directory has {sorted(set(now) - set(final))} more and {sorted(set(final) - set(now))} less than an '
                        'undisturbed campaign')
    obs.simtime += len(lives)
    obs.state(plan['kind'], tuple(plan['l_orders']), tuple(plan['offs']), tuple(sorted(names)), tuple(outcomes))
