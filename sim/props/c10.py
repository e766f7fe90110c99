"""C10: photons are pointed with the pointing at their own arrival time; aspect record."""
import math
import os
import numpy as np
import astropy.units as u
from astropy.table import Table
from astropy.coordinates import SkyCoord
from sim import lib, world, acis
from sim.core import Violation, HarnessError

ID = 'C10'
TECHNIQUE = ('deterministic simulation: histories of photon lists (arrival times in any order, grouped and delayed at will) sent through fixed, jittered and '
             'dithered pointings over simulated observations of 1 ms to 10 Ms, against an independent model of the attitude at each time; aspect and event files '
             'written to a simulated disk that fails, fills up or loses power, and read back')
RULE = 'photons were delivered out of order or in groups, or an aspect file was written; distinct = distinct event log'
STATE_MEASURE = 'hash of (pointing type, dithered axes, reference transform, delivery kind, asol fault)'
ASSUMPTIONS = ['pointings given in ICRS, declination of pointing and photons at least 3 deg from the poles',
               'the dither of roll is applied as MARX does (offset in RA and Dec, rolled about the nominal pointing), checked against the MARX aspect file in the repository',
               'the quaternion column of the aspect file is only checked to describe the attitude used for the photons, in either component order']
REAL = ['marxs.source.pointing', 'marxs.missions.chandra (ACIS, Chandra.write_evt, fitsheaders, dither)', 'astropy.io.fits', 'astropy.wcs']
STUB = ['disk', 'wall clock', 'photon lists (generated)']
N = {'quick': 2500, 'thorough': 60000}


def gen(rng, i, tier):
    if i % 10 == 3:
        return {'acis': acis.gen(rng)}
    t = rng.choice(['fixed', 'jitter', 'lissajous', 'lissajous', 'lissajous'])
    p = {'t': t, 'ra': rng.choice([0., 359.9999, 180., lib.U(rng, 0, 360)]), 'dec': rng.choice([0., lib.U(rng, -87, 87), lib.U(rng, -87, 87)]),
         'roll': rng.choice([0., 180., 359., -20., lib.U(rng, 0, 360)]), 'rollunit': rng.choice(['deg', 'rad', 'arcmin']),
         'ref': rng.choice([None, None, 'zxy', 'rot']), 'jitter': rng.choice([0., lib.U(rng, .1, 300)]),
         'amp': [rng.choice([0., 8., lib.U(rng, 0, 600)]) for _ in range(2)] + [rng.choice([0., 0., lib.U(rng, 0, 36000), 1.])],
         'period': [10**rng.uniform(0, 5) for _ in range(3)], 'phase': [rng.choice([0., lib.U(rng, -4, 4)]) for _ in range(3)],
         'units': rng.choice(['arcsec', 'deg']), 'punits': rng.choice(['s', 'ks']), 'default': rng.random() < .1}
    expo = 10**rng.uniform(-3, 7)
    lists = []
    for _ in range(rng.choice([1, 2, 3])):
        n = rng.choice([0, 1, 2, 3, 10, 40])
        lists.append({'n_phot': n, 'pseed': rng.randrange(2**31), 'order': rng.choice(['time', 'reverse', 'shuffle']), 'spread': rng.choice([.01, 1., 90.]),
                      'split': rng.choice(['whole', 'whole', 'two', 'one']), 'samet': rng.random() < .15})
        if rng.random() < .25:
            # the telescope is pointed to another place and rolled before this list
            lists[-1]['repoint'] = {k: v for k, v in [('ra', lib.U(rng, 0, 360)), ('dec', lib.U(rng, -87, 87)), ('roll', lib.U(rng, 0, 360))] if rng.random() < .7}
    plan = {'p': p, 'expo': expo, 'l_lists': lists, 'l_asol': []}
    if t == 'lissajous' and rng.random() < .5:
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.random()
            a = {'n_rec': rng.choice([1, 2, 10, 100, 2000]), 'fault': None, 'frac': rng.choice([0., .3, .999]), 'same': rng.random() < .3, 'start': rng.uniform(1e9, 2e9)}
            if k < .5:
                a['fault'] = {'op': rng.choice(['write', 'write', 'open', 'close', '*']), 'n': rng.randrange(0, 6), 'kind': rng.choice(['EIO', 'ENOSPC', 'EACCES', 'torn']),
                              'frac': rng.random()}
            elif k < .7:
                a['quota'] = rng.choice([0, 1000, 5000, 30000])
            plan['l_asol'].append(a)
    return plan


REFS = {'zxy': np.array([[0., 0, 1, 0], [1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1]]).T}


def ref_of(p):
    if p['ref'] is None:
        return np.eye(4)
    if p['ref'] == 'zxy':
        return REFS['zxy']
    c, s = math.cos(.3), math.sin(.3)
    return np.array([[c, -s, 0, 0], [s, c, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1.]])


def mk(p):
    from marxs import source
    kw = {'coords': SkyCoord(p['ra'], p['dec'], unit='deg'), 'roll': (p['roll'] * u.deg).to(u.Unit(p['rollunit']))}
    if p['ref'] is not None:
        kw['reference_transform'] = ref_of(p)
    if p['t'] == 'fixed':
        return source.FixedPointing(**kw)
    if p['t'] == 'jitter':
        return source.JitterPointing(jitter=p['jitter'] * u.arcsec, **kw)
    from marxs.missions.chandra.dither import LissajousDither
    if not p['default']:
        kw.update(DitherAmp=(np.array(p['amp']) * u.arcsec).to(u.Unit(p['units'])), DitherPeriod=(np.array(p['period']) * u.s).to(u.Unit(p['punits'])),
                  DitherPhase=np.array(p['phase']) * u.rad)
    return LissajousDither(**kw)


# ------------------------------------------------------------ model of the attitude

def basis(ra, dec):
    """Direction, North and East at a place in the sky (radian)."""
    n = np.array([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)])
    north = np.array([-np.sin(dec) * np.cos(ra), -np.sin(dec) * np.sin(ra), np.cos(dec)])
    east = np.array([-np.sin(ra), np.cos(ra), 0 * ra])
    return n, north, east


def attitude(p, t):
    """Model: ra, dec, roll at time t in radian"""
    ra0, dec0, roll0 = np.deg2rad([p['ra'], p['dec'], p['roll']])
    if p['t'] != 'lissajous':
        return ra0, dec0, roll0
    if p['default']:
        amp, per, pha = [8., 8., 0.], [1000., 707., 1e5], [0., 0., 0.]
    else:
        amp, per, pha = p['amp'], p['period'], p['phase']
    d = [np.deg2rad(a / 3600.) * math.sin(2 * math.pi * t / q + f) for a, q, f in zip(amp, per, pha)]
    roll = roll0 + d[2]
    v = basis(ra0 + d[0] / math.cos(dec0), dec0 + d[1])[0]
    k = basis(ra0, dec0)[0]
    c, s = math.cos(roll), math.sin(roll)
    v = v * c + np.cross(k, v) * s + k * np.dot(k, v) * (1 - c)
    return math.atan2(v[1], v[0]) % (2 * math.pi), math.atan2(v[2], math.hypot(v[0], v[1])), roll


def sc_matrix(ra, dec, roll):
    n, north, east = basis(ra, dec)
    c, s = math.cos(roll), math.sin(roll)
    return np.array([n, c * east - s * north, c * north + s * east])


def expected(p, ra, dec, pol, t):
    m = sc_matrix(*attitude(p, t))
    n, north, east = basis(np.deg2rad(ra), np.deg2rad(dec))
    r = ref_of(p)[:3, :3]
    return r @ (m @ -n), r @ (m @ (math.cos(pol) * north + math.sin(pol) * east))


def mk_list(plan, spec):
    r = np.random.RandomState(spec['pseed'])
    n = spec['n_phot']
    p = plan['p']
    t = r.uniform(0, plan['expo'], n)
    if spec['samet'] and n:
        t[:] = t[0]
    t.sort()
    if spec['order'] == 'reverse':
        t = t[::-1].copy()
    elif spec['order'] == 'shuffle':
        r.shuffle(t)
    dec = np.clip(p['dec'] + r.uniform(-1, 1, n) * spec['spread'], -87, 87)
    ra = (p['ra'] + r.uniform(-1, 1, n) * spec['spread']) % 360
    tab = Table({'time': t, 'ra': ra, 'dec': dec, 'polangle': r.uniform(0, 2 * np.pi, n), 'energy': np.ones(n), 'probability': np.ones(n), 'uid': np.arange(n)})
    tab.meta['EXPOSURE'] = (plan['expo'], 'total exposure time [s]')
    return tab


def check_list(p, tab, obs, who):
    d, pol = lib.need(tab, 'dir', who), lib.need(tab, 'polarization', who)
    sig = np.deg2rad(p['jitter'] / 3600) if p['t'] == 'jitter' else 0.
    tol = 1e-9 + 10 * sig
    # for a roll that varies only by a tiny amount the code may use a constant roll for the rotation of the dither offsets
    if p['t'] == 'lissajous' and not p['default']:
        tol += np.deg2rad(max(p['amp'][:2]) / 3600.) * 8e-5 / math.cos(np.deg2rad(p['dec']))
    for k in range(len(tab)):
        wd, wp = expected(p, tab['ra'][k], tab['dec'][k], tab['polangle'][k], tab['time'][k])
        if not (d[k, 3] == 0 and np.abs(d[k, :3] - wd).max() < tol and abs(np.linalg.norm(d[k]) - 1) < 1e-9):
            raise Violation('direction', f'{who}: photon {k} at t={tab["time"][k]} from ({tab["ra"][k]}, {tab["dec"][k]}): direction {d[k]} instead of {wd}',
                            key='direction:' + p['t'])
        if not (pol[k, 3] == 0 and np.abs(pol[k, :3] - wp).max() < 30 * tol and abs(np.linalg.norm(pol[k]) - 1) < 1e-9 and abs(np.dot(pol[k], d[k])) < 1e-9):
            raise Violation('polarization', f'{who}: photon {k} at t={tab["time"][k]}: polarization {pol[k]} instead of {wp} (direction {d[k]})',
                            key='polarization:' + p['t'])
    for key, val in (('RA', p['ra']), ('DEC', p['dec']), ('ROLL', p['roll'])):
        for suf in ('_PNT', '_NOM'):
            v = tab.meta.get(key + suf)
            v = v[0] if isinstance(v, (tuple, list)) else v
            if v is None or abs(v - val) > 1e-9:
                raise Violation('header', f'{who}: {key + suf} is {v} instead of {val}')


def run(plan, obs):
    if plan.get('acis'):
        return acis.run(plan, obs)
    p = plan['p']
    model = mk(p)
    last = None
    w = world.current()
    for k, spec in enumerate(plan['l_lists']):
        if spec.get('repoint'):
            p = dict(p, **spec['repoint'])
            plan = dict(plan, p=p)
            model.coords = SkyCoord(p['ra'], p['dec'], unit='deg')
            model.roll = (p['roll'] * u.deg).to(u.Unit(p['rollunit']))
        tab = mk_list(plan, spec)
        who = f"{p['t']} list {k}" + (' after changing the pointing' if spec.get('repoint') else '')
        n = len(tab)
        keep = tab.copy()
        groups = [tab]
        if spec['split'] == 'two' and n > 1:
            groups = [tab[:n // 2], tab[n // 2:]]
        elif spec['split'] == 'one' and n > 1:
            groups = [tab[j:j + 1] for j in range(n)][::-1]
        for j, g in enumerate(groups):
            g = Table(g, copy=True)
            before = g.copy()
            out = model(g)
            if out is None:
                raise Violation('returns-nothing', f'{who}: pointing returned None')
            check_list(p, out, obs, who)
            for c in before.colnames:
                if not lib.same_array(before[c], out[c]):
                    raise Violation('column-changed', f'{who}: column {c} was changed')
            obs.event(k, j, lib.table_digest(out) if p['t'] != 'jitter' else len(out))
            obs.count('photons', len(out))
            last = out
        obs.state(p['t'], [a > 0 for a in p['amp']], p['ref'], spec['split'], spec['order'])
        if n > 1 and (len(groups) > 1 or spec['order'] != 'time'):
            obs.nontrivial = True
        if p['t'] == 'lissajous' and n:
            # attitude reported for any set of times
            pt = np.asarray(model.pointing(np.asarray(keep['time'])))
            for j in range(n):
                check_attitude(p, pt[j], keep['time'][j], who)
    obs.simtime += plan['expo']
    if not plan['l_asol']:
        return
    root = w.scratch()
    for k, a in enumerate(plan['l_asol']):
        check_asol(plan, a, model, obs, root, k, w)


def check_attitude(p, got, t, who, tol=None):
    ra, dec, roll = attitude(p, t)
    amp = 8. if p['default'] else max(p['amp'][:2])
    tol = (tol or 1e-9) + np.deg2rad(amp / 3600.) * 8e-5 / math.cos(np.deg2rad(p['dec']))
    v, w = basis(got[0], got[1])[0], basis(ra, dec)[0]
    droll = (got[2] - roll + math.pi) % (2 * math.pi) - math.pi
    if not (np.abs(v - w).max() < tol and abs(droll) < 1e-9):
        raise Violation('attitude', f'{who}: at t={t} pointing reported as {np.rad2deg(got)} instead of {np.rad2deg([ra, dec, roll])}')


def check_asol(plan, a, model, obs, root, k, w):
    p = plan['p']
    w.clock.t = a['start']
    path = os.path.join(root, 'asol0.fits' if a['same'] else f'asol{k}.fits')
    existed = None
    if os.path.exists(path):
        with open(path, 'rb') as f:
            existed = f.read()
    expo = plan['expo']
    step = expo / (a['n_rec'] - 1 + a['frac']) if a['n_rec'] - 1 + a['frac'] > 0 else expo * 1.5
    photons = Table({'time': [0.]})
    photons.meta['EXPOSURE'] = (expo, 'total exposure time [s]')
    photons.meta['SIMUSER'] = ('me', 'User')
    meta0 = repr(photons.meta)
    fs = w.fs = world.FaultFS(root, [a['fault']] if a['fault'] else [], quota=a.get('quota'))
    err = None
    try:
        model.write_asol(photons, path, timestep=step)
    except (OSError, world.SimCrash) as e:
        err = e
    w.fs = None
    for f in fs.fired:
        obs.fault(f'disk:{f[0]}:{f[1]}')
    obs.event('asol', k, repr(err), fs.fired)
    obs.state('asol', a['fault'] and (a['fault']['op'], a['fault']['kind']), existed is not None)
    obs.count('aspect-files')
    obs.nontrivial = True
    if repr(photons.meta) != meta0:
        raise Violation('header', 'writing the aspect record changed the header of the photon list')
    if err is None and existed is not None:
        raise Violation('asol-overwritten', 'an existing aspect file was replaced without being asked to')
    if existed is not None:
        with open(path, 'rb') as f:
            if f.read() != existed:
                raise Violation('asol-overwritten', 'an existing aspect file was damaged')
        if not isinstance(err, OSError):
            raise Violation('asol-not-reported', f'existing file: {err!r}')
        return
    if err is not None:
        if not fs.fired:
            raise err
        if not isinstance(err, world.SimCrash):
            obs.count('write-errors-reported')
        return
    tab = Table.read(path, format='fits')
    names = {c.lower(): c for c in tab.colnames}
    for c in ('time', 'ra', 'dec', 'roll'):
        if c not in names:
            raise Violation('asol-column', f'aspect file has no column {c}')
    def col(c):
        x = tab[names[c]]
        return np.asarray(x.filled(np.nan) if hasattr(x, 'filled') else x, dtype=float)
    t = col('time')
    t0 = tab.meta.get('TSTART')
    if t0 is None:
        raise Violation('asol-time', 'TSTART is missing')
    rel = t - t0
    res = 1e-6 + 1e-9 * expo
    if not (len(rel) and abs(rel[0]) < res and rel[-1] > expo - step * (1 + 1e-6) - res and rel[-1] <= expo + step + res and (np.abs(np.diff(rel) - step) < res).all()):
        raise Violation('asol-time', f'aspect record with {len(rel)} rows from {rel[:1]} to {rel[-1:]} s after TSTART does not cover an exposure of {expo} s in steps of {step} s')
    if abs(tab.meta.get('EXPOSURE', -1) - expo) > 1e-9 * expo:
        raise Violation('asol-header', f'EXPOSURE is {tab.meta.get("EXPOSURE")} instead of {expo}')
    if abs(tab.meta.get('TSTOP', 0) - t0 - expo) > res:
        raise Violation('asol-header', f'TSTOP - TSTART is {tab.meta.get("TSTOP", 0) - t0} for an exposure of {expo}')
    ra, dec, roll = (np.deg2rad(col(c)) for c in ('ra', 'dec', 'roll'))
    amp = [8., 8., 0.] if p['default'] else p['amp']
    per = [1000., 707., 1e5] if p['default'] else p['period']
    q = np.asarray(tab[names['q_att']], dtype=float) if 'q_att' in names else None
    idx = range(len(t)) if len(t) <= 12 else sorted(set([0, 1, len(t) - 1] + [(j * 7919) % len(t) for j in range(10)]))
    for j in idx:
        check_attitude(p, (ra[j], dec[j], roll[j]), j * step, f'aspect record row {j}')
        if q is not None:
            check_quaternion(q[j], ra[j], dec[j], roll[j], j)
    obs.count('aspect-rows', len(t))


def check_quaternion(q, ra, dec, roll, j):
    if abs(np.linalg.norm(q) - 1) > 1e-9:
        raise Violation('asol-quaternion', f'row {j}: quaternion {q} is not of unit length')
    from transforms3d.quaternions import quat2mat
    m = sc_matrix(ra, dec, roll)
    for r in (q, np.roll(q, 1)):
        a = quat2mat(r)
        if np.abs(a.T - m).max() < 1e-7 or np.abs(a - m).max() < 1e-7:
            return
    raise Violation('asol-quaternion', f'row {j}: quaternion {q} does not describe the attitude {np.rad2deg([ra, dec, roll])} that was used for the photons')
