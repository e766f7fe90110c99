"""C08: sources terminate and emit only what was specified."""
import math
import numpy as np
import astropy.units as u
from astropy.table import QTable
from astropy.coordinates import SkyCoord
from sim import lib, world
from sim.core import Violation, HarnessError

ID = 'C08'
TECHNIQUE = ('deterministic simulation: seeded search over sources, apertures, rates and exposures with the random generator under control '
             '(runs of extreme legal draws injected), a budget on executed source lines for termination, misbehaving user functions, and several calls of '
             'one source; every photon is checked against the specified support')
RULE = 'photons were generated with injected extreme draws or by a source that had been used before; distinct = distinct event log'
STATE_MEASURE = 'hash of (source type, rate class, draw faults, call number class)'
ASSUMPTIONS = ['the draws forced on the generator are values it can legally return', 'steps = source lines executed in marxs code']
REAL = ['marxs.source', 'marxs.math.random', 'marxs.optics.aperture', 'marxs.missions.chandra.hrma_py', 'astropy.coordinates']
STUB = ['random generator state', 'user functions']
N = {'quick': 4000, 'thorough': 60000}
EXTREME = [0., 0., 1 - 2**-53, 1 - 2**-53, 2**-53, .5, 1e-9, 1 - 1e-9]
FRAMES = ['icrs', 'icrs', 'icrs', 'galactic', 'fk5']


def gen(rng, i, tier):
    t = rng.choice(['point', 'disk', 'disk', 'sphdisk', 'sphdisk', 'gauss', 'symbolf', 'radial', 'farlab', 'cone', 'cone', 'base'])
    expected = rng.choice([0.001, .1, .9, 1., 3.7, 20., 60., 200., 1500.])
    rate = 10**rng.uniform(-7, 4)
    s = {'t': t, 'rate': rate, 'expo': expected / rate, 'proc': rng.choice(['const', 'poisson', 'poisson']),
         'area': 10**rng.uniform(-3, 4), 'frame': rng.choice(FRAMES), 'lon': rng.choice([0., 180., 359.99, lib.U(rng, 0, 360)]),
         'lat': rng.choice([0., 85., -85., lib.U(rng, -80, 80)]),
         'units': rng.choice(['s', 'h', 'ms']), 'size': rng.choice([1e-5, .01, .5, 1.]) * rng.uniform(.1, 1), 'inner': rng.choice([0., 0., .5, .99])}
    if t == 'sphdisk':
        s['size'] = rng.choice([.01, 1., 20., 60.]) * rng.uniform(.2, 1)
    if t in ('farlab', 'cone', 'base'):
        s['area'] = 1.
    if t == 'cone':
        s['half'] = rng.choice([0., 1e-4, .1, 1., math.pi / 2, math.pi])
        s['dir'] = rng.choice([[1., 0, 0], [0, 0, 1.], [0, 0, -1.], [0, 1., 0], [-3., 0, 0], [rng.uniform(-1, 1) for _ in range(3)]])
        s['pos'] = [rng.uniform(-10, 10) for _ in range(3)]
    if t == 'farlab':
        s['pos'] = [rng.uniform(50, 500), rng.uniform(-50, 50), rng.uniform(-50, 50)]
    k = rng.random()
    n = rng.randint(2, 9)
    s['energy'] = {'k': 'const', 'e': rng.uniform(.1, 10), 'unit': rng.choice(['keV', 'eV', 'AA', 'nm'])} if k < .35 else \
        {'k': 'func', 'bad': rng.random() < .15} if k < .5 else \
        {'k': 'table', 'e': sorted(rng.uniform(.1, 9) for _ in range(n)), 'f': [rng.choice([0., 0., rng.uniform(0, 3), 1e-8, 1e6]) for _ in range(n)],
         'unit': rng.choice(['keV', 'keV', 'eV'])}
    if s['energy']['k'] == 'table' and not any(s['energy']['f'][1:]):
        s['energy']['f'][rng.randrange(1, n)] = 1.
    k = rng.random()
    m = rng.randint(2, 7)
    s['pol'] = None if k < .4 else {'k': 'const', 'a': rng.uniform(0, 400)} if k < .6 else {'k': 'func', 'bad': rng.random() < .15} if k < .75 else \
        {'k': 'table', 'a': sorted(rng.uniform(0, 360) for _ in range(m)), 'p': [rng.choice([0., rng.uniform(0, 2)]) for _ in range(m - 1)] + [1.]}
    # parameters the user leaves at their documented defaults
    s['omit'] = []
    if rng.random() < .25:
        opt = ['energy'] + (['flux', 'pos'] if t in ('farlab', 'cone') else ['flux', 'area'])
        if t == 'cone':
            opt += ['half', 'dir']
        if t == 'farlab':
            opt.remove('pos')
        s['omit'] = o = sorted(rng.sample(opt, rng.randint(1, len(opt))))
        if 'energy' in o:
            s['energy'] = {'k': 'const', 'e': 1., 'unit': 'keV'}
        if 'area' in o:
            s['area'] = 1.
        if 'flux' in o:
            s['proc'] = 'const'
            s['rate'] = 1. * s['area']
            s['expo'] = min(expected, 200.) / s['rate']
        if 'pos' in o:
            s['pos'] = [0., 0., 0.]
        if 'half' in o:
            s['half'] = math.pi
        if 'dir' in o:
            s['dir'] = [1., 0., 0.]
    if t in ('farlab', 'cone') and rng.random() < .3:
        # rays in the coordinate planes
        s['flat'] = True
        if t == 'cone' and 'half' not in s['omit']:
            s['half'] = 0.
            s['dir'] = rng.choice([[0., 1., 0.], [0., -2., 0.], [0., 1., 1.], [1., 1., 0.], [1., 0., 1.], [0., 0., 1.], [1e-12, 1., 0.]]) if 'dir' not in s['omit'] else s['dir']
        if t == 'farlab':
            s['pos'] = [10., 1., 20.] if rng.random() < .5 else [10., rng.choice([30., -20.]), 2.]
    plan = {'s': s, 'l_calls': [], 'ap': None}
    for _ in range(rng.choice([1, 1, 2, 3])):
        c = {'f': rng.choice([1., 1., 0., .3, 2.]), 'l_draws': [], 'via': rng.choice(['generate', 'generate', 'generate', 'call'])}
        k = rng.random()
        if k < .35:
            for _ in range(rng.randint(1, 12)):
                c['l_draws'].append([rng.randrange(0, 40), rng.choice(EXTREME)])
        elif k < .5:
            v = rng.choice([0., 1 - 2**-53, 1e-9])
            for j in range(rng.choice([20, 250])):
                c['l_draws'].append([j, v])
        plan['l_calls'].append(c)
    if t not in ('farlab', 'cone', 'base') and rng.random() < .6:
        plan['ap'] = gen_ap(rng)
    return plan


def gen_ap(rng):
    t = rng.choice(['rect', 'circ', 'multi', 'multi', 'hrma'])
    a = {'t': t, 'x': 100., 'rot': rng.choice([0., 0., rng.uniform(-.3, .3)]), 'l_draws': []}
    els = []
    for k in range(rng.randint(1, 20) if t == 'multi' else 1):
        e = {'t': rng.choice(['rect', 'circ']) if t == 'multi' else t, 'y': 100. * k, 'zy': lib.U(rng, 1, 45), 'zz': lib.U(rng, 1, 45), 'rin': rng.choice([0., lib.U(rng, 0, .99)]),
             'phi': rng.choice([[0., 2 * math.pi], [0., 2 * math.pi], [1., 2.], [-.5, .5], [3., 5.5]])}
        els.append(e)
    a['l_els'] = els
    for _ in range(rng.choice([0, 0, 3, 10])):
        a['l_draws'].append([rng.randrange(0, 60), rng.choice(EXTREME)])
    a['offs'] = rng.choice([0, 0, 5])
    return a


def mk_ap(a):
    from marxs import optics
    from transforms3d.axangles import axangle2mat
    if a['t'] == 'hrma':
        from marxs.missions.chandra.hrma_py import Aperture, mirror_radii
        return Aperture(), [('circ', float(r[1]), float(r[0]), [0, 2 * math.pi], 0.) for r in mirror_radii], None
    rot = axangle2mat([0, 0, 1], a['rot'])
    els, desc = [], []
    for e in a['l_els']:
        if e['t'] == 'rect':
            els.append(optics.RectangleAperture(position=[a['x'], e['y'], 0], zoom=[1, e['zy'], e['zz']], orientation=rot))
            desc.append(('rect', e['zy'], e['zz'], None, e['y']))
        else:
            els.append(optics.CircleAperture(position=[a['x'], e['y'], 0], zoom=[1, e['zy'], e['zy']], r_inner=e['rin'] * e['zy'], phi=e['phi'], orientation=rot))
            desc.append(('circ', e['zy'], e['rin'] * e['zy'], e['phi'], e['y']))
    if a['t'] == 'multi':
        return optics.MultiAperture(elements=els, id_num_offset=a['offs']), desc, rot
    return els[0], desc, rot


def area_of(d):
    if d[0] == 'rect':
        return 4 * d[1] * d[2]
    return (d[3][1] - d[3][0]) / 2 * (d[1]**2 - d[2]**2)


def drop(kw, omit):
    names = {'flux': 'flux', 'area': 'geomarea', 'pos': 'position', 'half': 'half_opening', 'dir': 'direction'}
    return {k: v for k, v in kw.items() if k not in [names.get(o) for o in omit]}


def mk(s):
    from marxs import source
    kw = {}
    e = s['energy']
    used = {}
    omit = s.get('omit', [])
    if 'energy' in omit:
        pass
    elif e['k'] == 'const':
        kw['energy'] = e['e'] * u.Unit(e['unit'])
    elif e['k'] == 'func':
        def efunc(t):
            n = len(t) - (1 if e['bad'] else 0)
            return (1. + (np.arange(max(n, 0)) % 5) / 5.) * u.keV
        kw['energy'] = efunc
    else:
        t = QTable()
        t['energy'] = (np.array(e['e']) * u.keV).to(u.Unit(e['unit']))
        t['fluxdensity'] = (np.array(e['f']) / (u.s * u.cm**2 * u.keV)).to(1 / (u.s * u.cm**2 * u.Unit(e['unit'])))
        kw['energy'] = t
        used['etab'] = t.copy()
    p = s['pol']
    if p is None:
        if not omit:
            kw['polarization'] = None
    elif p['k'] == 'const':
        kw['polarization'] = p['a'] * u.deg
    elif p['k'] == 'func':
        def pfunc(t, en):
            n = len(t) - (1 if p['bad'] else 0)
            return (.1 + np.arange(max(n, 0)) % 4) * u.rad
        kw['polarization'] = pfunc
    else:
        t = QTable()
        t['angle'] = np.array(p['a']) * u.deg
        t['probabilitydensity'] = np.array(p['p']) / u.deg
        kw['polarization'] = t
    lab = s['t'] in ('farlab', 'cone', 'base')
    rate = s['rate'] / u.s
    area = s['area'] * u.cm**2
    if lab:
        kw['flux'] = rate
        if s['t'] == 'base':
            kw['geomarea'] = 1 * u.cm**2
            kw['flux'] = rate / u.cm**2
            if s['proc'] == 'poisson':
                kw['flux'] = source.poisson_process(rate / u.cm**2)
            return source.Source(**drop(kw, omit))
        if s['t'] == 'farlab':
            return source.FarLabPointSource(s['pos'], position=[10., 1., 2.], zoom=[1, 3., 4.], **drop(kw, omit))
        kw.update(position=s['pos'], half_opening=s['half'], direction=s['dir'])
        return source.LabPointSourceCone(**drop(kw, omit))
    flux = rate / area
    kw['flux'] = source.poisson_process(flux) if s['proc'] == 'poisson' else flux.to(1 / u.h / u.m**2)
    kw['geomarea'] = area.to(u.mm**2)
    kw = drop(kw, omit)
    kw['coords'] = SkyCoord(s['lon'], s['lat'], unit='deg', frame=s['frame'])
    size = s['size'] * u.deg
    t = s['t']
    if t == 'point':
        return source.PointSource(**kw)
    if t == 'disk':
        return source.DiskSource(a_outer=size, a_inner=s['inner'] * size, **kw)
    if t == 'sphdisk':
        return source.SphericalDiskSource(a_outer=size, a_inner=s['inner'] * size, **kw)
    if t == 'gauss':
        return source.GaussSource(sigma=size, **kw)
    if t == 'radial':
        from marxs.source.basesources import RadialDistributionSource
        return RadialDistributionSource(radial_distribution=lambda n: np.full(n, s['size']) * u.deg, **kw)
    return source.SymbolFSource(size=size, **kw)


def check_times(s, t, T, who):
    rate = s['rate']
    if not np.isfinite(t).all():
        raise Violation('time', f'{who}: arrival time is not finite')
    if (np.diff(t) < 0).any():
        raise Violation('time', f'{who}: arrival times are not sorted')
    if len(t) and t[0] < 0:
        raise Violation('time', f'{who}: negative arrival time {t[0]}')
    poisson = s['proc'] == 'poisson' and s['t'] not in ('farlab', 'cone')
    if poisson:
        if len(t) and t[-1] >= T:
            raise Violation('time', f'{who}: arrival time {t[-1]} after the end of the exposure {T}')
        last = t[-1] if len(t) else 0.
        if T - last > 36.8 / rate * (1 + 1e-9):
            raise Violation('time-coverage', f'{who}: no photon in the last {T - last} s of the exposure although the mean gap is {1 / rate} s and no '
                            'random draw can give a gap of more than 36.8 times that')
    else:
        if len(t) and t[-1] > T * (1 + 1e-9):
            raise Violation('time', f'{who}: arrival time {t[-1]} after the end of the exposure {T}')
        n = T * rate
        if not (math.floor(n * (1 - 1e-9)) <= len(t) <= math.ceil(n * (1 + 1e-9) + 1e-9)):
            raise Violation('photon-number', f'{who}: {len(t)} photons for a constant rate of {rate}/s and {T} s')
        if len(t) and not np.allclose(t, np.arange(len(t)) / rate, rtol=1e-9, atol=1e-9 / rate):
            raise Violation('time', f'{who}: constant-rate photons are not evenly spaced')


def in_table(x, edges, dens, tol):
    """Is every x inside a bin of non-zero density (edges: upper bin edges, first density ignored)?"""
    ok = np.zeros(len(x), bool)
    for k in range(1, len(edges)):
        if dens[k] > 0 and edges[k] > edges[k - 1]:
            ok |= (x >= edges[k - 1] - tol) & (x <= edges[k] + tol)
    return ok


def run(plan, obs):
    s = plan['s']
    src = mk(s)
    ap = mk_ap(plan['ap']) if plan['ap'] else None
    held = []
    from marxs.source.basesources import SourceSpecificationError
    for k, c in enumerate(plan['l_calls']):
        T = s['expo'] * c['f']
        expo = (T * u.s).to(u.Unit(s['units']))
        if c['l_draws']:
            world.force_draws(c['l_draws'])
            obs.fault('extreme-draws', len(c['l_draws']))
        who = f"{s['t']} call {k}"
        bad = (s['energy'].get('bad') or (s['pol'] or {}).get('bad'))
        with world.Steps(6000 + int(40 * s['rate'] * T)) as st:
            try:
                ph = src(expo) if c.get('via') == 'call' else src.generate_photons(expo)
            except SourceSpecificationError:
                if not bad:
                    raise
                obs.fault('user-function-wrong-length')
                obs.event(k, 'refused')
                continue
        obs.count('lines', st.n)
        n = len(ph)
        if bad and n > 0:
            raise Violation('wrong-length-accepted', f'{who}: user function returned one value less than there are photons')
        if (s['energy'].get('bad') or (s['pol'] or {}).get('bad')):
            continue
        obs.simtime += T
        obs.count('photons', n)
        obs.count('calls')
        if n == 0:
            obs.count('empty-lists')
        obs.event(k, n, lib.table_digest(ph))
        obs.state(s['t'], s['proc'], int(math.log10(s['rate'])), bool(c['l_draws']), k > 0, n == 0)
        if c['l_draws'] or k:
            obs.nontrivial = True
        Tm = expo.to(u.s).value
        check_times(s, lib.need(ph, 'time', who), Tm, who)
        check_energy(s, lib.need(ph, 'energy', who), who)
        check_pol(s, lib.need(ph, 'polangle', who), who)
        if not (lib.need(ph, 'probability', who) == 1).all():
            raise Violation('probability', f'{who}: probability does not start at 1')
        check_place(s, ph, who)
        if 'half' in s.get('omit', []) and n >= 60 and not c['l_draws'] and not (np.asarray(ph['dir'])[:, :3] @ np.array(s['dir']) < 0).any():
            raise Violation('lab-dir', f'{who}: none of {n} photons is emitted backwards, the default for half_opening is the entire sphere')
        if ap is not None:
            check_ap(plan['ap'], ap, ph, obs, who)
        for j, (t0, d0) in enumerate(held):
            if lib.table_digest(t0) != d0:
                raise Violation('earlier-list-changed', f'{who} changed the photon list of call {j}')
        held.append((ph, lib.table_digest(ph)))


def check_energy(s, en, who):
    e = s['energy']
    if not (np.isfinite(en).all() and (en > 0).all()):
        raise Violation('energy', f'{who}: energies must be positive and finite, got {en[~(en > 0)][:3]}')
    if e['k'] == 'const':
        want = (e['e'] * u.Unit(e['unit'])).to(u.keV, equivalencies=u.spectral()).value
        if not np.allclose(en, want, rtol=1e-12):
            raise Violation('energy', f'{who}: energy {en[0]} instead of {want}')
    elif e['k'] == 'func':
        if not np.allclose(en, 1. + (np.arange(len(en)) % 5) / 5., rtol=1e-12):
            raise Violation('energy', f'{who}: energies differ from what the user function returned')
    else:
        ok = in_table(en, e['e'], e['f'], 1e-9)
        if not ok.all():
            raise Violation('energy', f'{who}: energy {en[~ok][0]} has zero flux in the spectrum (edges {e["e"]}, flux {e["f"]})')


def check_pol(s, pol, who):
    p = s['pol']
    if p is None:
        ok = (pol >= 0) & (pol <= 2 * np.pi)
        if not ok.all():
            raise Violation('polangle', f'{who}: polarization angle {pol[~ok][0]}')
    elif p['k'] == 'const':
        if not np.allclose(pol, np.deg2rad(p['a']), rtol=1e-12):
            raise Violation('polangle', f'{who}: polarization angle {pol[0]} instead of {np.deg2rad(p["a"])}')
    elif p['k'] == 'func':
        if not np.allclose(pol, .1 + np.arange(len(pol)) % 4, rtol=1e-12):
            raise Violation('polangle', f'{who}: polarization angles differ from what the user function returned')
    else:
        ok = in_table(pol, np.deg2rad(p['a']), p['p'], 1e-9)
        if not ok.all():
            raise Violation('polangle', f'{who}: polarization angle {pol[~ok][0]} has zero probability')


def check_place(s, ph, who):
    t = s['t']
    n = len(ph)
    if n == 0 or t == 'base':
        return
    if t in ('farlab', 'cone'):
        pos, d, pol = lib.need(ph, 'pos', who), lib.need(ph, 'dir', who), lib.need(ph, 'polarization', who)
        for nm, x in (('pos', pos), ('dir', d), ('polarization', pol)):
            if not np.isfinite(x).all():
                raise Violation('lab-' + nm, f'{who}: {nm} is not finite: {x[~np.isfinite(x).all(axis=1)][0]}')
        if not ((pos[:, 3] == 1).all() and (d[:, 3] == 0).all()):
            raise Violation('lab-dir', f'{who}: not homogeneous coordinates')
        ln = np.linalg.norm(d[:, :3], axis=1)
        if t == 'farlab':
            rel = pos[:, :3] - [10., 1., 2.]
            if not ((np.abs(rel[:, 0]) < 1e-9).all() and (np.abs(rel[:, 1]) <= 3 + 1e-9).all() and (np.abs(rel[:, 2]) <= 4 + 1e-9).all()):
                raise Violation('lab-pos', f'{who}: photon starts outside of the aperture')
            x = pos[:, :3] - np.array(s['pos'])
            if not np.allclose(d[:, :3] / ln[:, None], x / np.linalg.norm(x, axis=1)[:, None], atol=1e-9):
                raise Violation('lab-dir', f'{who}: photon does not fly away from the source')
        else:
            if not np.allclose(pos[:, :3], s['pos'], atol=1e-12):
                raise Violation('lab-pos', f'{who}: photon does not start at the source')
            ax = np.array(s['dir']) / np.linalg.norm(s['dir'])
            ang = np.arctan2(np.linalg.norm(np.cross(d[:, :3], ax), axis=1), d[:, :3] @ ax)
            if not (np.allclose(ln, 1, atol=1e-9) and (ang <= s['half'] + 1e-7).all()):
                raise Violation('lab-dir', f'{who}: photon direction {ang.max()} rad from the axis of a cone with half opening {s["half"]}')
        dot = np.einsum('ij,ij->i', pol[:, :3], d[:, :3]) / ln
        if not (np.allclose(np.linalg.norm(pol[:, :3], axis=1), 1, atol=1e-6) and np.allclose(dot, 0, atol=1e-6)):
            raise Violation('lab-polarization', f'{who}: polarization vector is not a unit vector perpendicular to the ray')
        # angle 0 is the direction closest to +y, or to +x for rays along y
        r = d[:, :3] / ln[:, None]
        off = np.hypot(r[:, 0], r[:, 2])
        ref = np.where((off < 1e-9)[:, None], [1., 0, 0], [0, 1., 0])
        v1 = ref - r * np.einsum('ij,ij->i', r, ref)[:, None]
        with np.errstate(all='ignore'):
            v1 /= np.linalg.norm(v1, axis=1)[:, None]
        a = lib.need(ph, 'polangle', who)
        want = v1 * np.cos(a)[:, None] + np.cross(r, v1) * np.sin(a)[:, None]
        bad = (np.abs(pol[:, :3] - want) > 1e-6).any(axis=1) & ((off < 1e-9) | (off > 1e-5))
        if bad.any():
            k = int(np.argmax(bad))
            raise Violation('lab-polarization', f'{who}: photon with direction {r[k]} and polarization angle {a[k]} has polarization {pol[k, :3]} instead of {want[k]}', key='convention')
        return
    ra, dec = lib.need(ph, 'ra', who), lib.need(ph, 'dec', who)
    c0 = SkyCoord(s['lon'], s['lat'], unit='deg', frame=s['frame'])
    if not (np.isfinite(ra).all() and np.isfinite(dec).all() and (np.abs(dec) <= 90).all()):
        raise Violation('sky', f'{who}: invalid sky position')
    c = SkyCoord(ra, dec, unit='deg')
    if ph.meta.get('COORDSYS', [None])[0] != 'ICRS':
        raise Violation('sky', f'{who}: coordinate system is not stated')
    sep = c.separation(c0.icrs).deg
    size = s['size']
    if t == 'point':
        if not (sep < 1e-8).all():
            raise Violation('sky', f'{who}: photon {sep.max()} deg away from the point source')
    elif t in ('disk', 'sphdisk'):
        tol = 1e-9 + size * (1e-6 if t == 'sphdisk' else 1e-3)
        if (sep > size + tol).any() or (sep < s['inner'] * size - tol).any():
            b = sep[(sep > size + tol) | (sep < s['inner'] * size - tol)][0]
            raise Violation('sky', f'{who}: photon {b} deg from the center of a ring from {s["inner"] * size} to {size} deg')
    elif t == 'radial':
        if not np.allclose(sep, size, rtol=1e-3, atol=1e-8):
            raise Violation('sky', f'{who}: photon at {sep[0]} deg, the user function asked for {size}')
    elif t == 'gauss':
        if not (sep < 13 * 1.5 * size + 1e-8).all():
            raise Violation('sky', f'{who}: photon {sep.max()} deg away with sigma {size}')
    elif t == 'symbolf':
        i0 = c0.icrs
        dx = (ra - i0.ra.deg + 180) % 360 - 180
        dy = dec - i0.dec.deg
        e = 1e-6 * size + 1e-9
        ok = ((np.abs(dy) < e) & (dx > -e) & (dx < size + e)) | ((np.abs(dx - size) < e) & (dy > -e) & (dy < .5 * size + e)) | \
            ((np.abs(dx - .8 * size) < e) & (dy > -e) & (dy < .3 * size + e))
        if not ok.all():
            k = int(np.nonzero(~ok)[0][0])
            raise Violation('sky', f'{who}: photon at offset ({dx[k]}, {dy[k]}) deg is not on the F of size {size}')


def check_ap(a, ap, ph, obs, who):
    from marxs.source import FixedPointing
    el, desc, rot = ap
    n = len(ph)
    ph = ph.copy()
    ph = FixedPointing(coords=SkyCoord(12., 13., unit='deg'))(ph)
    d = np.zeros((n, 4))
    d[:, 0] = -1
    ph['dir'] = d
    pol = np.zeros((n, 4))
    pol[:, 1] = 1
    ph['polarization'] = pol
    if a['l_draws']:
        world.force_draws(a['l_draws'])
        obs.fault('extreme-draws-aperture', len(a['l_draws']))
    out = el(ph)
    area = el.area.to(u.mm**2).value
    want = sum(area_of(x) for x in desc)
    if not np.isclose(area, want, rtol=1e-9):
        raise Violation('aperture-area', f'{a["t"]}: area {area} instead of {want}')
    if n == 0:
        return
    pos = lib.need(out, 'pos')
    if len(desc) > 1 or a['t'] in ('multi', 'hrma'):
        col = el.id_col
        which = np.asarray(lib.need(out, col)) - (a['offs'] if a['t'] == 'multi' else 0)
    else:
        which = np.zeros(n, int)
    if not ((which >= 0) & (which < len(desc))).all():
        k = int(np.nonzero(~((which >= 0) & (which < len(desc))))[0][0])
        raise Violation('aperture-id', f'{a["t"]}: photon {k} passed no aperture (id {which[k]} of {len(desc)})')
    for j, x in enumerate(desc):
        w = which == j
        if not w.any():
            continue
        c = np.array([a['x'], x[4], 0.]) if a['t'] != 'hrma' else np.array([np.nan, 0., 0.])
        rel = pos[w, :3] - c
        if a['t'] == 'hrma':
            rel[:, 0] = 0
        if rot is not None:
            rel = rel @ rot
        if not (np.abs(rel[:, 0]) < 1e-7).all():
            raise Violation('aperture-place', f'{a["t"]}: photon is not in the plane of the aperture')
        if x[0] == 'rect':
            ok = (np.abs(rel[:, 1]) <= x[1] * (1 + 1e-9)) & (np.abs(rel[:, 2]) <= x[2] * (1 + 1e-9))
        else:
            r = np.hypot(rel[:, 1], rel[:, 2])
            ph0 = np.arctan2(rel[:, 2], rel[:, 1])
            width = x[3][1] - x[3][0]
            ok = (r <= x[1] * (1 + 1e-9)) & (r >= x[2] * (1 - 1e-9) - 1e-9)
            dphi = (ph0 - x[3][0] + 1e-7) % (2 * np.pi)
            ok &= (dphi <= width + 2e-7) | (r < 1e-6)
        if not ok.all():
            raise Violation('aperture-place', f'{a["t"]}: photon at {rel[~ok][0]} (relative to element {j}: {x}) is outside of the aperture it is said to pass')
    obs.count('aperture-photons', n)
