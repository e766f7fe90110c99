"""C09: random outcomes follow the distributions that were asked for."""
import hashlib
import math
import os
import numpy as np
from scipy import special, stats
import astropy.units as u
from astropy.table import QTable, Table
from astropy.coordinates import SkyCoord
from transforms3d.euler import euler2mat
from sim import lib, world, sched
from sim.core import Violation, HarnessError

ID = 'C09'
TECHNIQUE = ('deterministic simulation: seeded search over laws, parameters and call histories of several clients (sequential, interleaved at source lines, '
             'with interrupted calls and reseeding in between) with the random generator under control; every draw is mapped to a uniform number with an independent '
             'inverse of the requested law and the pooled numbers are judged with finite-sample bounds (marginals, widths, dependence between photons, calls, columns and clients)')
RULE = 'draws from at least two calls were pooled; distinct = distinct event log'
STATE_MEASURE = 'hash of (law, variant, number of calls class, sample size class, schedule kind)'
ASSUMPTIONS = ["numpy's global generator delivers independent uniform numbers for any seed", 'a deviation is only reported when a correct implementation shows it with a probability below 1e-11 per test',
               'small-angle laws are exercised at small angles only']
REAL = ['marxs.source', 'marxs.math.random', 'marxs.optics.aperture', 'marxs.optics.scatter', 'marxs.optics.grating', 'marxs.optics.detector', 'marxs.design.uncertainties',
        'marxs.design.tolerancing', 'marxs.missions.mitsnl', 'marxs.missions.chandra.hrma_py']
STUB = ['random generator state', 'user functions', 'disk for efficiency files']
N = {'quick': 2500, 'thorough': 14000}
TIMEOUT = 120
LN = 27.                # -ln of the accepted false alarm probability per test (2e-12)

LAWS = ['poisson', 'poisson', 'spectrum', 'spectrum', 'sky', 'sky', 'sky', 'farlab', 'cone', 'jitter', 'gscatter', 'gscatter', 'rscatter', 'aperture', 'aperture', 'aperture', 'orders', 'orders',
        'efffile', 'efftable', 'efftable', 'ccd', 'facets', 'wiggle', 'period', 'bartilt', 'l1', 'l2', 'pdf']


def gen(rng, i, tier):
    nc = rng.choice([1, 1, 2, 2, 3])
    mode = rng.choice(['seq', 'seq', 'line']) if nc > 1 else 'seq'
    plan = {'mode': mode, 'l_clients': []}
    for k in range(nc):
        law = LAWS[(i + k * 7) % len(LAWS)] if k == 0 else rng.choice(LAWS)
        total = rng.choice([4000, 12000, 25000]) if mode == 'seq' else rng.choice([1000, 3000])
        calls = []
        done = 0
        style = rng.choice(['many-small', 'mixed', 'few-big'])
        cap = 250 if mode == 'seq' else 30
        if law in ('poisson', 'wiggle', 'period', 'bartilt'):
            # here the number of draws is decided by the parameters
            style, total, cap = 'many-small', 10**9, cap if law != 'poisson' else (8 * cap if nc == 1 else 2 * cap)
        while done < total and len(calls) < cap:
            n = {'many-small': rng.choice([1, 1, 2, 3, 10, 30, 300]), 'mixed': rng.choice([1, 5, 50, 500, 2000]), 'few-big': rng.choice([1000, 3000, 8000])}[style]
            c = {'n': n, 'fresh': rng.random() < .15}
            if rng.random() < .04:
                c['seed'] = rng.randrange(2**31)
            if rng.random() < .05:
                c['cut'] = rng.randint(1, 60)
            calls.append(c)
            done += n
        plan['l_clients'].append({'law': law, 'p': GEN[law](rng), 'seed': rng.randrange(2**31), 'l_calls': calls})
    if mode == 'seq':
        order = [k for k, c in enumerate(plan['l_clients']) for _ in c['l_calls']]
        if rng.random() < .6:
            rng.shuffle(order)
        plan['order'] = order
    else:
        plan['l_switches'] = [[rng.choice([1, 3, 10, 50, 300, 2000]), rng.randrange(4)] for _ in range(rng.choice([5, 40, 300]))]
    return plan


# ------------------------------------------------------------------ helpers

class PIT:
    """Independent generator that turns discrete outcomes into uniform numbers (randomised probability integral transform)."""

    def __init__(self, seed):
        self.r = np.random.RandomState(seed % 2**32)

    def cat(self, idx, p):
        p = np.atleast_2d(np.asarray(p, float))
        p = p / p.sum(axis=1)[:, None]
        c = np.cumsum(p, axis=1)
        p = np.broadcast_to(p, (len(idx), p.shape[1]))
        c = np.broadcast_to(c, (len(idx), c.shape[1]))
        a = np.arange(len(idx))
        return c[a, idx] - p[a, idx] * self.r.uniform(size=len(idx))


def phi_cdf(x):
    return special.ndtr(x)


def perp(d):
    """Two unit vectors perpendicular to each row of d."""
    g = np.zeros_like(d)
    k = np.argmin(np.abs(d), axis=1)
    g[np.arange(len(d)), k] = 1
    a = np.cross(d, g)
    a /= np.linalg.norm(a, axis=1)[:, None]
    return a, np.cross(d, a)


def deviation(din, dout):
    """Angle between two sets of directions and its azimuth around the first."""
    din = din[:, :3] / np.linalg.norm(din[:, :3], axis=1)[:, None]
    dout = dout[:, :3] / np.linalg.norm(dout[:, :3], axis=1)[:, None]
    a, b = perp(din)
    x, y = np.einsum('ij,ij->i', dout, a), np.einsum('ij,ij->i', dout, b)
    ang = np.arctan2(np.hypot(x, y), np.einsum('ij,ij->i', din, dout))
    return ang, (np.arctan2(y, x) / (2 * np.pi)) % 1


def photons(n, rs, x=100., half=None, miss=0., energy=None):
    ph = Table()
    pos = np.zeros((n, 4))
    pos[:, 0], pos[:, 3] = x, 1
    if half:
        pos[:, 1:3] = rs.uniform(-half, half, size=(n, 2))
    d = np.zeros((n, 4))
    d[:, 0] = -1
    if miss:
        pos[rs.uniform(size=n) < miss, 1] = 1e4
    pol = np.zeros((n, 4))
    pol[:, 1] = 1
    ph['pos'], ph['dir'], ph['polarization'] = pos, d, pol
    ph['energy'] = np.ones(n) if energy is None else energy
    ph['energy'].unit = u.keV
    ph['probability'] = np.ones(n)
    ph['time'] = np.floor(np.arange(n) / rs.choice([1., 1., 3.]))
    ph['time'].unit = u.s
    return ph


def table_pit(x, edges, dens):
    edges, dens = np.asarray(edges, float), np.array(dens, float)
    w = np.diff(edges) * dens[1:]
    c = np.concatenate([[0], np.cumsum(w)])
    return np.interp(x, edges, c / c[-1])


def gen_bins(rng, lo, hi):
    n = rng.randint(2, 12)
    e = sorted(rng.uniform(lo, hi) for _ in range(n))
    f = [rng.choice([0., rng.uniform(0, 3), rng.uniform(0, 3), 10**rng.uniform(-3, 3)]) for _ in range(n)]
    if not any(f[1:]):
        f[-1] = 1.
    # no probability may sit in a bin that is too narrow to be resolved in double precision
    return [round(x, 6) + 1e-3 * k for k, x in enumerate(e)], f


# ------------------------------------------------------------------ laws
# GEN[law](rng) -> parameters;  MK[law](p, pit, w) -> (build, call); call(obj, n) -> {'u': {name: array}, 'cat': {name: (index, P)}}

GEN, MK = {}, {}


def law(name):
    def deco(f):
        MK[name] = f
        return f
    return deco


GEN['poisson'] = lambda rng: {'lam': rng.choice([.3, 1., 1., 2., 4., 20., 100., 600.]), 'rate': 10**rng.uniform(-5, 4), 'area': 10**rng.uniform(-3, 4),
                              'via': rng.choice(['func', 'source']), 'unit': rng.choice(['s', 'h', 'ms'])}


@law('poisson')
def _(p, pit, w):
    from marxs import source
    area = p['area'] * u.cm**2
    rate = p['rate'] / u.s
    T = p['lam'] / p['rate']

    def build():
        f = source.poisson_process((rate / area).to(1 / u.h / u.m**2))
        return source.Source(flux=f, geomarea=area.to(u.mm**2)) if p['via'] == 'source' else f

    def call(obj, n):
        expo = (T * u.s).to(u.Unit(p['unit']))
        if p['via'] == 'source':
            t = lib.need(obj.generate_photons(expo), 'time')
        else:
            t = obj(expo, area.to(u.m**2)).to_value(u.s)
        k = len(t)
        if k and (t[0] < 0 or t[-1] > T * (1 + 1e-9) or (np.diff(t) < 0).any()):
            raise Violation('poisson-times', f'arrival times from {t[0]} to {t[-1]} for an exposure of {T}')
        a, b = (stats.poisson.cdf(k - 1, p['lam']) if k else 0.), stats.poisson.cdf(k, p['lam'])
        out = {'u1': {'number': np.array([a + (b - a) * pit.r.uniform()])}}
        nxt = np.append(t[1:], T)
        i = np.arange(1, k + 1)
        with np.errstate(all='ignore'):
            # given their number, the arrival times are ordered uniform numbers: (t_i / t_i+1)**i are uniform and independent
            sp = np.exp(i * np.log(t / nxt))
        out['u'] = {'spacing': sp[np.isfinite(sp)]}
        out['plain'] = {'time': t / T}
        out['total'] = (k, p['lam'])
        return out
    return build, call


def gen_spectrum(rng):
    en = rng.choice(['const', 'table', 'table'])
    po = rng.choice(['none', 'table'])
    if en == 'const' and po == 'none' and rng.random() < .7:
        en = 'table'
    p = {'en': en, 'po': po, 'eunit': rng.choice(['keV', 'eV']), 'punit': rng.choice(['deg', 'rad'])}
    p['e'], p['f'] = gen_bins(rng, .1, 9)
    p['a'], p['d'] = gen_bins(rng, 0, 6.2)
    return p


GEN['spectrum'] = gen_spectrum


def source_kw(p):
    kw = {}
    if p['en'] == 'table':
        t = QTable()
        t['energy'] = (np.array(p['e']) * u.keV).to(u.Unit(p['eunit']))
        t['fluxdensity'] = (np.array(p['f']) / (u.s * u.cm**2 * u.keV)).to(1 / (u.s * u.m**2 * u.Unit(p['eunit'])))
        kw['energy'] = t
    if p['po'] == 'table':
        t = QTable()
        t['angle'] = (np.array(p['a']) * u.rad).to(u.Unit(p['punit']))
        t['probabilitydensity'] = (np.array(p['d']) / u.rad).to(1 / u.Unit(p['punit']))
        kw['polarization'] = t
    return kw


def source_cols(p, ph):
    out = {}
    if p['en'] == 'table':
        out['energy'] = table_pit(lib.need(ph, 'energy'), p['e'], p['f'])
    pol = lib.need(ph, 'polangle')
    out['polangle'] = table_pit(pol, p['a'], p['d']) if p['po'] == 'table' else pol / (2 * np.pi)
    return out


@law('spectrum')
def _(p, pit, w):
    from marxs import source

    def build():
        return source.Source(flux=1 / u.s / u.cm**2, **source_kw(p))

    def call(obj, n):
        ph = obj.generate_photons((n - .5) * u.s)
        return {'u': source_cols(p, ph)}
    return build, call


def gen_sky(rng):
    p = gen_spectrum(rng)
    p['t'] = rng.choice(['disk', 'sphdisk', 'gauss', 'symbolf', 'radial'])
    p['lon'], p['lat'] = lib.U(rng, 0, 360), rng.choice([0., lib.U(rng, -80, 80)])
    p['frame'] = rng.choice(['icrs', 'icrs', 'galactic', 'fk5'])
    p['size'] = rng.choice([.001, .01, .2]) * rng.uniform(.3, 1)
    if p['t'] == 'sphdisk':
        p['size'] = rng.choice([.1, 1., 20., 80.]) * rng.uniform(.3, 1)
    p['inner'] = rng.choice([0., 0., .3, .8])
    p['sunit'] = rng.choice(['deg', 'arcsec', 'rad'])
    if p['t'] != 'symbolf' and rng.random() < .3:
        # around a celestial pole, where angles have a numerical resolution of 1e-16 / size
        p['size'] = max(p['size'], .2 * rng.uniform(.3, 1))
        p['frame'] = rng.choice(['icrs', 'icrs', 'fk5'])
        p['lat'] = rng.choice([-1, 1]) * (90 - rng.choice([0., .3, 2.]) * p['size'])
    return p


GEN['sky'] = gen_sky


def cart(ra, dec):
    ra, dec = np.deg2rad(ra), np.deg2rad(dec)
    return np.stack([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)], axis=-1)


@law('sky')
def _(p, pit, w):
    from marxs import source
    from marxs.source.basesources import RadialDistributionSource
    c0 = SkyCoord(p['lon'], p['lat'], unit='deg', frame=p['frame'])
    ic = c0.icrs
    c = cart(ic.ra.deg, ic.dec.deg)
    ra = np.deg2rad(ic.ra.deg)
    e = np.array([-np.sin(ra), np.cos(ra), 0])
    nth = np.cross(c, e)
    size = (p['size'] * u.deg).to(u.Unit(p['sunit']))

    def build():
        kw = dict(coords=c0, flux=1 / u.s / u.cm**2, **source_kw(p))
        t = p['t']
        if t == 'disk':
            return source.DiskSource(a_outer=size, a_inner=p['inner'] * size, **kw)
        if t == 'sphdisk':
            return source.SphericalDiskSource(a_outer=size, a_inner=p['inner'] * size, **kw)
        if t == 'gauss':
            return source.GaussSource(sigma=size, **kw)
        if t == 'radial':
            return RadialDistributionSource(radial_distribution=lambda n: np.full(n, p['size']) * u.deg, **kw)
        return source.SymbolFSource(size=size, **kw)

    def call(obj, n):
        ph = obj.generate_photons((n - .5) * u.s)
        out = source_cols(p, ph)
        pra, pdec = lib.need(ph, 'ra'), lib.need(ph, 'dec')
        if p['t'] == 'symbolf':
            dx = (pra - ic.ra.deg + 180) % 360 - 180
            dy = pdec - ic.dec.deg
            s = p['size']
            tol = 1e-6 * s
            h = np.abs(dy) < tol
            # the position along the arm; the share of each arm is not specified
            out['along'] = np.where(h, dx / s, np.where(np.abs(dx - s) < tol, dy / (.5 * s), dy / (.3 * s)))
            return {'u': out}
        v = cart(pra, pdec)
        x, y = v @ e, v @ nth
        d = np.arctan2(np.hypot(x, y), v @ c)
        az = np.arctan2(y, x)
        s = np.deg2rad(p['size'])
        if p['t'] == 'gauss':
            out['x'] = phi_cdf(d * np.cos(az) / s)
            out['y'] = phi_cdf(d * np.sin(az) / s)
            return {'u': out}
        out['azimuth'] = (az / (2 * np.pi)) % 1
        a = p['inner'] * s
        if p['t'] == 'disk':
            out['radius'] = (d**2 - a**2) / (s**2 - a**2)
        elif p['t'] == 'sphdisk':
            out['radius'] = (np.sin(d / 2)**2 - np.sin(a / 2)**2) / (np.sin(s / 2)**2 - np.sin(a / 2)**2)
        return {'u': out}
    return build, call


GEN['farlab'] = lambda rng: dict(gen_spectrum(rng), pos=[rng.uniform(50, 500), rng.uniform(-50, 50), rng.uniform(-50, 50)], z=[lib.U(rng, .1, 50), lib.U(rng, .1, 50)],
                                 rot=[rng.choice([0., rng.uniform(-1, 1)]) for _ in range(3)], at=[rng.uniform(-5, 5) for _ in range(3)])


@law('farlab')
def _(p, pit, w):
    from marxs import source
    R = euler2mat(*p['rot'])

    def build():
        return source.FarLabPointSource(p['pos'], position=p['at'], zoom=[1, p['z'][0], p['z'][1]], orientation=R, **source_kw(p))

    def call(obj, n):
        ph = obj.generate_photons((n - .5) * u.s)
        out = source_cols(p, ph)
        loc = (lib.need(ph, 'pos')[:, :3] - p['at']) @ R
        out['y'] = (loc[:, 1] / p['z'][0] + 1) / 2
        out['z'] = (loc[:, 2] / p['z'][1] + 1) / 2
        return {'u': out}
    return build, call


GEN['cone'] = lambda rng: dict(gen_spectrum(rng), half=rng.choice([.02, .3, 1., math.pi / 2, 2.5, math.pi]), dir=[rng.uniform(-1, 1) for _ in range(3)],
                               pos=[rng.uniform(-10, 10) for _ in range(3)])


@law('cone')
def _(p, pit, w):
    from marxs import source

    def build():
        return source.LabPointSourceCone(position=p['pos'], half_opening=p['half'], direction=p['dir'], **source_kw(p))

    def call(obj, n):
        ph = obj.generate_photons((n - .5) * u.s)
        out = source_cols(p, ph)
        d = lib.need(ph, 'dir')
        ax = np.tile(np.array(p['dir']) / np.linalg.norm(p['dir']), (len(d), 1))
        ang, az = deviation(ax, d)
        out['azimuth'] = az
        out['angle'] = np.sin(ang / 2)**2 / np.sin(p['half'] / 2)**2
        return {'u': out}
    return build, call


GEN['jitter'] = lambda rng: {'sig': 10**rng.uniform(-2, 2.3), 'lon': lib.U(rng, 0, 360), 'lat': lib.U(rng, -80, 80), 'roll': lib.U(rng, 0, 360), 'neg': rng.random() < .1, 'burst': rng.choice([1, 1, 2, 7])}


@law('jitter')
def _(p, pit, w):
    from marxs import source
    c0 = SkyCoord(p['lon'], p['lat'], unit='deg')

    def build():
        return source.PointSource(coords=c0), source.JitterPointing(coords=c0, roll=p['roll'] * u.deg, jitter=(-1 if p['neg'] else 1) * p['sig'] * u.arcsec), \
            source.FixedPointing(coords=c0, roll=p['roll'] * u.deg)

    def call(obj, n):
        ph = obj[0].generate_photons((n - .5) * u.s)
        # "uncorrelated, even if these two photons arrive at the same time"
        ph['time'] = ph['time'] // p.get('burst', 1)
        ref = lib.need(obj[2](ph.copy()), 'dir')
        d = lib.need(obj[1](ph.copy()), 'dir')
        ang, az = deviation(ref, d)
        s = np.deg2rad(p['sig'] / 3600)
        return {'u': {'angle': special.erf(ang / s / np.sqrt(2)), 'azimuth': az}}
    return build, call


GEN['gscatter'] = lambda rng: {'sig': 10**rng.uniform(-7, -2), 'via': rng.choice(['const', 'const', 'func']), 'unit': rng.choice(['rad', 'arcsec', 'deg']), 'miss': rng.choice([0., .3])}


@law('gscatter')
def _(p, pit, w):
    from marxs import optics
    s = (p['sig'] * u.rad).to(u.Unit(p['unit']))

    def build():
        sc = s if p['via'] == 'const' else (lambda ph, inter, ip, ic: np.full(int(inter.sum()), s.value) * s.unit)
        return optics.RandomGaussianScatter(scatter=sc, zoom=[1, 100, 100])

    def call(obj, n):
        ph = photons(n, pit.r, half=90, miss=p['miss'])
        if (ph['pos'].data[:, 1] > 100).all():
            obj(ph)
            return {'u': {}}
        din = ph['dir'].data.copy()
        hit = np.abs(ph['pos'].data[:, 1]) < 100
        out = obj(ph)
        ang, az = deviation(din, lib.need(out, 'dir'))
        if (ang[~hit] != 0).any():
            raise Violation('scatter-miss', 'a photon that missed the scatter element was scattered')
        ang, az = ang[hit], az[hit]
        if p['via'] == 'func':
            if len(ang) and not np.allclose(ang, p['sig'], rtol=1e-4):
                raise Violation('scatter-func', f'the user function asked for {p["sig"]} rad, the ray changed by {ang[0]}')
            return {'u': {'azimuth': az}}
        col = lib.need(out, 'scatter')[hit]
        if not np.allclose(np.abs(col), ang, rtol=1e-3, atol=1e-12):
            raise Violation('scatter-column', 'scatter column does not hold the angle by which the ray changed')
        return {'u': {'angle': special.erf(ang / p['sig'] / np.sqrt(2)), 'azimuth': az, 'signed': phi_cdf(col / p['sig'])}}
    return build, call


GEN['rscatter'] = lambda rng: {'a': rng.choice([0., 10**rng.uniform(-7, -4), 10**rng.uniform(-7, -4)]), 'b': rng.choice([0., 10**rng.uniform(-7, -4), 10**rng.uniform(-7, -4)]),
                               'unit': rng.choice(['rad', 'arcsec']), 'c': [0., rng.uniform(-20, 20), rng.uniform(-20, 20)]}


@law('rscatter')
def _(p, pit, w):
    from marxs import optics

    def build():
        return optics.RadialMirrorScatter(inplanescatter=(p['a'] * u.rad).to(u.Unit(p['unit'])), perpplanescatter=(p['b'] * u.rad).to(u.Unit(p['unit'])),
                                          position=p['c'], zoom=[1, 200, 200])

    def call(obj, n):
        ph = photons(n, pit.r, x=0., half=90)
        din = ph['dir'].data.copy()
        out = obj(ph)
        rad = lib.need(out, 'pos')[:, :3] - p['c']
        rad /= np.linalg.norm(rad, axis=1)[:, None]
        d = lib.need(out, 'dir')[:, :3]
        x = np.einsum('ij,ij->i', d, rad)
        y = np.einsum('ij,ij->i', d, np.cross(din[:, :3], rad))
        res = {}
        for nm, v, s in (('in-plane', x, p['a']), ('perpendicular', y, p['b'])):
            if s == 0:
                if (np.abs(v) > 1e-9).any():
                    raise Violation('scatter-zero', f'{nm} scatter of {np.abs(v).max()} rad although none was asked for')
            else:
                # the two rotations do not commute exactly: the other component adds up to 1e-4 of itself
                res[nm] = phi_cdf(v / s)
                if max(p['a'], p['b']) > 300 * s:
                    res.pop(nm)
        return {'u': res}
    return build, call


def gen_aperture(rng):
    t = rng.choice(['rect', 'circ', 'circ', 'multi', 'multi', 'hrma'])
    els = []
    for k in range(rng.randint(2, 6) if t == 'multi' else 1):
        els.append({'t': rng.choice(['rect', 'circ']) if t == 'multi' else t, 'y': 120. * k, 'zy': lib.U(rng, 1, 50), 'zz': lib.U(rng, 1, 50), 'rin': rng.choice([0., lib.U(rng, .1, .98)]),
                    'phi': rng.choice([[0., 2 * math.pi], [0., 2 * math.pi], [1., 2.], [-.5, .5], [3., 5.5]])})
    return {'t': t, 'els': els, 'rot': [rng.choice([0., rng.uniform(-.5, .5)]) for _ in range(3)], 'offs': rng.choice([0, 7])}


GEN['aperture'] = gen_aperture


@law('aperture')
def _(p, pit, w):
    from marxs import optics
    from marxs.missions.chandra.hrma_py import Aperture, mirror_radii
    from marxs.missions.chandra.data import NOMINAL_FOCALLENGTH
    R = euler2mat(*p['rot'])
    if p['t'] == 'hrma':
        R = np.eye(3)
        els = [{'t': 'circ', 'y': 0., 'zy': float(r[1]), 'rin': float(r[0] / r[1]), 'phi': [0, 2 * math.pi], 'x': NOMINAL_FOCALLENGTH} for r in mirror_radii]
    else:
        els = p['els']

    def mk(e):
        if e['t'] == 'rect':
            return optics.RectangleAperture(position=[100, e['y'], 0], zoom=[1, e['zy'], e['zz']], orientation=R)
        return optics.CircleAperture(position=[100, e['y'], 0], zoom=[1, e['zy'], e['zy']], r_inner=e['rin'] * e['zy'], phi=e['phi'], orientation=R)

    def build():
        if p['t'] == 'hrma':
            return Aperture()
        if p['t'] == 'multi':
            return optics.MultiAperture(elements=[mk(e) for e in els], id_num_offset=p['offs'])
        return mk(els[0])
    area = np.array([4 * e['zy'] * e['zz'] if e['t'] == 'rect' else (e['phi'][1] - e['phi'][0]) / 2 * e['zy']**2 * (1 - e['rin']**2) for e in els])

    def call(obj, n):
        ph = photons(n, pit.r)
        ph.remove_column('pos')
        out = obj(ph)
        pos = lib.need(out, 'pos')
        res = {'u': {}, 'cat': {}}
        which = np.zeros(n, int)
        if p['t'] in ('multi', 'hrma'):
            which = np.asarray(lib.need(out, obj.id_col)).astype(int) - (p['offs'] if p['t'] == 'multi' else 0)
            if not ((which >= 0) & (which < len(els))).all():
                raise Violation('aperture-id', 'a photon is assigned to no aperture')
            res['cat']['aperture'] = (which, area)
        a, b = np.zeros(n), np.zeros(n)
        for k, e in enumerate(els):
            m = which == k
            loc = (pos[m, :3] - [e.get('x', 100.), e['y'], 0]) @ R
            y, z = loc[:, 1], loc[:, 2]
            if e['t'] == 'rect':
                a[m], b[m] = (y / e['zy'] + 1) / 2, (z / e['zz'] + 1) / 2
            else:
                a[m] = ((y**2 + z**2) / e['zy']**2 - e['rin']**2) / (1 - e['rin']**2)
                f = np.arctan2(z, y) - e['phi'][0]
                b[m] = (f % (2 * np.pi)) / (e['phi'][1] - e['phi'][0])
        res['u']['first'] = a
        res['u']['second'] = b
        return res
    return build, call


def gen_probs(rng, n):
    k = rng.random()
    q = [rng.choice([0., rng.random(), rng.random(), 10**rng.uniform(-3, 0)]) for _ in range(n)]
    if not any(q):
        q[rng.randrange(n)] = 1.
    tot = rng.choice([.999, rng.random(), 1e-3 + rng.random() * .1]) if k < .9 else 1e-8
    return [x / sum(q) * tot for x in q]


def gen_orders(rng):
    n = rng.randint(1, 11)
    lo = rng.randint(-8, 2)
    return {'orders': list(range(lo, lo + n)), 'p': gen_probs(rng, n) if rng.random() < .8 else None, 'via': rng.choice(['direct', 'scalar', 'flat', 'cat']), 'shuffle': rng.randrange(1000)}


GEN['orders'] = gen_orders


def order_result(orders, P, m, prob, total, pit, what):
    """orders: order number per column of P; P per photon or common."""
    m = np.asarray(m)
    prob = np.asarray(prob, float)
    if not (np.abs(prob - total) <= 1e-9 * np.abs(total) + 1e-15).all():
        k = int(np.argmax(np.abs(prob - total)))
        raise Violation('total-efficiency', f'{what}: photon {k} has probability {prob[k]}, the efficiencies of all orders add up to {np.broadcast_to(total, prob.shape)[k]}')
    lut = {o: j for j, o in enumerate(orders)}
    bad = [x for x in m.tolist() if x not in lut]
    if bad:
        raise Violation('order', f'{what}: order {bad[0]} is not in {orders}')
    return {'u': {}, 'cat': {'order': (np.array([lut[x] for x in m.tolist()], dtype=int), P)}}


def grating(sel, via):
    from marxs import optics
    cls = optics.CATGrating if via == 'cat' else optics.FlatGrating
    return cls(d=1e-3, order_selector=sel, zoom=[1, 100, 100])


def use_selector(obj, via, n, pit, energy, blaze=None):
    """-> orders, probabilities"""
    if via in ('flat', 'cat'):
        out = obj(photons(n, pit.r, half=90, energy=energy))
        return lib.need(out, 'order'), lib.need(out, 'probability')
    if via == 'scalar':
        r = [obj(float(e), None, None) for e in energy]
        return np.array([x[0] for x in r]), np.array([x[1] for x in r])
    pol = np.zeros((n, 4))
    return obj(energy, pol, np.zeros(n) if blaze is None else blaze)


@law('orders')
def _(p, pit, w):
    from marxs import optics
    n0 = len(p['orders'])
    perm = np.random.RandomState(p['shuffle']).permutation(n0)
    orders = [p['orders'][k] for k in perm]
    P = np.full(n0, 1 / n0) if p['p'] is None else np.array([p['p'][k] for k in perm])

    def build():
        sel = optics.OrderSelector(orders, p=None if p['p'] is None else list(P))
        return grating(sel, p['via']) if p['via'] in ('flat', 'cat') else sel

    def call(obj, n):
        if p['via'] == 'scalar':
            n = min(n, 300)
        # CAT gratings count orders with the opposite direction convention, not the opposite number
        m, prob = use_selector(obj, p['via'], n, pit, pit.r.uniform(.5, 8., n))
        return order_result(orders, P, m, prob, P.sum(), pit, f"OrderSelector ({p['via']})")
    return build, call


def gen_efffile(rng):
    ne, no = rng.randint(1, 8), rng.randint(1, 9)
    e = sorted(round(rng.uniform(.2, 9), 4) + 1e-3 * k for k in range(ne))
    lo = rng.randint(-6, 1)
    rows = [gen_probs(rng, no) for _ in range(ne)]
    if ne > 1 and rng.random() < .3:
        rows[rng.randrange(ne)] = [0.] * no
    return {'e': e, 'rows': rows, 'orders': list(range(lo, lo + no)), 'via': rng.choice(['direct', 'flat']), 'down': rng.random() < .3, 'name': f'eff{rng.randrange(10**6)}.dat'}


GEN['efffile'] = gen_efffile


@law('efffile')
def _(p, pit, w):
    from marxs import optics
    e = np.array(p['e'])
    rows = np.array(p['rows'])
    if p['down']:
        e, rows = e[::-1], rows[::-1]
    fn = os.path.join(w.scratch(), p['name'])
    np.savetxt(fn, np.column_stack([e, rows]), fmt='%.17g')

    def build():
        sel = optics.EfficiencyFile(fn, p['orders'])
        return grating(sel, p['via']) if p['via'] == 'flat' else sel

    def call(obj, n):
        n = min(n, 3000)
        en = pit.r.uniform(.1, 10., n)
        near = np.argmin(np.abs(e[None, :] - en[:, None]), axis=1)
        tot = rows[near].sum(axis=1)
        m, prob = use_selector(obj, p['via'], n, pit, en)
        ok = tot > 0
        r = order_result(p['orders'], rows[near], m, prob, tot, pit, f"EfficiencyFile ({p['via']})")
        idx, P = r['cat']['order']
        r['cat']['order'] = (idx[ok], P[ok])
        return r
    return build, call


def gen_efftable(rng):
    nw, nt, no = rng.randint(2, 5), rng.randint(2, 5), rng.randint(1, 8)
    wave = sorted(round(rng.uniform(.5, 5), 3) + .01 * k for k in range(nw))
    th = sorted(round(rng.uniform(0, 4), 3) + .01 * k for k in range(nt))
    kind = rng.choice(['plain', 'plain', 'wavy', 'tophat'])
    lo = rng.randint(-10, 1)
    q = [gen_probs(rng, no) for _ in range(nw * nt)]
    return {'wave': wave, 'theta': th, 'orders': list(range(lo, lo + no)), 'q': q, 'kind': kind, 'width': rng.uniform(.01, .2), 'slope': rng.uniform(.1, .9), 'via': rng.choice(['direct', 'cat'])}


GEN['efftable'] = gen_efftable


@law('efftable')
def _(p, pit, w):
    from marxs.missions.mitsnl.catgrating import InterpolateEfficiencyTable
    from marxs.missions.mitsnl.tolerances import OrderSelectorWavy, OrderSelectorTopHat
    wave, th = np.array(p['wave']), np.array(p['theta'])
    q = np.array(p['q']).reshape(len(wave), len(th), -1)
    kind = p['kind']
    via = 'direct' if kind != 'plain' else p['via']
    if via == 'cat':
        th = th - th[0]                     # photons arrive along the normal: blaze angle 0
    if kind != 'plain':
        # total efficiency linear in the blaze angle: the offset applied to each photon can be read off
        th = np.array([-60., 0., 60.])
        f = np.array(p['q'])[0]
        f = f / f.sum()
        q = np.empty((len(wave), 3, len(f)))
        for j, t in enumerate(th):
            q[:, j, :] = f * (.5 + p['slope'] * .5 * t / 60.)
    tab = Table()
    tab['wave'] = np.repeat(wave, len(th))
    tab['wave'].unit = u.nm
    tab['theta'] = np.tile(th, len(wave))
    tab['theta'].unit = u.deg
    for k, o in enumerate(p['orders']):
        tab[str(o)] = q[:, :, k].ravel()
    hc = (1 * u.nm).to(u.keV, equivalencies=u.spectral()).value

    def build():
        if kind == 'wavy':
            return OrderSelectorWavy(p['width'], tab=tab, k=1)
        if kind == 'tophat':
            return OrderSelectorTopHat(p['width'], tab=tab, k=1)
        sel = InterpolateEfficiencyTable(tab, k=1)
        return grating(sel, 'cat') if via == 'cat' else sel

    def call(obj, n):
        wl = pit.r.uniform(wave[0], wave[-1], n)
        if kind != 'plain':
            bl = pit.r.uniform(-.2, .2, n)
            m, prob = obj(hc / wl, np.zeros((n, 4)), bl)
            off = np.deg2rad((np.asarray(prob) - .5) / (p['slope'] * .5) * 60.) - bl
            res = order_result(p['orders'], f, m, prob, prob, pit, kind)
            if kind == 'wavy':
                ok = np.abs(off + bl) < np.deg2rad(59.9)
                res['u']['offset'] = phi_cdf(off / p['width'])[ok]
                res['cat'] = {'order': (res['cat']['order'][0][ok], f)}
            else:
                res['u']['offset'] = off / p['width'] + .5
            return res
        bl = pit.r.uniform(th[0], th[-1], n) if via == 'direct' else np.zeros(n)
        m, prob = use_selector(obj, via, n, pit, hc / wl, np.deg2rad(bl))
        i = np.clip(np.searchsorted(wave, wl) - 1, 0, len(wave) - 2)
        j = np.clip(np.searchsorted(th, bl) - 1, 0, len(th) - 2)
        fx = ((wl - wave[i]) / (wave[i + 1] - wave[i]))[:, None]
        fy = ((bl - th[j]) / (th[j + 1] - th[j]))[:, None]
        P = (1 - fx) * (1 - fy) * q[i, j] + fx * (1 - fy) * q[i + 1, j] + (1 - fx) * fy * q[i, j + 1] + fx * fy * q[i + 1, j + 1]
        prob = np.asarray(prob)
        tot = P.sum(axis=1)
        if not np.allclose(prob, tot, rtol=1e-5, atol=1e-12):
            k = int(np.argmax(np.abs(prob - tot)))
            raise Violation('total-efficiency', f'efficiency table: photon {k} has probability {prob[k]}, the interpolated efficiencies add up to {tot[k]}')
        return order_result(p['orders'], P, m, prob, prob, pit, 'efficiency table')
    return build, call


GEN['ccd'] = lambda rng: {'e': sorted(round(rng.uniform(.2, 9), 3) + .01 * k for k in range(rng.randint(2, 6))), 's': [rng.uniform(.01, .3) for _ in range(8)], 'kind': rng.choice(['sigma', 'FWHM']),
                          'unit': rng.choice(['keV', 'eV']), 'miss': rng.choice([0., .2])}


@law('ccd')
def _(p, pit, w):
    from marxs.optics.detector import CCDRedistNormal
    e = np.array(p['e'])
    s = np.array(p['s'][:len(e)])

    def build():
        t = QTable()
        t['energy'] = (e * u.keV).to(u.Unit(p['unit']))
        t[p['kind']] = ((s if p['kind'] == 'sigma' else s * 2 * math.sqrt(2 * math.log(2))) * u.keV).to(u.Unit(p['unit']))
        return CCDRedistNormal(tab_width=t, zoom=[1, 100, 100])

    def call(obj, n):
        en = pit.r.uniform(.1, 10., n)
        ph = photons(n, pit.r, half=90, miss=p['miss'], energy=en)
        hit = np.abs(ph['pos'].data[:, 1]) < 100
        if not hit.any():
            return {'u': {}}
        out = obj(ph)
        det = u.Quantity(out[obj.energycol].data if out[obj.energycol].unit is None else out[obj.energycol], u.keV).value
        sig = np.interp(en, e, s)
        q = en * u.keV
        for x in (q, q.to(u.eV), q.to(u.Angstrom, equivalencies=u.spectral())):
            got = u.Quantity(obj.sig_ccd(x), u.keV).value
            if not np.allclose(got, sig, rtol=1e-9):
                raise Violation('ccd-width', f'width of the CCD resolution for energies in {x.unit}: {got[:3]} keV, the table gives {sig[:3]}')
        for x in (q, q.to(u.eV)):
            lo, hi = [u.Quantity(v, u.keV).value for v in obj.interval(.9, x)]
            if not (np.allclose(phi_cdf((hi - en) / sig) - phi_cdf((lo - en) / sig), .9, atol=1e-6) and np.allclose(hi - en, en - lo, rtol=1e-6, atol=1e-12)):
                raise Violation('ccd-interval', f'interval with 90% for energies in {x.unit} is {lo[:3]}..{hi[:3]} for width {sig[:3]} around {en[:3]} keV')
            got = np.asarray(obj.cdf(x + sig * u.keV * .7, x), dtype=float)
            if not np.allclose(got, phi_cdf(.7), atol=1e-9):
                raise Violation('ccd-cdf', f'cumulative distribution 0.7 sigma above the energy in {x.unit}: {got[:3]}, expected {phi_cdf(.7)}')
        return {'u': {'energy': phi_cdf((det - en) / sig)[hit]}}
    return build, call


def gen_sig(rng, hi):
    return [rng.choice([0., 10**rng.uniform(-5, 0) * hi, 10**rng.uniform(-5, 0) * hi]) for _ in range(3)]


GEN['facets'] = lambda rng: {'t': gen_sig(rng, 5.), 'r': gen_sig(rng, .2), 'to': rng.choice([0, 0, rng.uniform(-1, 1)]), 'ro': rng.choice([0, 0, rng.uniform(-.1, .1)])}


def mats_cols(mats, t, r, to=0., ro=0.):
    m = np.array(mats)
    if not np.isfinite(m).all():
        raise Violation('uncertainty', 'misalignment matrix is not finite')
    R = m[:, :3, :3]
    if not np.allclose(np.einsum('nij,nkj->nik', R, R), np.eye(3), atol=1e-9) or not np.allclose(m[:, 3], [0, 0, 0, 1]):
        raise Violation('uncertainty', 'misalignment matrix is not a rotation and translation')
    ay = -np.arcsin(np.clip(R[:, 2, 0], -1, 1))
    ax = np.arctan2(R[:, 2, 1], R[:, 2, 2])
    az = np.arctan2(R[:, 1, 0], R[:, 0, 0])
    vals = [m[:, 0, 3], m[:, 1, 3], m[:, 2, 3], ax, ay, az]
    to = np.broadcast_to(to, (len(m), 3))
    ro = np.broadcast_to(ro, (len(m), 3))
    off = [to[:, 0], to[:, 1], to[:, 2], ro[:, 0], ro[:, 1], ro[:, 2]]
    out = {}
    for nm, v, s, o in zip(['dx', 'dy', 'dz', 'rx', 'ry', 'rz'], vals, list(t) + list(r), off):
        if s == 0:
            if not np.allclose(v, o, atol=1e-12):
                raise Violation('uncertainty-zero', f'{nm} is {v[0]}, {o[0]} was asked for without any scatter')
        elif s > 1e-7:
            out[nm] = phi_cdf((v - o) / s)
    return out


@law('facets')
def _(p, pit, w):
    from marxs.design.uncertainties import generate_facet_uncertainty

    def build():
        return generate_facet_uncertainty

    def call(obj, n):
        n = min(n, 1000)
        m = obj(n, p['t'], p['r'], trans_offset=p['to'], rot_offset=p['ro'])
        if len(m) != n:
            raise Violation('uncertainty-number', f'{len(m)} matrices for {n} facets')
        return {'u': mats_cols(m, p['t'], p['r'], p['to'], p['ro'])}
    return build, call


GEN['wiggle'] = lambda rng: {'t': gen_sig(rng, 5.), 'r': gen_sig(rng, .2), 'n': [rng.randint(1, 30) for _ in range(rng.choice([1, 2]))]}


def parallels(ns, cls, **kw):
    from marxs.simulator import Parallel
    return [Parallel(elem_class=cls, elem_pos={'position': [[0., 30. * k, 200. * j] for k in range(n)], 'zoom': [[1., 10., 10.]] * n}, elem_args=dict(kw)) for j, n in enumerate(ns)]


@law('wiggle')
def _(p, pit, w):
    from marxs import optics
    from marxs.design.tolerancing import wiggle

    def build():
        return parallels(p['n'], optics.FlatDetector)

    def call(obj, n):
        wiggle(obj if len(obj) > 1 else obj[0], **dict(zip(['dx', 'dy', 'dz', 'rx', 'ry', 'rz'], p['t'] + p['r'])))
        return {'u': mats_cols([m for o in obj for m in o.elem_uncertainty], p['t'], p['r'])}
    return build, call


GEN['period'] = lambda rng: {'mean': rng.uniform(1e-4, 1e-3), 'sig': 10**rng.uniform(-8, -5), 'n': [rng.randint(1, 25)]}


@law('period')
def _(p, pit, w):
    from marxs import optics
    from marxs.design.tolerancing import varyperiod

    def build():
        return parallels(p['n'], optics.FlatGrating, d=1e-3, order_selector=optics.OrderSelector([0]))[0]

    def call(obj, n):
        varyperiod(obj.elements, p['mean'], p['sig'])
        d = np.array([float(e.d(np.zeros((1, 2)))) for e in obj.elements])
        return {'u': {'period': phi_cdf((d - p['mean']) / p['sig'])}}
    return build, call


GEN['bartilt'] = lambda rng: {'t': gen_sig(rng, 5.), 'r': gen_sig(rng, .05), 'n': [rng.randint(1, 20)], 'max': rng.uniform(.001, .1)}


@law('bartilt')
def _(p, pit, w):
    from marxs import optics
    from marxs.missions.mitsnl.catgrating import NonParallelCATGrating
    from marxs.missions.mitsnl.tolerances import wiggle_and_bar_tilt

    def build():
        return parallels(p['n'], NonParallelCATGrating, d=1e-3, order_selector=optics.OrderSelector([0]))[0]

    def call(obj, n):
        wiggle_and_bar_tilt(obj, max_bar_tilt=p['max'], **dict(zip(['dx', 'dy', 'dz', 'rx', 'ry', 'rz'], p['t'] + p['r'])))
        tilt = np.array([e.blaze_center for e in obj.elements])
        ro = np.zeros((len(tilt), 3))
        ro[:, 1] = -tilt
        out = mats_cols(obj.elem_uncertainty, p['t'], p['r'], 0., ro)
        out['tilt'] = (tilt / p['max'] + 1) / 2
        return {'u': out}
    return build, call


GEN['l1'] = lambda rng: {'bar': rng.choice([.0009, rng.uniform(.0002, .0045)]), 'depth': rng.uniform(.001, .01)}


@law('l1')
def _(p, pit, w):
    from marxs.missions.mitsnl.catgrating import L1, l1_order_selector
    P = np.array(l1_order_selector.p, float)
    orders = list(l1_order_selector.orderlist)
    from marxs.missions.mitsnl.catgrating import l1transtab

    def build():
        return L1(l1_dims={'bardepth': p['depth'] * u.mm, 'period': .005 * u.mm, 'barwidth': p['bar'] * u.mm}, order_selector=l1_order_selector, zoom=[1, 100, 100])
    e = l1transtab['energy'].to(u.keV, equivalencies=u.spectral()).value
    lo, hi = max(.3, e.min()), min(2., e.max())

    def call(obj, n):
        en = pit.r.uniform(lo, hi, n)
        out = obj(photons(n, pit.r, half=90, energy=en))
        prob = lib.need(out, 'probability')
        m = lib.need(out, 'order_L1')
        thru = np.isclose(prob, P.sum(), rtol=1e-9)
        f = p['bar'] / .005
        res = {'u': {}, 'cat': {'bar': ((~thru).astype(int), [1 - f, f])}}
        r = order_result(orders, P, m[thru], prob[thru], P.sum(), pit, 'L1')
        res['part'] = {'order': r['cat']['order']}
        if (m[~thru] != 0).any():
            raise Violation('l1-bar', 'a photon that went through a support bar is diffracted')
        return res
    return build, call


GEN['l2'] = lambda rng: {'bar': rng.choice([.096225, rng.uniform(.05, .9)])}


@law('l2')
def _(p, pit, w):
    from marxs.missions.mitsnl.catgrating import L2Diffraction

    def build():
        return L2Diffraction(l2_dims={'bardepth': .5 * u.mm, 'period': .9622504 * u.mm, 'barwidth': p['bar'] * u.mm}, zoom=[1, 100, 100])
    hc = (1 * u.mm).to(u.keV, equivalencies=u.spectral()).value

    def call(obj, n):
        en = pit.r.uniform(.3, 5., n)
        ph = photons(n, pit.r, half=90, energy=en)
        din = ph['dir'].data.copy()
        out = obj(ph)
        ang, az = deviation(din, lib.need(out, 'dir'))
        sig = 1.22 * .4 * np.arcsin(hc / en / (.9622504 - p['bar']))
        return {'u': {'angle': special.erf(ang / sig / np.sqrt(2)), 'azimuth': az}}
    return build, call


def gen_pdf(rng):
    e, f = gen_bins(rng, -5, 5)
    return {'x': e, 'f': f, 'rand': rng.random() < .6, 'sort': rng.random() < .6}


GEN['pdf'] = gen_pdf


@law('pdf')
def _(p, pit, w):
    from marxs.math.random import RandomArbitraryPdf
    x, f = np.array(p['x']), np.array(p['f'])

    def build():
        return RandomArbitraryPdf(x, f, randomize_in_bin=p['rand'], sort=p['sort'])

    def call(obj, n):
        v = np.asarray(obj(n))
        if v.shape != (n,):
            raise Violation('pdf-number', f'{v.shape} values instead of {n}')
        if p['rand']:
            return {'u': {'value': table_pit(v, x, f)}}
        idx = np.searchsorted(x, v)
        if not np.array_equal(x[np.clip(idx, 0, len(x) - 1)], v):
            raise Violation('pdf-edge', f'value {v[0]} is not an upper bin edge')
        wgt = np.concatenate([[0], np.diff(x) * f[1:]])
        return {'u': {}, 'cat': {'bin': (idx, wgt)}}
    return build, call


# ------------------------------------------------------------------ statistics

class Judge:
    def __init__(self, obs, who):
        self.obs = obs
        self.who = who
        self.tests = 0

    def bad(self, kind, msg):
        raise Violation(kind, f'{self.who}: {msg}', key=kind)

    def uniform(self, x, what, kind='distribution'):
        """Massart's bound on the Kolmogorov distance."""
        n = len(x)
        if n < 20:
            return
        self.tests += 1
        x = np.sort(x)
        i = np.arange(n)
        d = max(((i + 1) / n - x).max(), (x - i / n).max())
        if 2 * n * d * d > LN:
            at = x[int(np.argmax(np.maximum((i + 1) / n - x, x - i / n)))]
            self.bad(kind, f'{what}: {n} draws do not follow the requested law (distance {d:.4f} of the distribution functions at {at:.3f}, expected about {1 / np.sqrt(n):.4f})')

    def scores(self, x, what):
        n = len(x)
        if n < 20:
            return
        self.tests += 2
        z = special.ndtri(np.clip(x, 1e-16, 1 - 1e-16))
        m = z.mean() * np.sqrt(n)
        if m * m / 2 > LN:
            self.bad('mean', f'{what}: mean of {n} draws is off by {abs(m):.1f} standard errors')
        s = (z**2).sum()
        p = min(stats.chi2.sf(s, n), stats.chi2.cdf(s, n))
        if p < math.exp(-LN):
            self.bad('width', f'{what}: the width of the distribution of {n} draws is {np.sqrt(s / n):.4f} times the requested one')

    def uncorrelated(self, a, b, what, kind):
        """Bernstein bound for the sum of products of centered uniform numbers."""
        n = len(a)
        if n < 100:
            return
        self.tests += 2
        for f in (lambda x: x - .5, lambda x: np.abs(x - .5) * 2 - .5):
            s = abs(float((f(a) * f(b)).sum()))
            v = n / 144 * 1.25
            if s * s / (2 * (v + .25 * s / 3)) > LN:
                self.bad(kind, f'{what}: {n} pairs of draws are correlated ({s / np.sqrt(n / 144):.1f} sigma)')

    def independent(self, a, b, what, kind):
        self.uncorrelated(a, b, what, kind)
        if len(a) >= 100:
            self.uniform((a + b) % 1, what + ' (sum)', kind)
            self.uniform((a - b) % 1, what + ' (difference)', kind)

    def share(self, k, n, p, what):
        """Chernoff bound for the number of successes (mean probability p)."""
        self.tests += 1
        if n == 0:
            return
        q = k / n
        if p <= 0:
            if k:
                self.bad('zero-probability', f'{what}: chosen {k} times although its probability is zero')
            return
        if p >= 1:
            return
        kl = (q * math.log(q / p) if q > 0 else 0.) + ((1 - q) * math.log((1 - q) / (1 - p)) if q < 1 else 0.)
        if n * kl > LN:
            self.bad('share', f'{what}: chosen {k} times in {n} draws, expected {n * p:.1f}')


def judge_client(obs, who, recs, pit):
    j = Judge(obs, who)
    cols = {}
    cats = {}
    for r in recs:
        for nm, (idx, P) in list(r.get('cat', {}).items()) + list(r.get('part', {}).items()):
            P = np.asarray(P, float)
            P = P / (P.sum() if P.ndim == 1 else P.sum(axis=1)[:, None])
            P = np.broadcast_to(P, (len(idx), P.shape[-1]))
            c = cats.setdefault(nm, [np.zeros(P.shape[1]), np.zeros(P.shape[1]), 0])
            c[0] += np.bincount(idx, minlength=P.shape[1])
            c[1] += P.sum(axis=0)
            c[2] += len(idx)
        for nm, (idx, P) in r.get('cat', {}).items():
            r.setdefault('u', {})['cat ' + nm] = pit.cat(idx, P)
        for nm, x in r.get('u', {}).items():
            if not np.isfinite(x).all():
                raise Violation('not-finite', f'{who}: {nm} has undefined values')
            cols.setdefault(nm, []).append(x)
    for nm, (o, e, n) in cats.items():
        for k in range(len(o)):
            j.share(int(o[k]), n, e[k] / n if n else 0., f'{nm} number {k}')
    for nm, parts in cols.items():
        x = np.concatenate(parts)
        obs.count('draws', len(x))
        if len(x) and ((x < -1e-6) | (x > 1 + 1e-6)).any():
            b = x[(x < -1e-6) | (x > 1 + 1e-6)][0]
            raise Violation('outside', f'{who}: {nm} is outside of the requested range (fraction {b})')
        j.uniform(x, nm)
        j.scores(x, nm)
        j.uniform(np.array([q[0] for q in parts if len(q)]), nm + ' of the first photon of each call', 'first-photon')
        j.uniform(np.array([q[-1] for q in parts if len(q)]), nm + ' of the last photon of each call', 'last-photon')
        for lag in (1, 2):
            a = [q[:-lag] for q in parts if len(q) > lag]
            b = [q[lag:] for q in parts if len(q) > lag]
            if a:
                j.uncorrelated(np.concatenate(a), np.concatenate(b), f'{nm} of photons {lag} apart', 'dependent-photons')
        # pairs that do not overlap: a proper sample of the joint distribution of neighbours
        a = [q[0:2 * (len(q) // 2):2] for q in parts]
        b = [q[1:2 * (len(q) // 2):2] for q in parts]
        if a:
            j.independent(np.concatenate(a), np.concatenate(b), f'{nm} of neighbouring photons', 'dependent-photons')
        ind = [(np.arange(len(q)) + .5) / len(q) for q in parts if len(q) > 1]
        if ind:
            j.uncorrelated(np.concatenate(ind), np.concatenate([q for q in parts if len(q) > 1]), f'{nm} and the position in the list', 'index-dependent')
        a, b = [], []
        for q1, q2 in zip(parts[0::2], parts[1::2]):
            m = min(len(q1), len(q2))
            a.append(q1[:m])
            b.append(q2[:m])
        if a:
            j.independent(np.concatenate(a), np.concatenate(b), f'{nm} in successive calls', 'dependent-calls')
    names = sorted(cols)
    for i1, n1 in enumerate(names):
        for n2 in names[i1 + 1:]:
            if {n1, n2} == {'angle', 'signed'}:
                continue
            ok = [(p, q) for p, q in zip(cols[n1], cols[n2]) if len(p) == len(q)]
            if len(ok) == len(cols[n1]) == len(cols[n2]):
                j.independent(np.concatenate([p for p, q in ok]), np.concatenate([q for p, q in ok]), f'{n1} and {n2}', 'dependent-properties')
    one = {}
    plain = {}
    for r in recs:
        for nm, x in r.get('u1', {}).items():
            one.setdefault(nm, []).append(x)
        for nm, x in r.get('plain', {}).items():
            plain.setdefault(nm, []).append(x)
    for nm, parts in one.items():
        x = np.concatenate(parts)
        j.uniform(x, nm)
        j.scores(x, nm)
        j.uncorrelated(x[:-1], x[1:], nm + ' of successive calls', 'dependent-calls')
    tot = [r['total'] for r in recs if 'total' in r]
    if tot:
        k, lam = sum(a for a, b in tot), sum(b for a, b in tot)
        j.tests += 1
        if k - lam - (k * math.log(k / lam) if k else 0.) < -LN:
            j.bad('rate', f'{k} photons in {len(tot)} exposures, expected {lam:.1f}')
    for nm, parts in plain.items():
        j.uniform(np.concatenate(parts), nm)
    obs.count('tests', j.tests)
    return cols


def run(plan, obs):
    w = world.current()
    clients = []
    for k, c in enumerate(plan['l_clients']):
        pit = PIT(c['seed'] ^ 0x5bd1e995)
        build, call = MK[c['law']](c['p'], pit, w)
        clients.append({'c': c, 'pit': pit, 'build': build, 'call': call, 'obj': None, 'recs': [], 'k': 0, 'who': f'client {k} ({c["law"]})'})

    def step(cl, traced):
        i = cl['k']
        cl['k'] += 1
        op = cl['c']['l_calls'][i]
        if cl['obj'] is None or op['fresh']:
            cl['obj'] = cl['build']()
        if 'seed' in op:
            np.random.seed((op['seed'] + 977 * i) % 2**32)
            obs.fault('reseed')
        if 'cut' in op and not traced:
            # a call that is interrupted; whatever it drew is not used
            def hook(code, line, left=[op['cut']]):
                left[0] -= 1
                if left[0] <= 0:
                    raise sched.Abort()
            try:
                with world.Steps(10**7, hook):
                    cl['call'](cl['obj'], min(op['n'], 100))
            except sched.Abort:
                obs.fault('interrupt')
        r = cl['call'](cl['obj'], op['n'])
        cl['recs'].append(r)

    if plan['mode'] == 'seq':
        order = list(plan['order'])
        todo = [sum(1 for x in order if x == k) for k in range(len(clients))]
        for k in order:
            if k < len(clients) and clients[k]['k'] < len(clients[k]['c']['l_calls']):
                step(clients[k], False)
        for cl in clients:
            while cl['k'] < len(cl['c']['l_calls']):
                step(cl, False)
        del todo
    else:
        sc = sched.Scheduler(plan['l_switches'], 'line')

        def mk(cl):
            def func():
                while cl['k'] < len(cl['c']['l_calls']):
                    step(cl, True)
            return func
        for k, cl in enumerate(clients):
            sc.spawn(f'c{k}', mk(cl), cl['c']['seed'])
        sc.run()
        obs.count('switches', sc.nswitch)
        for t in sc.trace:
            obs.event(*t)
        for c in sc.clients:
            if c.error is not None:
                raise c.error
    allraw = []
    for cl in clients:
        n = len(cl['recs'])
        cols = judge_client(obs, cl['who'], cl['recs'], cl['pit'])
        if n > 1:
            obs.nontrivial = True
        size = sum(len(q) for parts in cols.values() for q in parts)
        obs.state(cl['c']['law'], cl['c']['p'].get('t') or cl['c']['p'].get('via') or cl['c']['p'].get('kind') if not isinstance(cl['c']['p'].get('t'), list) else '', int(math.log2(n + 1)),
                  int(math.log10(size + 1)), plan['mode'])
        obs.count('calls', n)
        obs.event(cl['who'], n, hashlib.sha256(b''.join(np.round(np.concatenate(v), 9).tobytes() for k, v in sorted(cols.items()))).hexdigest()[:12])
        allraw += [np.concatenate(v) for k, v in sorted(cols.items()) if not k.startswith('cat ') and k != 'signed']
    if allraw:
        x = np.round(np.concatenate(allraw), 10)
        dup = len(x) - len(np.unique(x))
        if dup > 20 + .003 * len(x):
            raise Violation('reused-draws', f'{dup} of {len(x)} random outcomes occur more than once', key='reused-draws')
    for i1, c1 in enumerate(clients):
        for c2 in clients[i1 + 1:]:
            cross(obs, c1, c2)


def cross(obs, c1, c2):
    j = Judge(obs, f"{c1['who']} and {c2['who']}")
    r1, r2 = c1['recs'], c2['recs']
    for n1 in sorted(r1[0].get('u', {})) if r1 else []:
        for n2 in sorted(r2[0].get('u', {})) if r2 else []:
            a, b = [], []
            for p, q in zip(r1, r2):
                if n1 in p.get('u', {}) and n2 in q.get('u', {}):
                    m = min(len(p['u'][n1]), len(q['u'][n2]))
                    a.append(p['u'][n1][:m])
                    b.append(q['u'][n2][:m])
            if a:
                j.independent(np.concatenate(a), np.concatenate(b), f'{n1} and {n2}', 'dependent-clients')
    obs.count('tests', j.tests)
