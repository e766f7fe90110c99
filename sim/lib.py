"""Generator of instruments (JSON specs), builder (spec -> real marxs objects) and comparison helpers."""
import math
import warnings
warnings.simplefilter('ignore')
import numpy as np
import astropy.units as u
from astropy.table import Table, QTable
from astropy.coordinates import SkyCoord
from transforms3d.euler import euler2mat
from transforms3d.axangles import axangle2mat as axmat

import marxs
from marxs import optics, source, simulator
from marxs.base import TagVersion
from marxs.analysis.coords import ProjectOntoPlane
from marxs.design.rowland import RowlandTorus, GratingArrayStructure, RectangularGrid
from marxs.math.geometry import Cylinder
from sim.core import Violation, HarnessError

warnings.simplefilter('ignore')
warnings.showwarning = lambda *a, **k: None

F = 2000.0            # focal length [mm] of the generic instruments


class UserError(Exception):
    """Raised by simulated user code."""


class Callbacks:
    """User-supplied functions.  faults: {'n': global call index, 'kind': raise|neg|big|nan|short}."""

    def __init__(self, faults=(), hook=None):
        self.n = 0
        self.faults = {f['n']: f for f in faults}
        self.fired = []
        self.hook = hook
        self.store = {}   # instruments that are built as a whole

    def wrap(self, name, func, isprob=False):
        def userfunc(*args, **kwargs):
            i = self.n
            self.n += 1
            if self.hook is not None:
                self.hook('cb:' + name)
            f = self.faults.get(i)
            if f is not None and f['kind'] == 'raise':
                self.fired.append((name, 'raise'))
                raise UserError(f'{name} call {i}')
            out = func(*args, **kwargs)
            if f is not None and isprob and np.size(out):
                out = np.array(out, dtype=float, ndmin=1)
                k = int(f.get('frac', 0) * (len(out) - 1))
                self.fired.append((name, f['kind']))
                if f['kind'] == 'neg':
                    out[k] = -f.get('amount', .5) - (1 if isprob == 'squared' else 0)
                elif f['kind'] == 'big':
                    out[k] = 1 + f.get('amount', .5)
            return out
        return userfunc


def r6(x):
    return float('%.6g' % x)


def U(rng, a, b):
    return r6(rng.uniform(a, b))


# ---------------------------------------------------------------- generation

def gen_energy(rng):
    k = rng.random()
    if k < .5:
        return {'k': 'const', 'e': U(rng, .4, 2.)}
    if k < .7:
        n = rng.randint(3, 8)
        e = sorted(U(rng, .3, 3.) for _ in range(n))
        return {'k': 'table', 'e': e, 'f': [U(rng, 0, 2) if rng.random() < .8 else 0. for _ in range(n - 2)] + [1., 1.]}
    # energies of the photons in one list may be almost the same
    return {'k': 'func', 'a': U(rng, .5, 1.), 'b': U(rng, .1, 1.) if rng.random() < .5 else r6(10**rng.uniform(-6, -1))}


def gen_pol(rng):
    k = rng.random()
    if k < .4:
        return None
    if k < .7:
        return {'k': 'const', 'a': U(rng, 0, 360)}
    if k < .85:
        return {'k': 'table', 'a': [0., 60., 120., 240., 360.], 'p': [1., U(rng, 0, 2), 1., U(rng, 0, 2), .5]}
    return {'k': 'func', 'a': U(rng, 0, 3)}


def gen_source(rng, lab=None, maxn=60):
    lab = rng.random() < .2 if lab is None else lab
    s = {'energy': gen_energy(rng), 'pol': gen_pol(rng), 'n_phot': rng.choice([1, 2, 3, 5, 10, 20, 40, maxn, maxn]),
         'poisson': rng.random() < .3}
    if lab:
        if rng.random() < .5:
            s.update(t='farlab', pos=[F + 5000., U(rng, -100, 100), U(rng, -100, 100)])
        else:
            ang = U(rng, 0.002, .02)
            s.update(t='cone', pos=[F + 2000., U(rng, -20, 20), U(rng, -20, 20)], half=ang,
                     dir=[-1., U(rng, -.02, .02), U(rng, -.02, .02)])
    else:
        s.update(t=rng.choice(['point', 'point', 'disk', 'sphdisk', 'gauss', 'symbolf']), ra=U(rng, 0, 360),
                 dec=U(rng, -85, 85), size=U(rng, .01, 3.))
    return s


def gen_pointing(rng, src):
    return {'t': rng.choice(['fixed', 'fixed', 'fixed', 'jitter', 'lissajous']), 'ra': r6(src['ra']), 'dec': r6(src['dec']),
            'off': [U(rng, -2, 2), U(rng, -2, 2)], 'roll': U(rng, 0, 360), 'jitter': U(rng, 0, 20), 'amp': U(rng, 0, 60)}


def gen_aperture(rng):
    t = rng.choice(['rect', 'circ', 'multi'])
    a = {'t': t, 'x': F + 300., 'zy': U(rng, 20, 120), 'zz': U(rng, 20, 120), 'rin': U(rng, 0, .9), 'phi': [0., 6.283185307179586]}
    if t == 'circ' and rng.random() < .4:
        p0 = U(rng, 0, 3)
        a['phi'] = [p0, r6(p0 + rng.uniform(.3, 3))]
    if t == 'multi':
        a['l_els'] = [{'t': rng.choice(['rect', 'circ']), 'y': 100. * k, 'zy': U(rng, 10, 45), 'rin': U(rng, 0, .9)}
                      for k in range(rng.randint(2, 4))]
    return a


def gen_filter(rng):
    return {'k': rng.choice(['const', 'slope', 'interp', 'cut']), 'p': rng.choice([0., 1., U(rng, 0, 1), U(rng, 0, 1), .5])}


def gen_orders(rng):
    k = rng.choice(['list', 'list', 'p', 'tab'])
    n = rng.randint(1, 5)
    o = sorted(rng.sample(range(-4, 5), n))
    p = [rng.random() for _ in o]
    s = sum(p) / U(rng, .3, 1.)
    return {'k': k, 'o': o, 'p': [r6(x / s * .999) for x in p]}


def gen_stage(rng, t):
    s = {'t': t}
    if t in ('perfect', 'thin', 'stackrad', 'stackgauss'):
        s.update(x=F, zy=U(rng, 40, 200), zz=U(rng, 40, 200))
        if t == 'stackrad':
            s.update(sin=U(rng, 0, 1e-4), sperp=rng.choice([0., U(rng, 0, 1e-4)]), filter=gen_filter(rng))
        if t == 'stackgauss':
            s.update(sig=rng.choice([0., U(rng, 0, 1e-4)]), func=rng.random() < .3)
        if t == 'perfect' and rng.random() < .4:
            s['refl'] = U(rng, 0, 1)
    elif t == 'gfilter':
        s.update(filter=gen_filter(rng))
    elif t == 'efilter':
        s.update(x=U(rng, .1 * F, .95 * F), zy=U(rng, 10, 100), zz=U(rng, 10, 100), filter=gen_filter(rng))
    elif t in ('flatgrat', 'catgrat', 'npcat', 'catstack'):
        s.update(x=.8 * F, zy=U(rng, 10, 100), zz=U(rng, 10, 100), d=U(rng, 2e-4, 1e-3), orders=gen_orders(rng),
                 groove=rng.choice([0., U(rng, -1.5, 1.5)]), tilt=[U(rng, -.05, .05), U(rng, -.05, .05)],
                 dfunc=rng.random() < .2 and t in ('flatgrat', 'catgrat'), name=rng.choice([None, 'o2']))
    elif t == 'par':
        n = rng.randint(1, 6)
        s.update(cls=rng.choice(['flat', 'cat']), x=.78 * F, w=U(rng, 5, 40), h=U(rng, 5, 60), nel=n,
                 gap=U(rng, 0, 5), d=[U(rng, 2e-4, 1e-3) for _ in range(n)] if rng.random() < .6 else U(rng, 2e-4, 1e-3),
                 orders=gen_orders(rng), idcol=rng.choice(['facet', 'gratid', None]), off=rng.choice([0, 0, 1, 10]),
                 unc=rng.choice([None, None, U(rng, 0, .02)]), overlap=False)
    elif t == 'gas':
        s.update(kind=rng.choice(['gas', 'grid']), d=U(rng, 2e-4, 1e-3), orders=gen_orders(rng), de=U(rng, 20, 50),
                 rmax=U(rng, 60, 130), cat=rng.random() < .5)
    elif t == 'baffle':
        s.update(x=U(rng, .05 * F, 1.1 * F), zy=U(rng, 5, 150), zz=U(rng, 5, 150))
    elif t == 'prop':
        s.update(dist=U(rng, -50, 200))
    elif t in ('det', 'detstack', 'detredist', 'detbare'):
        s.update(x=U(rng, -20, 20), zy=rng.choice([U(rng, 1, 60), 500.]), zz=rng.choice([U(rng, 1, 60), 500.]), pix=U(rng, .01, 1.),
                 filter=gen_filter(rng), idcol=rng.choice([None, 'CCD']), y=rng.choice([0., U(rng, -30, 30)]))
    elif t == 'detpar':
        s.update(n=rng.randint(1, 5), w=U(rng, 2, 20), gap=U(rng, 0, 2), off=rng.choice([0, 1, 3]))
    elif t == 'detcirc':
        s.update(width=U(rng, 2, 200), lim=U(rng, .05, 1.5), pix=U(rng, .01, 1.))
    elif t == 'proj':
        s.update(y=U(rng, -5, 5), rot=U(rng, -1, 1))
    elif t == 'tag':
        s.update(val=U(rng, 0, 9))
    elif t == 'seq':
        s.update(l_stages=[gen_stage(rng, rng.choice(['gfilter', 'efilter', 'prop', 'baffle'])) for _ in range(rng.randint(1, 3))])
    elif t == 'radscatter':
        s.update(x=F, sin=U(rng, 0, 1e-4), sperp=U(rng, 0, 1e-4), zy=U(rng, 30, 200))
    elif t == 'gaussscatter':
        s.update(x=U(rng, .5 * F, .9 * F), sig=U(rng, 1e-6, 1e-4), zy=U(rng, 5, 200))
    elif t == 'supportbars':
        pass
    elif t in ('mlmirror', 'brewster'):
        s.update(x=.5 * F, zy=U(rng, 5, 100), zz=U(rng, 5, 100), tilt=U(rng, -.01, .01))
    elif t == 'det45':
        s.update(x=.5 * F, y=U(rng, 100, 500), zy=U(rng, 5, 100), zz=U(rng, 5, 100), pix=U(rng, .05, 1.))
    elif t == 'cattol':
        s.update(x=.8 * F, zy=U(rng, 20, 100), zz=U(rng, 20, 100), kind=rng.choice(['wavy', 'tophat']), sig=U(rng, 0, .2))
    return s


DET_STAGES = ['perfect', 'thin', 'gfilter', 'efilter', 'baffle', 'prop', 'det', 'detstack', 'detpar', 'detcirc', 'proj', 'tag', 'seq']


def gen_stages(rng, random_ok=True, missions=False):
    st = []
    if rng.random() < .25:
        st.append(gen_stage(rng, 'baffle'))
        st[-1]['x'] = F + 100.
    mir = ['perfect', 'thin'] + (['stackrad', 'stackgauss'] if random_ok else [])
    if rng.random() < .9:
        st.append(gen_stage(rng, rng.choice(mir)))
    if random_ok and rng.random() < .2:
        st.append(gen_stage(rng, 'radscatter'))
    mids = ['gfilter', 'efilter', 'prop', 'baffle', 'seq', 'tag']
    if rng.random() < .5:
        st.append(gen_stage(rng, rng.choice(mids)))
    grat = ['flatgrat', 'catgrat', 'npcat', 'par', 'par', 'gas', 'catstack', 'cattol']
    if rng.random() < .75:
        g = gen_stage(rng, rng.choice(grat if random_ok else grat[:-2]))
        if not random_ok:
            g['orders'] = {'k': 'list', 'o': [g['orders']['o'][0]], 'p': [1.]}
        st.append(g)
        if rng.random() < .2 and g['t'] in ('par', 'gas') and g.get('idcol', 'facet') == 'facet':
            st.append(gen_stage(rng, 'supportbars'))
    if random_ok and rng.random() < .2:
        st.append(gen_stage(rng, 'gaussscatter'))
    if rng.random() < .4:
        st.append(gen_stage(rng, rng.choice(mids)))
    for s in st:
        if s['t'] in ('gfilter', 'efilter', 'baffle', 'seq') and 'x' in s and s['x'] < .1 * F:
            s['x'] = .2 * F
    dets = ['det', 'detstack', 'detpar', 'detcirc', 'detbare'] + (['detredist'] if random_ok else [])
    st.append(gen_stage(rng, rng.choice(dets)))
    if rng.random() < .4:
        st.append(gen_stage(rng, 'proj'))
    if rng.random() < .3:
        st.append(gen_stage(rng, rng.choice(dets)))
        st[-1]['second'] = True
    if rng.random() < .3:
        st.append(gen_stage(rng, 'tag'))
    return st


def gen_spec(rng, random_ok=True, maxn=60, lab=None):
    src = gen_source(rng, lab=lab, maxn=maxn)
    spec = {'source': src, 'pointing': None, 'aperture': None}
    if src['t'] not in ('farlab', 'cone'):
        spec['pointing'] = gen_pointing(rng, src)
        spec['aperture'] = gen_aperture(rng)
    if spec['pointing'] is None and rng.random() < .5:
        # laboratory beam line: polarised source, mirror at 45 degrees, detector in the reflected beam
        st = [gen_stage(rng, rng.choice(['mlmirror', 'brewster', 'mlmirror']))]
        if src['energy']['k'] == 'const':
            src['energy']['e'] = U(rng, .3, .8)
        if rng.random() < .5:
            st.insert(0, gen_stage(rng, rng.choice(['gfilter', 'baffle', 'efilter'])))
            if 'x' in st[0]:
                st[0]['x'] = .9 * F
        st.append(gen_stage(rng, 'det45'))
        spec['l_stages'] = st
    else:
        spec['l_stages'] = gen_stages(rng, random_ok)
    return spec


# ---------------------------------------------------------------- building

def mk_filter(f, cb, name):
    p = f['p']
    k = f['k']
    if k == 'const':
        func = lambda e: p * np.ones_like(np.asarray(e, dtype=float))
    elif k == 'slope':
        func = lambda e: np.clip(p * np.asarray(e, dtype=float) / 3., 0, 1)
    elif k == 'interp':
        func = lambda e: np.interp(np.asarray(e, dtype=float), [0., 1., 2., 5.], [1., p, p / 2, 0.])
    else:
        func = lambda e: np.where(np.asarray(e, dtype=float) > .3 + p, 1., 0.)
    return cb.wrap(name, func, isprob=True)


def filter_value(f, e):
    """The model's version of the filter curve."""
    p = f['p']
    e = np.asarray(e, dtype=float)
    return {'const': lambda: p * np.ones_like(e), 'slope': lambda: np.clip(p * e / 3., 0, 1),
            'interp': lambda: np.interp(e, [0., 1., 2., 5.], [1., p, p / 2, 0.]),
            'cut': lambda: np.where(e > .3 + p, 1., 0.)}[f['k']]()


_effdir = None


def mk_orders(o, cb, name, scratch=None):
    if o['k'] == 'list':
        sel = optics.OrderSelector(o['o'])
    elif o['k'] == 'p':
        sel = optics.OrderSelector(o['o'], p=o['p'])
    else:
        orders, p = o['o'], np.array(o['p'])

        def sel(energy, pol, blaze):
            r = np.random.rand(len(energy))
            c = np.cumsum(p) / p.sum()
            return np.array(orders)[np.minimum(np.searchsorted(c, r, side='right'), len(orders) - 1)], prob(energy)
        prob = cb.wrap(name + 'prob', lambda energy: p.sum() * np.ones(len(energy)), isprob=True)
        return cb.wrap(name, sel)
    return sel


def mk_energy(e, cb):
    if e['k'] == 'const':
        return e['e'] * u.keV
    if e['k'] == 'table':
        t = QTable()
        t['energy'] = np.array(e['e']) * u.keV
        t['fluxdensity'] = np.array(e['f']) / u.s / u.cm**2 / u.keV
        return t
    a, b = e['a'], e['b']
    return cb.wrap('energy', lambda t: (a + b * (np.arange(len(t)) % 7) / 7.) * u.keV)


def mk_pol(p, cb):
    if p is None:
        return None
    if p['k'] == 'const':
        return p['a'] * u.deg
    if p['k'] == 'table':
        t = QTable()
        t['angle'] = np.array(p['a']) * u.deg
        t['probabilitydensity'] = np.array(p['p']) / u.deg
        return t
    a = p['a']
    return cb.wrap('polarization', lambda t, e: (a + .1 * np.arange(len(t))) % (2 * np.pi) * u.rad)


def mk_source(s, cb=None, area=1 * u.cm**2):
    cb = cb or Callbacks()
    kw = {'energy': mk_energy(s['energy'], cb), 'polarization': mk_pol(s['pol'], cb)}
    rate = 1. / u.s
    if s['t'] in ('farlab', 'cone'):
        kw['flux'] = rate
        if s['t'] == 'farlab':
            return source.FarLabPointSource(s['pos'], position=[F + 300., 0, 0], zoom=[1, 60., 50.], **kw)
        return source.LabPointSourceCone(position=s['pos'], half_opening=s['half'], direction=s['dir'], **kw)
    kw['geomarea'] = area
    flux = rate / area
    kw['flux'] = source.poisson_process(flux.to(1 / u.s / u.cm**2)) if s['poisson'] else flux
    c = SkyCoord(s['ra'], s['dec'], unit='deg')
    kw['coords'] = c
    size = s['size'] * u.arcmin
    t = s['t']
    if t == 'point':
        return source.PointSource(**kw)
    if t == 'disk':
        return source.DiskSource(a_outer=size, a_inner=size * .3, **kw)
    if t == 'sphdisk':
        return source.SphericalDiskSource(a_outer=size, a_inner=size * .3, **kw)
    if t == 'gauss':
        return source.GaussSource(sigma=size, **kw)
    return source.SymbolFSource(size=size, **kw)


def exposure(s):
    return s['n_phot'] * u.s


def mk_pointing(p):
    dec = min(89., max(-89., p['dec'] + p['off'][1] / 60.))
    c = SkyCoord(p['ra'] + p['off'][0] / 60., dec, unit='deg')
    roll = p['roll'] * u.deg
    kw = {}
    if p.get('zxy'):
        from marxs.math.utils import xyz2zxy
        kw['reference_transform'] = xyz2zxy
    if p['t'] == 'fixed':
        return source.FixedPointing(coords=c, roll=roll, **kw)
    if p['t'] == 'jitter':
        return source.JitterPointing(coords=c, roll=roll, jitter=p['jitter'] * u.arcsec, **kw)
    from marxs.missions.chandra.dither import LissajousDither
    return LissajousDither(coords=c, roll=roll, DitherAmp=np.array([p['amp'], p['amp'], 0.]) * u.arcsec)


def mk_aperture(a, cb=None):
    if a['t'] == 'arcus':
        from sim import arcus
        return arcus.parts(a['arcus'], cb.store)[0]
    if a['t'] == 'rect':
        return optics.RectangleAperture(position=[a['x'], 0, 0], zoom=[1, a['zy'], a['zz']])
    if a['t'] == 'circ':
        return optics.CircleAperture(position=[a['x'], 0, 0], zoom=[1, a['zy'], a['zy']], r_inner=a['rin'] * a['zy'], phi=a['phi'])
    if a['t'] == 'hrma':
        from marxs.missions.chandra.hrma_py import Aperture
        return Aperture()
    if a['t'] == 'lynx':
        from marxs.missions.lynx import lynx
        return lynx.MetaShellAperture(lynx.conf)
    els = []
    for e in a['l_els']:
        if e['t'] == 'rect':
            els.append(optics.RectangleAperture(position=[a['x'], e['y'] - 100., 0], zoom=[1, e['zy'], e['zy']]))
        else:
            els.append(optics.CircleAperture(position=[a['x'], e['y'] - 100., 0], zoom=[1, e['zy'], e['zy']], r_inner=e['rin'] * e['zy']))
    return optics.MultiAperture(elements=els)


def mk_stage(s, cb, i=0):
    """One stage of the instrument.  The returned callable is the real marxs object."""
    t = s['t']
    nm = f'{t}{i}'
    if 'arcus' in s:
        from sim import arcus
        return arcus.parts(s['arcus'], cb.store)[1 + s['k']]
    if t == 'perfect':
        kw = {}
        if 'refl' in s:
            kw['reflectivity_interpolator'] = cb.wrap(nm, lambda e, a, grid: s['refl'] * np.cos(np.asarray(a)), isprob='squared')
        return optics.PerfectLens(focallength=F, position=[s['x'], 0, 0], zoom=[1, s['zy'], s['zz']], **kw)
    if t == 'thin':
        return optics.ThinLens(focallength=F, position=[s['x'], 0, 0], zoom=[1, s['zy'], s['zz']])
    if t == 'stackrad':
        return optics.FlatStack(position=[s['x'], 0, 0], zoom=[1, s['zy'], s['zz']],
                                elements=[optics.PerfectLens, optics.RadialMirrorScatter, optics.EnergyFilter],
                                keywords=[{'focallength': F}, {'inplanescatter': s['sin'] * u.rad, 'perpplanescatter': s['sperp'] * u.rad},
                                          {'filterfunc': mk_filter(s['filter'], cb, nm)}])
    if t == 'stackgauss':
        sc = s['sig'] * u.rad
        if s['func']:
            sig = s['sig']
            sc = cb.wrap(nm, lambda photons, intersect, interpos, intercoos: np.random.normal(size=intersect.sum()) * sig * u.rad)
        return optics.FlatStack(position=[s['x'], 0, 0], zoom=[1, s['zy'], s['zz']], elements=[optics.PerfectLens, optics.RandomGaussianScatter],
                                keywords=[{'focallength': F}, {'scatter': sc}])
    if t == 'gfilter':
        return optics.GlobalEnergyFilter(filterfunc=mk_filter(s['filter'], cb, nm))
    if t == 'efilter':
        return optics.EnergyFilter(filterfunc=mk_filter(s['filter'], cb, nm), position=[s['x'], 0, 0], zoom=[1, s['zy'], s['zz']])
    if t in ('flatgrat', 'catgrat', 'npcat'):
        kw = {}
        d = s['d']
        if s.get('dfunc'):
            d0 = s['d']
            d = cb.wrap(nm + 'd', lambda coo: d0 * (1 + 1e-3 * coo[:, 0] / 100.))
        cls = {'flatgrat': optics.FlatGrating, 'catgrat': optics.CATGrating}.get(t)
        if t == 'npcat':
            from marxs.missions.mitsnl.catgrating import NonParallelCATGrating as cls
            kw = {'d_blaze_mm': 1e-4, 'blaze_center': 0.02}
        g = cls(d=d, order_selector=mk_orders(s['orders'], cb, nm), groove_angle=s['groove'],
                position=[s['x'], 0, 0], zoom=[1, s['zy'], s['zz']], orientation=euler2mat(0, s['tilt'][0], s['tilt'][1], 'sxyz'), **kw)
        if s.get('name'):
            g.order_name = s['name']
        return g
    if t == 'catstack':
        from marxs.missions.mitsnl.catgrating import CATL1L2Stack
        return CATL1L2Stack(order_selector=mk_orders(s['orders'], cb, nm), d=s['d'], groove_angle=s['groove'],
                            position=[s['x'], 0, 0], zoom=[1, s['zy'], s['zz']])
    if t == 'cattol':
        from marxs.missions.mitsnl import tolerances as mt
        tab = ralfgrating_table()
        sel = mt.OrderSelectorWavy(wavysigma=s['sig'], tab=tab) if s['kind'] == 'wavy' else \
            mt.OrderSelectorTopHat(tophatwidth=s['sig'], tab=tab)
        return optics.CATGrating(d=2e-4, order_selector=sel, position=[s['x'], 0, 0], zoom=[1, s['zy'], s['zz']],
                                 orientation=axmat([0, 0, 1], np.deg2rad(1.6)))
    if t == 'par':
        n = s['nel']
        pos = [[s['x'], (k - (n - 1) / 2) * (2 * s['w'] + s['gap']), 0.] for k in range(n)]
        d = s['d']
        if isinstance(d, list):
            d = (d * n)[:n]
        kw = {'d': d, 'order_selector': mk_orders(s['orders'], cb, nm), 'zoom': [1, s['w'], s['h']]}
        pkw = {}
        if s.get('idcol'):
            pkw['id_col'] = s['idcol']
        p = simulator.Parallel(elem_class=optics.FlatGrating if s['cls'] == 'flat' else optics.CATGrating,
                               elem_pos={'position': pos}, elem_args=kw, id_num_offset=s['off'], **pkw)
        if s.get('unc'):
            from marxs.design import tolerancing as tol
            tol.moveelem(p, rx=s['unc'], ry=s['unc'] / 2, dy=s['unc'])
        return p
    if t == 'gas':
        row = RowlandTorus(F / 2, F / 2)
        kw = dict(rowland=row, d_element=[s['de'], s['de']],
                  elem_class=optics.CATGrating if s['cat'] else optics.FlatGrating,
                  elem_args={'zoom': [1, s['de'] / 2.2, s['de'] / 2.2], 'd': s['d'], 'order_selector': mk_orders(s['orders'], cb, nm)})
        if s['kind'] == 'gas':
            return GratingArrayStructure(radius=[20., s['rmax']], **kw)
        return RectangularGrid(y_range=[-s['rmax'], s['rmax']], z_range=[-s['rmax'], s['rmax']], **kw)
    if t == 'baffle':
        return optics.Baffle(position=[s['x'], 0, 0], zoom=[1, s['zy'], s['zz']])
    if t == 'prop':
        return simulator.Propagator(distance=s['dist'])
    if t in ('det', 'detstack', 'detredist', 'detbare'):
        kw = dict(position=[s['x'], s['y'], 0], zoom=[1, s['zy'], s['zz']])
        if s.get('idcol'):
            kw.update(id_col=s['idcol'], id_num=7)
        if t == 'det':
            d = optics.FlatDetector(pixsize=s['pix'], ignore_pixel_warning=True, **kw)
            if s.get('second'):
                d.loc_coos_name = ['det2_x', 'det2_y']
                d.detpix_name = ['det2pix_x', 'det2pix_y']
            return d
        if t == 'detbare':
            return optics.FlatDetector(**kw)
        els = [optics.EnergyFilter, optics.FlatDetector]
        kws = [{'filterfunc': mk_filter(s['filter'], cb, nm)}, {'pixsize': s['pix'], 'ignore_pixel_warning': True}]
        if t == 'detredist':
            els.append(optics.detector.CCDRedistNormal)
            kws.append({'tab_width': ccd_width()})
        return optics.FlatStack(elements=els, keywords=kws, **kw)
    if t == 'detpar':
        n = s['n']
        pos = [[0., (k - (n - 1) / 2) * (2 * s['w'] + s['gap']), 0.] for k in range(n)]
        return simulator.Parallel(elem_class=optics.FlatDetector, elem_pos={'position': pos}, id_num_offset=s['off'], id_col='CCD_ID',
                                  elem_args={'zoom': [1, s['w'], s['w'] * 2], 'pixsize': .1, 'ignore_pixel_warning': True})
    if t == 'detcirc':
        row = RowlandTorus(F / 2, F / 2)
        return optics.CircularDetector(pixsize=s.get('pix', 1), geometry=Cylinder.from_rowland(row, width=s['width'], rotation=np.pi,
                                                                      kwargs={'phi_lim': [-s['lim'], s['lim']]}))
    if t == 'proj':
        return ProjectOntoPlane(position=[0, s['y'], 0], orientation=axmat([0, 0, 1], s['rot']))
    if t == 'tag':
        return TagVersion(SATELLIT='SIM', SIMVAL=s['val'])
    if t == 'seq':
        return simulator.Sequence(elements=[mk_stage(x, cb, f'{i}.{k}') for k, x in enumerate(s['l_stages'])])
    if t in ('mlmirror', 'brewster', 'det45'):
        kw = dict(position=[s['x'], s.get('y', 0.), 0.], zoom=[1, s['zy'], s['zz']],
                  orientation=axmat([0, 0, 1], np.pi / 2 if t == 'det45' else np.pi / 4 + s['tilt']))
        if t == 'det45':
            return optics.FlatDetector(pixsize=s['pix'], ignore_pixel_warning=True, **kw)
        from marxs.optics.multiLayerMirror import FlatBrewsterMirror, MultiLayerMirror
        if t == 'brewster':
            return FlatBrewsterMirror(**kw)
        from astropy.utils.data import get_pkg_data_filename
        return MultiLayerMirror(reflFile=get_pkg_data_filename('data/A12113.txt', package='marxs.optics'),
                                testedPolarization=get_pkg_data_filename('data/ALSpolarization2.txt', package='marxs.optics'), **kw)
    if t == 'radscatter':
        return optics.RadialMirrorScatter(inplanescatter=s['sin'] * u.rad, perpplanescatter=s['sperp'] * u.rad, position=[s['x'], 0, 0],
                                          zoom=[1, s['zy'], s['zy']])
    if t == 'gaussscatter':
        return optics.RandomGaussianScatter(scatter=s['sig'] * u.rad, position=[s['x'], 0, 0], zoom=[1, s['zy'], s['zy']])
    if t == 'supportbars':
        from marxs.missions.mitsnl.catgrating import catsupportbars
        return catsupportbars
    if t == 'hrma':
        from marxs.missions.chandra.hrma_py import HRMA
        return HRMA()
    if t == 'hetg':
        from marxs.missions.chandra.hess import HETG
        return HETG()
    if t.startswith('lynx'):
        return mk_lynx(s)
    if t == 'acis':
        from marxs.missions import chandra
        return chandra.ACIS(chips=list(s['chips']), aimpoint=chandra.AIMPOINTS[s['aim']])
    raise HarnessError('unknown stage ' + t)


def lynx_conf(s):
    from marxs.missions.lynx import lynx
    conf = dict(lynx.conf)
    conf['grating_size'] = np.array(s['size'])
    return conf


def mk_lynx(s):
    """Parts of the Lynx mission, with gratings that are larger (so that there are fewer of them)."""
    from marxs.missions.lynx import lynx, mirror
    t = s['t']
    if t == 'lynxmirror':
        return mirror.MetaShellMirror(lynx.conf)
    if t == 'lynxeff':
        return mirror.MetaShellEfficiency(lynx.conf)
    if t == 'lynxqe':
        return lynx.filterqe
    if t == 'lynxdet':
        return lynx.RowlandDetArray(lynx.conf)
    if t == 'lynxgas':
        g = lynx.LynxGAS(lynx_conf(s))
        if s.get('l_budget'):
            from marxs.design import tolerancing as tol
            for kind, row in s['l_budget']:
                (tol.moveglobal if kind == 'global' else tol.moveindividual)(g, *row)
        return g
    raise HarnessError('unknown stage ' + t)


_ralf = None


def ralfgrating_table():
    global _ralf
    if _ralf is None:
        from astropy.utils.data import get_pkg_data_filename
        _ralf = Table.read(get_pkg_data_filename('data/Si_efficiency_5_7.dat', package='marxs.missions.mitsnl'), format='ascii.ecsv')
    return _ralf


def ccd_width():
    t = QTable()
    t['energy'] = np.array([.1, 1., 5.]) * u.keV
    t['FWHM'] = np.array([.05, .08, .15]) * u.keV
    return t


class Program:
    """A complete simulation: source, pointing, aperture, stages."""

    def __init__(self, spec, faults=(), hook=None, area=1 * u.cm**2):
        self.spec = spec
        self.cb = Callbacks(faults, hook)
        self.source = mk_source(spec['source'], self.cb, area)
        self.pointing = mk_pointing(spec['pointing']) if spec.get('pointing') else None
        self.aperture = mk_aperture(spec['aperture'], self.cb) if spec.get('aperture') else None
        self.stages = []
        for i, s in enumerate(spec['l_stages']):
            self.stages.append((f"{i}:{s['t']}", mk_stage(s, self.cb, i), s))

    def generate(self):
        return self.source.generate_photons(exposure(self.spec['source']))

    def front(self):
        """Stages that put the photons on their way."""
        out = []
        if self.pointing is not None:
            out.append(('pointing', self.pointing, None))
        if self.aperture is not None:
            out.append(('aperture', self.aperture, self.spec['aperture']))
        return out

    def all(self):
        return self.front() + self.stages

    def run(self, photons=None, observer=None):
        if photons is None:
            photons = self.generate()
        for name, el, s in self.all():
            if observer is not None:
                observer.before(name, el, s, photons)
            out = el(photons)
            if out is None:
                raise Violation('returns-nothing', f'{name} returned None')
            if observer is not None:
                observer.after(name, el, s, out)
            photons = out
        return photons


# ---------------------------------------------------------------- comparison

STAMPS = ('SIMDATE', 'SIMTIME', 'SIMUSER', 'SIMHOST', 'DATE')


def need(photons, col, who=''):
    if col not in photons.colnames:
        raise Violation('missing-column', f'{who}: column {col} is missing from the photon list')
    return np.asarray(photons[col])


def same_array(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in 'fc' or b.dtype.kind in 'fc':
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.array_equal(a, b))


def table_diff(a, b, meta=True, rtol=0., atol=0., ignore=()):
    """First difference between two photon tables, or None."""
    if len(a) != len(b):
        return f'{len(a)} rows vs {len(b)} rows'
    ca, cb = list(a.colnames), list(b.colnames)
    if set(ca) - set(ignore) != set(cb) - set(ignore):
        return f'columns differ: {sorted(set(ca) ^ set(cb))}'
    for c in ca:
        if c in ignore:
            continue
        x, y = np.asarray(a[c]), np.asarray(b[c])
        if x.shape != y.shape:
            return f'column {c}: shape {x.shape} vs {y.shape}'
        if rtol == 0 and atol == 0:
            if not same_array(x, y):
                bad = np.nonzero(~np.isclose(x, y, rtol=0, atol=0, equal_nan=True))[0] if x.dtype.kind in 'fi' else [0]
                k = int(bad[0]) if len(bad) else 0
                return f'column {c}: row {k}: {x[k]!r} vs {y[k]!r}'
        elif x.dtype.kind in 'fiub':
            if not np.allclose(x, y, rtol=rtol, atol=atol, equal_nan=True):
                k = int(np.nonzero(~np.isclose(x, y, rtol=rtol, atol=atol, equal_nan=True))[0][0])
                return f'column {c}: row {k}: {x[k]!r} vs {y[k]!r}'
        elif not same_array(x, y):
            return f'column {c} differs'
    if meta:
        ka = {k: v for k, v in a.meta.items() if k not in STAMPS}
        kb = {k: v for k, v in b.meta.items() if k not in STAMPS}
        if set(ka) != set(kb):
            return f'header keywords differ: {sorted(set(ka) ^ set(kb))}'
        for k in ka:
            if repr(ka[k]) != repr(kb[k]):
                return f'header {k}: {ka[k]!r} vs {kb[k]!r}'
    return None


def features(spec):
    return tuple([spec['source']['t'], (spec.get('pointing') or {}).get('t'), (spec.get('aperture') or {}).get('t')] +
                 [s['t'] for s in spec['l_stages']])


def table_digest(t):
    import hashlib
    h = hashlib.sha1()
    for c in sorted(t.colnames):
        h.update(c.encode())
        x = np.asarray(t[c])
        h.update(str(x.dtype.kind).encode() + str(x.shape).encode() + np.ascontiguousarray(x).tobytes())
    return h.hexdigest()[:16]
