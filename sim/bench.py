"""One element on the bench: arbitrary place and orientation, rays with exact and degenerate geometry (normal incidence, through the
centre, from behind, starting on the surface, already past it), several lists one after the other.  Judged by the same observers as
whole programs."""
import numpy as np
import astropy.units as u
from astropy.table import Table
from transforms3d.euler import euler2mat
from transforms3d.affines import compose
from marxs import optics
from marxs.math.geometry import Cylinder
from sim import lib, watch
from sim.core import Violation

KINDS = ['perfect', 'perfect', 'thin', 'efilter', 'baffle', 'flatgrat', 'catgrat', 'npcat', 'catstack', 'catl1', 'l2abs', 'l2diff', 'radscatter',
         'radscatter', 'gaussscatter', 'det', 'detbare', 'detstack', 'stackrad', 'stackgauss', 'detcirc', 'proj', 'mlmirror', 'brewster',
         'cattol', 'quality', 'detredist', 'stack', 'stack', 'stack', 'stack', 'boom']
LAYERS = ['perfect', 'thin', 'efilter', 'baffle', 'flatgrat', 'catgrat', 'npcat', 'catl1', 'l2abs', 'l2diff', 'radscatter', 'gaussscatter', 'det', 'detbare']
STEEP = {'mlmirror': 45., 'brewster': 45.}
MAXANG = {'stack': 25., 'flatgrat': 55., 'catgrat': 55., 'npcat': 55., 'catstack': 35., 'catl1': 55., 'l2abs': 50., 'cattol': 8., 'thin': 60., 'perfect': 70., 'stackrad': 60.,
          'stackgauss': 60.}
ENERGY = {'stack': (.3, 2.), 'mlmirror': (.3, .8), 'brewster': (.3, .8), 'catl1': (.3, 2.), 'catstack': (.3, 2.), 'cattol': (.4, 1.2)}


def gen_rays(rng, t, n):
    rays = []
    for _ in range(n):
        where = rng.choice(['in', 'in', 'in', 'center', 'center', 'axis', 'out', 'edge', 'corner', 'far'])
        how = rng.choice(['steep', 'steep', 'any', 'normal', 'normal', 'near', 'near'])
        start = rng.choice(['before', 'before', 'before', 'before', 'on', 'past', 'close', 'far'])
        lo, hi = ENERGY.get(t, (.3, 5.))
        rays.append({'w': where, 'ab': [lib.U(rng, -.97, .97), lib.U(rng, -.97, .97)], 'h': how, 'th': lib.U(rng, 0, 1), 'ph': lib.U(rng, 0, 6.283),
                     's': start, 'l': lib.U(rng, 1, 500), 'back': rng.random() < .25, 'pol': rng.choice(['s', 'p', 'any', 'any']),
                     'pa': lib.U(rng, 0, 6.283), 'p': rng.choice([1., 1., lib.U(rng, 0, 1), 0., 1e-300]), 'e': lib.U(rng, lo, hi)})
    return rays


def gen(rng, i, tier, kinds=KINDS, layers=LAYERS):
    t = rng.choice(kinds)
    if t == 'boom':
        return gen_boom(rng)
    if t == 'stack':
        s = {'t': t, 'l_layers': []}
        for k in range(rng.choice([1, 2, 2, 3, 3, 4])):
            x = gen_element(rng, rng.choice(layers))
            if x['t'] in GR and any(y['t'] in GR for y in s['l_layers']):
                continue
            x['f'] = lib.U(rng, 1000, 5000)
            x.pop('idcol', None)
            s['l_layers'].append(x)
        s['idcol'] = rng.choice([None, 'CCD'])
    else:
        s = gen_element(rng, t)
    place(rng, s)
    lists = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        n = rng.choice([1, 1, 2, 3, 8, 30]) if rng.random() > .05 else 0
        lists.append({'l_rays': gen_rays(rng, t, n), 'old': rng.random() < .2, 'user': rng.random() < .7, 'plain': rng.random() < .15})
    return {'bench': True, 'stage': s, 'l_lists': lists}


def gen_boom(rng):
    s = {'t': 'boom', 'sides': rng.choice([3, 4]), 'nb': rng.randint(1, 3), 'start': 0, 'dia': [lib.U(rng, 2, 30) for _ in range(3)], 'zx': 1., 'zy': 1., 'zz': 1.}
    if s['nb'] > 1 and rng.random() < .3:
        s['start'] = 1
    place(rng, s)
    lists = []
    for _ in range(rng.choice([1, 1, 2])):
        lists.append({'l_rays': gen_boomrays(rng, rng.choice([1, 5, 30])), 'old': False, 'user': rng.random() < .7, 'plain': False})
    return {'bench': True, 'stage': s, 'l_lists': lists}


def gen_boomrays(rng, n):
    out = []
    for _ in range(n):
        out.append({'rod': rng.random(), 'along': lib.U(rng, -1.1, 1.1), 'off': lib.U(rng, -3, 3), 'd': [lib.U(rng, -1, 1) for _ in range(3)],
                    'l': rng.choice([lib.U(rng, 1, 50), lib.U(rng, 100, 3000), lib.U(rng, -50, -1)]), 'p': rng.choice([1., lib.U(rng, 0, 1)]), 'e': 1.,
                    'w': 'in', 'h': 'any', 's': 'before', 'back': False})
    return out


def boom_rods(s, P):
    """End points and radius of all rods, from the dimensions of the boom."""
    from marxs.missions.arcus import boom
    cls = boom.ThreeSidedBoom if s['sides'] == 3 else boom.FourSidedBoom
    ll, lb = cls.l_longeron, cls.l_batten
    if s['sides'] == 3:
        cor = [(lb / 3**.5 * np.cos(a), lb / 3**.5 * np.sin(a)) for a in 2 * np.pi / 3 * np.arange(3)]
    else:
        cor = [(lb / 2 * a, lb / 2 * b) for a, b in [(1, 1), (-1, 1), (-1, -1), (1, -1)]]
    rods = []
    for h in range(s['start'], s['nb']):
        for i in range(len(cor)):
            a, b = cor[i], cor[(i + 1) % len(cor)]
            x0, x1 = h * ll, (h + 1) * ll
            rods += [((x0, *a), (x1, *a), s['dia'][0] / 2), ((x0, *a), (x0, *b), s['dia'][1] / 2),
                     ((x0, *a), (x1, *b), s['dia'][2] / 2), ((x1, *a), (x0, *b), s['dia'][2] / 2)]
    return [((P @ np.r_[u1, 1.])[:3], (P @ np.r_[u2, 1.])[:3], r) for u1, u2, r in rods]


def boom_model(s, P, pos, dir):
    """hit, ambiguous per ray"""
    pos, dir = np.asarray(pos)[:, :3], np.asarray(dir)[:, :3]
    n = len(pos)
    hit, amb = np.zeros(n, bool), np.zeros(n, bool)
    for a, b, r in boom_rods(s, P):
        ax = (b - a) / np.linalg.norm(b - a)
        half = np.linalg.norm(b - a) / 2
        rel = pos - (a + b) / 2
        dp = dir - np.outer(dir @ ax, ax)
        rp = rel - np.outer(rel @ ax, ax)
        A = (dp**2).sum(axis=1)
        B = (rp * dp).sum(axis=1)
        C = (rp**2).sum(axis=1) - r**2
        with np.errstate(all='ignore'):
            dist = np.sqrt(np.maximum((rp**2).sum(axis=1) - B**2 / A, 0))
            # the diagonals are placed with rounded angles
            near = np.abs(dist - r) < .5
            disc = B**2 - A * C
            any_h, any_a = np.zeros(n, bool), np.zeros(n, bool)
            for sg in (-1, 1):
                k = (-B + sg * np.sqrt(np.maximum(disc, 0))) / A
                z = (rel + k[:, None] * dir) @ ax
                ok = (disc >= 0) & (k >= 0) & (np.abs(z) <= half)
                any_h |= ok
                any_a |= (np.abs(np.abs(z) - half) < 3) | (np.abs(k) < 1)
                # within the tolerance of the angle the ray may just touch the rod
                any_a |= near & (np.abs(z) < half + 30)
            any_a |= (A < .01) & (dist < r + 30)
        hit |= any_h
        amb |= any_a & (dist < r + 1.)
    return hit, amb


def boom_photons(s, el, lst, base):
    P = np.asarray(el.pos4d)
    rods = boom_rods(s, P)
    rays = []
    for r in lst['l_rays']:
        a, b, rad = rods[int(r['rod'] * len(rods)) % len(rods)]
        ax = (b - a) / np.linalg.norm(b - a)
        d = np.array(r['d']) + 1e-3
        d = d - .7 * (d @ ax) * ax
        d = d / np.linalg.norm(d)
        q = np.cross(d, ax)
        q = q / np.linalg.norm(q)
        target = (a + b) / 2 + r['along'] * (b - a) / 2 + r['off'] * rad * q
        rays.append((np.r_[target - r['l'] * d, 1.], np.r_[d, 0.], np.r_[q, 0.]))
    return rays


GR = ('flatgrat', 'catgrat', 'npcat', 'catl1')


def gen_element(rng, t):
    base = {'catl1': 'catstack', 'l2abs': 'catstack', 'l2diff': 'catstack', 'quality': 'efilter'}.get(t, t)
    s = lib.gen_stage(rng, base)
    s['t'] = t
    s['f'] = lib.U(rng, 50, 5000)
    if t == 'perfect' and rng.random() < .5:
        s['refl'] = lib.U(rng, 0, 1)
    if t in ('det', 'detcirc'):
        s.pop('second', None)
    return s


def place(rng, s):
    s['zy'], s['zz'] = lib.U(rng, 5, 100), lib.U(rng, 5, 100)
    s['zx'] = rng.choice([1., lib.U(rng, .1, 20)])
    s['cen'] = rng.choice([[0., 0., 0.], [lib.U(rng, -50, 50) for _ in range(3)], [lib.F, 0., 0.], [lib.U(rng, -3000, 3000) for _ in range(3)]])
    s['rot'] = rng.choice([[0., 0., 0.], [lib.U(rng, -3.1, 3.1) for _ in range(3)], [lib.U(rng, -3.1, 3.1) for _ in range(3)],
                           [lib.U(rng, -1e-6, 1e-6) for _ in range(3)]])


def build(s, cb):
    t = s['t']
    rot = euler2mat(*s['rot'], 'sxyz')
    pos4d = compose(np.array(s['cen']), rot, np.array([s['zx'], s['zy'], s['zz']]))
    if t == 'boom':
        from marxs.missions.arcus import boom
        cls = boom.ThreeSidedBoom if s['sides'] == 3 else boom.FourSidedBoom
        return cls(boom_dimensions={'n_bays': s['nb'], 'start_bay': s['start'], 'd_longeron': s['dia'][0], 'd_batten': s['dia'][1], 'd_diag': s['dia'][2]},
                   position=s['cen'], orientation=rot)
    if t == 'stack':
        kw = {}
        if s.get('idcol'):
            kw.update(id_col=s['idcol'], id_num=7)
        return optics.FlatStack(elements=[layer(x, cb, k) for k, x in enumerate(s['l_layers'])], keywords=[{} for x in s['l_layers']], pos4d=pos4d, **kw)
    return build_at(s, cb, {'pos4d': pos4d})


def layer(x, cb, k):
    """What a FlatStack needs for one layer: something that is called with pos4d."""
    return lambda pos4d: build_at(x, cb, {'pos4d': pos4d})


def build_at(s, cb, kw):
    t = s['t']
    if t == 'perfect':
        if 'refl' in s:
            kw['reflectivity_interpolator'] = cb.wrap(t, lambda e, a, grid: s['refl'] * np.cos(np.asarray(a)), isprob='squared')
        return optics.PerfectLens(focallength=s['f'], **kw)
    if t == 'thin':
        return optics.ThinLens(focallength=s['f'], **kw)
    if t in ('stackrad', 'stackgauss'):
        els, kws = [optics.PerfectLens], [{'focallength': s['f']}]
        if t == 'stackrad':
            els += [optics.RadialMirrorScatter, optics.EnergyFilter]
            kws += [{'inplanescatter': s['sin'] * u.rad, 'perpplanescatter': s['sperp'] * u.rad}, {'filterfunc': lib.mk_filter(s['filter'], cb, t)}]
        else:
            els.append(optics.RandomGaussianScatter)
            kws.append({'scatter': s['sig'] * u.rad})
        return optics.FlatStack(elements=els, keywords=kws, **kw)
    if t == 'efilter':
        return optics.EnergyFilter(filterfunc=lib.mk_filter(s['filter'], cb, t), **kw)
    if t == 'baffle':
        return optics.Baffle(**kw)
    if t in ('flatgrat', 'catgrat', 'npcat', 'catstack', 'catl1', 'l2abs', 'l2diff', 'quality', 'cattol'):
        from marxs.missions.mitsnl import catgrating as cat
        if t == 'l2abs':
            return cat.L2Abs(**kw)
        if t == 'l2diff':
            return cat.L2Diffraction(**kw)
        if t == 'quality':
            return cat.QualityFactor(**kw)
        if t == 'cattol':
            from marxs.missions.mitsnl import tolerances as mt
            tab = lib.ralfgrating_table()
            sel = mt.OrderSelectorWavy(wavysigma=s['sig'], tab=tab) if s['kind'] == 'wavy' else mt.OrderSelectorTopHat(tophatwidth=s['sig'], tab=tab)
            return optics.CATGrating(d=2e-4, order_selector=sel, **kw)
        sel = lib.mk_orders(s['orders'], cb, t)
        if t == 'catl1':
            return cat.L1(order_selector=sel, groove_angle=s['groove'], **kw)
        d = s['d']
        if s.get('dfunc'):
            d0 = s['d']
            d = cb.wrap(t + 'd', lambda coo: d0 * (1 + 1e-3 * coo[:, 0] / 100.))
        cls = {'flatgrat': optics.FlatGrating, 'catgrat': optics.CATGrating, 'npcat': cat.NonParallelCATGrating, 'catstack': cat.CATL1L2Stack}[t]
        if t == 'npcat':
            kw.update(d_blaze_mm=1e-4, blaze_center=.02)
        g = cls(d=d, order_selector=sel, groove_angle=s['groove'], **kw)
        if s.get('name') and t != 'catstack':
            g.order_name = s['name']
        return g
    if t == 'radscatter':
        return optics.RadialMirrorScatter(inplanescatter=s['sin'] * u.rad, perpplanescatter=s['sperp'] * u.rad, **kw)
    if t == 'gaussscatter':
        return optics.RandomGaussianScatter(scatter=s['sig'] * u.rad, **kw)
    if t in ('det', 'detstack', 'detredist', 'detbare'):
        if s.get('idcol'):
            kw.update(id_col=s['idcol'], id_num=7)
        if t == 'det':
            return optics.FlatDetector(pixsize=s['pix'], ignore_pixel_warning=True, **kw)
        if t == 'detbare':
            return optics.FlatDetector(**kw)
        els = [optics.EnergyFilter, optics.FlatDetector]
        kws = [{'filterfunc': lib.mk_filter(s['filter'], cb, t)}, {'pixsize': s['pix'], 'ignore_pixel_warning': True}]
        if t == 'detredist':
            els.append(optics.detector.CCDRedistNormal)
            kws.append({'tab_width': lib.ccd_width()})
        return optics.FlatStack(elements=els, keywords=kws, **kw)
    if t == 'detcirc':
        rot = euler2mat(*s['rot'], 'sxyz')
        geo = Cylinder({'pos4d': compose(np.array(s['cen']), rot, np.array([s['zy'], s['zy'], s['zz']])), 'phi_lim': [-s['lim'], s['lim']]})
        return optics.CircularDetector(pixsize=s.get('pix', 1), geometry=geo)
    if t == 'proj':
        return lib.ProjectOntoPlane(position=s['cen'], orientation=euler2mat(*s['rot'], 'sxyz'))
    if t == 'brewster':
        from marxs.optics.multiLayerMirror import FlatBrewsterMirror
        return FlatBrewsterMirror(**kw)
    if t == 'mlmirror':
        from marxs.optics.multiLayerMirror import MultiLayerMirror
        from astropy.utils.data import get_pkg_data_filename
        return MultiLayerMirror(reflFile=get_pkg_data_filename('data/A12113.txt', package='marxs.optics'),
                                testedPolarization=get_pkg_data_filename('data/ALSpolarization2.txt', package='marxs.optics'), **kw)
    raise AssertionError(t)


def ray(s, el, r):
    """Position, direction and polarization of one ray, from its plan."""
    t = s['t']
    P = np.asarray(el.pos4d if hasattr(el, 'pos4d') else el.geometry.pos4d, dtype=float)
    c = P[:3, 3]
    ex, ey, ez = (P[:3, k] / np.linalg.norm(P[:3, k]) for k in range(3))
    ny, nz = np.linalg.norm(P[:3, 1]), np.linalg.norm(P[:3, 2])
    a, b = r['ab']
    a, b = {'in': (a, b), 'center': (0., 0.), 'axis': (0., b), 'out': (a + np.sign(a) * 1.1, b), 'edge': (np.sign(a), b),
            'corner': (np.sign(a), np.sign(b)), 'far': (50 * a, 50 * b)}[r['w']]
    target = c + a * ny * ey + b * nz * ez
    if t == 'detcirc':   # rays aimed at points inside the cylinder
        target = c + .5 * a * ny * ex + .5 * b * nz * ez
    mx = MAXANG.get(t, 80.)
    th = {'steep': .2 * r['th'], 'any': np.deg2rad(mx) * r['th'], 'normal': 0., 'near': 1e-9 * r['th']}[r['h']]
    if t in STEEP:
        th = np.deg2rad(STEEP[t]) + (0. if r['h'] in ('normal', 'near') else .02 * (r['th'] - .5))
    d = -np.cos(th) * ex + np.sin(th) * (np.cos(r['ph']) * ey + np.sin(r['ph']) * ez)
    if t == 'mlmirror':
        d = -np.cos(th) * ex + np.sin(th) * ey
    if r['back']:
        d = -d
    d = d / np.linalg.norm(d)
    length = {'before': r['l'], 'on': 0., 'past': -r['l'], 'close': 1e-3 * r['l'], 'far': 200. * r['l']}[r['s']]
    pos = target - length * d
    q = np.cross(d, ex)
    if np.linalg.norm(q) < 1e-3:
        q = np.cross(d, ey)
    q = q / np.linalg.norm(q)      # s polarization
    pp = np.cross(d, q)
    pa = {'s': 0., 'p': np.pi / 2, 'any': r['pa']}[r['pol']]
    pol = np.cos(pa) * q + np.sin(pa) * pp
    if r['pol'] == 'p':
        pol = pp
    return np.r_[pos, 1.], np.r_[d, 0.], np.r_[pol / np.linalg.norm(pol), 0.]


def photons(s, el, lst, base):
    rays = boom_photons(s, el, lst, base) if s['t'] == 'boom' else [ray(s, el, r) for r in lst['l_rays']]
    n = len(rays)
    t = Table()
    t['time'] = np.arange(float(n))
    t['energy'] = np.array([r['e'] for r in lst['l_rays']], dtype=float)
    t['polangle'] = np.zeros(n)
    t['probability'] = np.array([r['p'] for r in lst['l_rays']], dtype=float)
    for k, c in enumerate(['pos', 'dir', 'polarization']):
        t[c] = np.array([x[k] for x in rays], dtype=float).reshape(n, 4)
    if s['t'] == 'quality':
        t['order'] = (np.arange(n) % 9 - 4).astype(float)
    if lst['old']:
        for c in ('y', 'z', 'det_x', 'det_y', 'grat_y', 'order'):
            if c not in t.colnames:
                t[c] = np.arange(float(n)) + .25
    if lst['user'] and n:
        watch.add_user_columns(t, base)
    t['time'].unit, t['energy'].unit, t['polangle'].unit = u.s, u.keV, u.rad
    t.meta['EXPOSURE'] = (10., 'total exposure time [s]')
    return t


class Prog:
    def __init__(self, cb):
        self.cb = cb


def run(plan, obs, what):
    s = plan['stage']
    cb = lib.Callbacks()
    el = build(s, cb)
    base = 0
    for lst in plan['l_lists']:
        t = photons(s, el, lst, base)
        base += len(t)
        w = watch.Watch(obs, what, Prog(cb))
        w.before('0:' + s['t'], el, s, t)
        out = el(t)
        if out is None:
            raise Violation('returns-nothing', f'{s["t"]} returned None')
        w.after('0:' + s['t'], el, s, out)
        for r in lst['l_rays']:
            obs.state('ray', s['t'], r['w'], r['h'], r['s'], r['back'])
        obs.count('bench-photons', len(t))
        obs.event(lib.table_digest(out))
    if len(plan['l_lists']) > 1:
        obs.count('runs-on-used-instrument')
