"""A small synthetic calibration data base, so that the complete Arcus mission of marxs.missions.arcus can be run.

The real one is not public; the files here have the same layout with few (but real-sized) mirror modules and gratings.
"""
import os
import sys
import numpy as np
from astropy.table import Table, QTable
import astropy.units as u


def petal(p):
    rows = []
    for j in range(p['n_rows']):
        for k in range(p['n_cols']):
            ang = (k - (p['n_cols'] - 1) / 2) * p['dang']
            r = 420. + 110. * j
            rows.append((r - 50., r + 50., ang))
    return rows


def reflectivity(e, ang):
    """Linear in both, so that every interpolation agrees."""
    return .95 - .15 * e - 2. * ang


def write_caldb(path, p):
    for d in ('spos', 'gratings', 'filters', 'detectors/ccd_2021', 'other'):
        os.makedirs(os.path.join(path, d))

    def put(name, tab):
        tab.write(os.path.join(path, name + '.csv'), format='ascii.ecsv')
    rows = petal(p)
    n = len(rows)
    t = QTable()
    t['inner_radius'] = [r[0] for r in rows]
    t['outer_radius'] = [r[1] for r in rows]
    t['clocking_angle'] = np.array([r[2] for r in rows]) * u.deg
    t['azwidth'] = np.full(n, 90.)
    t['primary_length'] = np.full(n, 40.)
    t['plate_height'] = np.full(n, 100. / 36)
    t['focal_length'] = np.full(n, 12000.)
    put('spos/petallayout', t)
    en, an = np.linspace(.1, 5., 9), np.linspace(0, .05, 6)
    t = QTable()
    t['energy'] = np.repeat(en, 6) * u.keV
    t['angle'] = np.tile(an, 9) * u.rad
    t['refl'] = reflectivity(t['energy'].value, t['angle'].value)
    put('spos/coated_reflectivity', t)
    for name, v in (('geometricthroughput', p['open'][0]), ('porespecifications', p['open'][1])):
        put('spos/' + name, Table({'transmission': [v]}))
    for name, v in (('spos/lossterm', .9), ('filters/sifilter', .8), ('filters/opticalblocking', .9), ('filters/uvblocking', .95),
                    ('detectors/contam', .99), ('detectors/qe', .93)):
        t = QTable()
        t['energy'] = np.array([.1, 1., 2., 10.]) * u.keV
        t['transmission'] = np.array([v / 2, v, v * .9, v * .8])
        put(name, t)
    from astropy.utils.data import get_pkg_data_filename
    tab = Table.read(get_pkg_data_filename('data/Si_efficiency_5_7.dat', package='marxs.missions.mitsnl'), format='ascii.ecsv')
    put('gratings/efficiency', tab)
    with open(os.path.join(path, 'detectors/ccd_2021/arcus_ccd_rmf_20210211.txt'), 'w') as f:
        f.write('.1 50.\n1. 70.\n3. 110.\n10. 150.\n')
    fac = []
    blaze = np.deg2rad(1.8)
    for m, (r0, r1, ang) in enumerate(rows):
        r = (r0 + r1) / 2
        spo = np.array([r * np.sin(np.deg2rad(ang)), r * np.cos(np.deg2rad(ang)), 12000.])
        for k in range(p['n_fac']):
            c = spo * .93 + np.array([(k - (p['n_fac'] - 1) / 2) * 34., 0, 0])
            ray = c / np.linalg.norm(c)
            disp = np.array([1., 0, 0]) - ray[0] * ray
            disp /= np.linalg.norm(disp)
            norm = np.cos(blaze) * ray + np.sin(blaze) * disp
            disp = np.cos(blaze) * disp - np.sin(blaze) * ray
            fac.append([*c, *norm, *disp, *np.cross(norm, disp), m + 1, len(fac), 32., 80., p['period'] * (1 + 1e-3 * k)])
    names = ['X', 'Y', 'Z'] + [a + b for a in ('NormN', 'DispN', 'GBarN') for b in 'XYZ'] + ['SPO_MM_num', 'facet_num', 'xsize', 'ysize', 'period']
    t = Table(rows=fac, names=names)
    t['period'].unit = u.mm
    put('gratings/facets', t)
    put('other/pointingjitter', QTable({'FWHM': [4.] * u.arcsec}))


def load(path):
    """Import marxs.missions.arcus with the calibration data in this directory."""
    import subprocess
    for m in [m for m in sys.modules if m.startswith('marxs.missions.arcus')]:
        del sys.modules[m]
    with open(os.path.join(path, 'arcus.cfg'), 'w') as f:
        f.write(f'[data]\ncaldb_inputdata = {path}\n')
    cwd, check = os.getcwd(), subprocess.check_output

    import logging
    logging.getLogger("marxs.missions.arcus.utils").setLevel(logging.ERROR)

    def nogit(*args, **kwargs):
        raise OSError('there is no git in the simulation')
    os.chdir(path)
    subprocess.check_output = nogit
    try:
        from marxs.missions.arcus import arcus
    finally:
        os.chdir(cwd)
        subprocess.check_output = check
    return arcus


def gen(rng):
    return {'n_rows': rng.randint(1, 3), 'n_cols': rng.randint(1, 3), 'dang': rng.uniform(8, 14), 'n_fac': rng.randint(1, 3),
            'period': 2e-4, 'open': [rng.uniform(.5, 1), rng.uniform(.5, 1)]}


# ---------------------------------------------------------------- Arcus as a list of stages

_loaded = {}


def module(p):
    """marxs.missions.arcus.arcus for these parameters (kept until the process ends)."""
    import json
    from sim import world
    key = json.dumps(p, sort_keys=True)
    if key not in _loaded:
        path = os.path.join(world.current().scratch(), 'caldb')
        write_caldb(path, p)
        _loaded.clear()   # modules of the same name; only one can be current
        _loaded[key] = load(path)
    return _loaded[key]


OFFSET = {'1': 0, '2': 1000, '1m': 10000, '2m': 11000}   # what the numbers of modules and gratings in each channel start with
FILTERS = (('sifilter', .8), ('opticalblocking', .9), ('uvblocking', .95), ('contam', .99), ('qe', .93))


def filter_value(k, p, e):
    """Transmission of the energy filters, from the numbers in the calibration files."""
    if k == 'open':
        return np.full(len(e), p['open'][0] * p['open'][1])
    v = .9 if k == 'loss' else dict(FILTERS)[k]
    return np.interp(e, [.1, 1., 2., 10.], [v / 2, v, v * .9, v * .8])


def stages(a):
    """Description of the elements in the order in which photons meet them."""
    out = []
    if a['cls'] == 'AXIS':
        return axis_stages(a)
    for c in a['chan']:
        out += [{'t': 'arcxou', 'chan': c}, {'t': 'arcscat', 'chan': c}]
    out += [{'t': 'arcmount'}, {'t': 'arcfilt', 'f': 'open'}, {'t': 'arcfilt', 'f': 'loss'}]
    out += [{'t': 'arccat', 'chan': c} for c in a['chan']]
    out += [{'t': 'supportbars'}]
    if a['cls'] != 'ArcusForSIXTE':
        out += [{'t': 'arcfilt', 'f': k} for k, _ in FILTERS]
    if a['cls'] == 'ArcusForPlot':
        out += [{'t': 'boom', 'sides': 4, 'start': 0, 'nb': 8, 'dia': [10.2, 8.43, 1.85]}, {'t': 'arccam'}]
    elif a['cls'] == 'ArcusForSIXTE':
        out += [{'t': 'arcfp'}]
    else:
        out += [{'t': 'arccirc'}, {'t': 'proj', 'name': 'projcirc'}, {'t': 'prop', 'dist': -100.}, {'t': 'arccam'}, {'t': 'proj'}, {'t': 'arcfp'}]
    return number(a, out)


def axis_stages(a):
    out = [{'t': 'axlens'}, {'t': 'axscale'}, {'t': 'radscatter'}, {'t': 'lynxgas'}, {'t': 'supportbars'}] + [{'t': 'arcfilt', 'f': k} for k, _ in FILTERS]
    out += [{'t': 'lynxdet', 'pix': .024}, {'t': 'arcfp', 'pre': 'imaging', 'pix': .008}, {'t': 'proj'}, {'t': 'prop', 'dist': -1000.},
            {'t': 'arccirc', 'pre': 'detcirc', 'lim': np.pi / 2}, {'t': 'proj', 'cols': ['projcirc_y', 'projcirc_z']}, {'t': 'prop', 'dist': -1000.},
            {'t': 'arcfp', 'pre': 'detinf'}]
    return number(a, out)


def number(a, out):
    out += [{'t': 'tag'}]
    for k, s in enumerate(out):
        s['arcus'], s['k'] = a, k
    return out


def gen_arcus(rng):
    chan = ['1', '1m', '2', '2m']
    if rng.random() < .4:
        chan = sorted(rng.sample(chan, rng.randint(1, 3)))
    a = {'p': gen(rng), 'chan': chan, 'cls': rng.choice(['PerfectArcus', 'PerfectArcus', 'Arcus', 'Arcus', 'ArcusForPlot', 'ArcusForSIXTE']), 'iseed': rng.randrange(2**31)}
    if rng.random() < .2:
        a.update(cls='AXIS', size=[round(rng.uniform(150, 300), 3), round(rng.uniform(200, 400), 3)])
    return a


def flatten(el):
    from marxs.simulator import Sequence
    out = []
    for e in el.elements:
        out += flatten(e) if isinstance(e, Sequence) else [e]
    return out


def parts(a, store):
    """All elements of one instrument; store: dictionary of the program that the instrument belongs to."""
    import json
    key = json.dumps(a, sort_keys=True)
    if key not in store:
        m = module(a['p'])
        st = np.random.get_state()
        np.random.seed(a['iseed'])
        try:
            if a['cls'] == 'AXIS':
                from marxs.missions.AXIS import AXIS
                inst = AXIS.PerfectAXIS(conf=dict(AXIS.conf, grating_size=np.array(a['size'])))
            else:
                inst = getattr(m, a['cls'])(channels=list(a['chan']))
            store[key] = flatten(inst)
        finally:
            np.random.set_state(st)
    return store[key]
