"""Chandra observations to the event file: the sky position of each event is the place its photon came from."""
import math
import os
import numpy as np
import astropy.units as u
from astropy.coordinates import SkyCoord
from astropy.table import Table
from sim import lib, world
from sim.core import Violation

F = 10061.65
PIX = math.radians(.492 / 3600)
AIM = {'ACIS-I': [-.782, 0, -233.592], 'ACIS-S': [-.684, 0, -190.133]}
OLSI = np.array([.684, .750, 236.552])
# corners of the chips in LSI coordinates (Chandra coordinate memo): LL, LR, UL
CORNERS = [[(2.361, -26.484, 23.088), (1.130, -26.546, -1.458), (1.130, -1.939, 23.088)],
           [(1.130, 23.086, -1.458), (2.360, 23.024, 23.088), (-.100, -1.459, -1.458)],
           [(1.130, -26.546, -1.997), (2.361, -26.484, -26.543), (-.10, -2.001, -1.997)],
           [(2.361, 23.024, -26.543), (1.131, 23.086, -1.997), (1.13, -1.521, -26.543)]] + \
          [[(a, y0, -59.170), (b, y1, -59.170), (a, y0, -34.590)] for a, b, y0, y1 in
           ((.744, .353, -81.170, -56.597), (.348, .099, -56.133, -31.559), (.096, -.011, -31.100, -6.524),
            (-.011, .024, -6.035, 18.541), (.026, .208, 18.970, 43.545), (.208, .528, 43.986, 68.560))]
TDET = [(3061, 5131), (5131, 4107), (3061, 4085), (5131, 3061), (791, 1702), (1833, 1702), (2875, 1702), (3917, 1702), (4959, 1702), (6001, 1702)]
LIMITS = {'CCD_ID': (0, 9), 'CHIPX': (2, 1023), 'CHIPY': (2, 1023), 'TDETX': (2, 8191), 'TDETY': (2, 8191), 'DETX': (.5, 8192.5), 'DETY': (.5, 8192.5),
          'X': (.5, 8192.5), 'Y': (.5, 8192.5)}


def gen(rng):
    aim = rng.choice(['ACIS-I', 'ACIS-S'])
    chips = sorted(set(rng.sample(range(10), rng.randint(1, 6))) | {3 if aim == 'ACIS-I' else 7})
    rng.shuffle(chips)
    big = rng.choice([9, 9, 25])
    src = [{'dx': lib.U(rng, -big, big), 'dy': lib.U(rng, -9, 9), 'n_phot': rng.choice([1, 2, 5, 20])} for _ in range(rng.choice([1, 2, 4]))]
    if rng.random() < .5:
        src[0].update(dx=lib.U(rng, -1, 1), dy=lib.U(rng, -1, 1))
    if rng.random() < .5:   # aim at one of the chips (for a roll of 0)
        c = rng.choice(chips)
        p, ey, ez = corners({'aim': aim, 'off': None}, c)
        p = p + lib.U(rng, .05, .95) * ey + lib.U(rng, .05, .95) * ez
        src[-1].update(dx=-math.degrees(math.atan(p[1] / F)) * 60, dy=-math.degrees(math.atan(p[2] / F)) * 60)
    f = []
    if rng.random() < .35:
        f = [{'op': rng.choice(['write', 'write', 'open', 'close', '*']), 'n': rng.randrange(0, 6), 'kind': rng.choice(['EIO', 'ENOSPC', 'EACCES', 'torn']),
              'frac': rng.random()}]
    return {'t': rng.choice(['fixed', 'fixed', 'lissajous']), 'ra': lib.U(rng, 0, 360), 'dec': lib.U(rng, -80, 80), 'roll': rng.choice([0., 0., 0., lib.U(rng, 0, 360)]),
            'amp': rng.choice([0., 8.]), 'aim': aim, 'chips': chips, 'off': rng.choice([None, None, [lib.U(rng, -2, 2), lib.U(rng, -5, 5)]]),
            'l_src': src, 'pseed': rng.randrange(2**31), 'reread': rng.choice([None, None, 'fits', 'ecsv']), 'regen': rng.random() < .3,
            'expo': 10**rng.uniform(0, 6), 'l_faults': f, 'start': rng.uniform(1e9, 2e9), 'exists': rng.random() < .15, 'lower': rng.random() < .3}


def run(plan, obs):
    from marxs import optics, source, simulator
    from marxs.missions import chandra
    a = plan['acis']
    w = world.current()
    root = w.scratch()
    r = np.random.RandomState(a['pseed'])
    n = sum(s['n_phot'] for s in a['l_src'])
    if not n:
        return
    c0 = SkyCoord(a['ra'], a['dec'], unit='deg')
    off = np.concatenate([np.tile([[s['dx'], s['dy']]], (s['n_phot'], 1)) for s in a['l_src']])
    sky = c0.spherical_offsets_by(off[:, 0] * u.arcmin, off[:, 1] * u.arcmin)
    tab = Table({'time': r.uniform(0, a['expo'], n), 'energy': r.uniform(1, 2, n), 'polangle': r.uniform(0, 6, n), 'probability': np.ones(n),
                 'ra': sky.ra.deg, 'dec': sky.dec.deg, 'uid': np.arange(n)})
    tab.meta['EXPOSURE'] = (a['expo'], 'total exposure time [s]')
    tab.meta['EXTNAME'] = 'EVENTS'
    kw = {'coords': c0, 'roll': a['roll'] * u.deg}
    point = source.FixedPointing(**kw) if a['t'] == 'fixed' else chandra.LissajousDither(DitherAmp=np.array([a['amp'], a['amp'], 0.]) * u.arcsec, **kw)
    kw = {} if a['off'] is None else {'DetOffsetX': a['off'][0], 'DetOffsetY': a['off'][1]}
    acis = chandra.ACIS(chips=list(a['chips']), aimpoint=list(AIM[a['aim']]), **kw)
    if a['regen']:
        acis.generate_elements()
    if [e.id_num for e in acis.elements] != a['chips']:
        raise Violation('acis-chips', f'ACIS with chips {a["chips"]} has elements {[e.id_num for e in acis.elements]}')
    front = chandra.Chandra(elements=[point, optics.RectangleAperture(position=[F + 100, 0, 0], zoom=[1, .5, .5])])
    back = chandra.Chandra(elements=[optics.PerfectLens(focallength=F, position=[F, 0, 0], zoom=[1, 300., 300.]), acis])
    ph = front(tab)
    if a['reread']:
        path = os.path.join(root, 'list.' + a['reread'])
        ph.write(path, format='ascii.ecsv' if a['reread'] == 'ecsv' else a['reread'])
        ph = Table.read(path, format='ascii.ecsv' if a['reread'] == 'ecsv' else a['reread'])
    ph = back(ph)
    obs.count('photons', n)
    obs.state('acis', a['t'], a['aim'], a['reread'], a['off'] is not None, a['roll'] == 0)
    check_coords(a, ph, obs)
    obs.event(lib.table_digest(ph))
    if 'CCD_ID' in ph.colnames and (np.asarray(ph['CCD_ID']) >= 0).any():   # without any event there are no sky coordinates to describe
        write(a, ph, point, obs, w, root)


def corners(a, chip):
    ll, lr, ul = (np.array(c) for c in CORNERS[chip])
    sh = OLSI + AIM[a['aim']] - np.array([a['off'][0], 0, a['off'][1]] if a['off'] else [0, 0, 0])
    return ll + sh, lr - ll, ul - ll


def check_coords(a, ph, obs):
    ids = np.asarray(ph['CCD_ID']) if 'CCD_ID' in ph.colnames else np.full(len(ph), -1)
    pos, d = np.asarray(ph['pos']), np.asarray(ph['dir'])
    # every ray that meets one of the chips well inside is detected on that chip
    for k in range(len(ph)):
        inside, near = [], False
        for c in a['chips']:
            p, ey, ez = corners(a, c)
            m = np.linalg.solve(np.array([ey, ez, -d[k, :3]]).T, pos[k, :3] - p)
            inside.append(.002 < m[0] < .998 and .002 < m[1] < .998)
            near |= -.002 <= m[0] <= 1.002 and -.002 <= m[1] <= 1.002
        hit = [c for c, i in zip(a['chips'], inside) if i]
        if hit and ids[k] not in hit or not near and ids[k] != -1:
            raise Violation('acis-chip', f'photon {k} meets chips {hit} but CCD_ID is {ids[k]}')
    on = np.nonzero(ids >= 0)[0]
    obs.count('events-on-chips', len(on))
    names = ('chipx', 'chipy', 'tdetx', 'tdety', 'detx', 'dety', 'x', 'y')
    for c in names:
        if len(on) and c not in ph.colnames:
            raise Violation('missing-output', f'ACIS gave no column {c} for photons on the chips')
        if c != 'y' and c in ph.colnames and not np.isnan(np.asarray(ph[c])[ids < 0]).all():
            raise Violation('acis-missed', f'photons that miss all chips have a value for {c}')
    th = math.radians(a['roll'])
    for k in on:
        v = {c: float(ph[c][k]) for c in names}
        p, ey, ez = corners(a, ids[k])
        want = p + (v['chipx'] - .5) / 1024 * ey + (v['chipy'] - .5) / 1024 * ez
        if not np.abs(want - pos[k, :3]).max() < .01:
            raise Violation('acis-chip-coords', f'event {k} at {pos[k]} has chip coordinates ({v["chipx"]}, {v["chipy"]}) on chip {ids[k]}, which is at {want}')
        o = TDET[ids[k]]
        t = (o[0] + v['chipx'], o[1] + v['chipy']) if ids[k] > 3 else (o[0] + v['chipy'], o[1] + 1 - v['chipx']) if ids[k] in (0, 2) else \
            (o[0] + 1 - v['chipy'], o[1] + v['chipx'])
        if not np.allclose(t, (v['tdetx'], v['tdety']), rtol=0, atol=1e-6):
            raise Violation('acis-tdet', f'event {k}: chip {ids[k]} ({v["chipx"]}, {v["chipy"]}) has tdet ({v["tdetx"]}, {v["tdety"]}) instead of {t}')
        x = F - pos[k, 0]
        det = 4096.5 + pos[k, 1] / x / PIX, 4096.5 - pos[k, 2] / x / PIX
        if not np.allclose(det, (v['detx'], v['dety']), rtol=0, atol=1e-5):
            raise Violation('acis-det', f'event {k} at {pos[k]}: det coordinates ({v["detx"]}, {v["dety"]}) instead of {det}')
        e, f = v['detx'] - 4096.5, v['dety'] - 4096.5
        s = 4096.5 + e * math.cos(th) + f * math.sin(th), 4096.5 - e * math.sin(th) + f * math.cos(th)
        if not np.allclose(s, (v['x'], v['y']), rtol=0, atol=1e-5):
            raise Violation('acis-sky', f'event {k}: sky coordinates ({v["x"]}, {v["y"]}) are not those of ({v["detx"]}, {v["dety"]}) for a roll of {a["roll"]}')


def val(meta, k):
    v = meta.get(k)
    return v[0] if isinstance(v, (tuple, list)) else v


def write(a, ph, point, obs, w, root):
    from marxs.missions import chandra
    path = os.path.join(root, 'evt.fits')
    if a['exists']:
        with open(path, 'wb') as f:
            f.write(b'precious')
    keep, meta = ph.copy(), repr(ph.meta)
    w.clock.t = a['start']
    fs = w.fs = world.FaultFS(root, a['l_faults'])
    err = None
    try:
        chandra.Chandra(elements=[]).write_evt(ph, path)
    except (OSError, world.SimCrash) as e:
        err = e
    w.fs = None
    for f in fs.fired:
        obs.fault(f'disk:{f[0]}:{f[1]}')
    obs.event('evt', repr(err), fs.fired)
    obs.nontrivial = True
    if repr(ph.meta) != meta or ph.colnames != keep.colnames or not all(lib.same_array(ph[c], keep[c]) for c in keep.colnames):
        raise Violation('evt-list-changed', 'writing the event file changed the photon list')
    if a['exists']:
        with open(path, 'rb') as f:
            if f.read() != b'precious' or not isinstance(err, OSError):
                raise Violation('evt-overwritten', f'an existing event file was replaced or the failure not reported ({err!r})')
        return
    if err is not None:
        if not fs.fired:
            raise err
        return
    from astropy.io import fits
    from astropy.wcs import WCS
    with fits.open(path) as hdus:
        names = [h.name for h in hdus]
        if 'EVENTS' not in names:
            raise Violation('evt-header', f'event file has extensions {names}')
        h, data = hdus['EVENTS'].header.copy(), np.array(hdus['EVENTS'].data)
    cols = {h[f'TTYPE{k + 1}'].upper(): k + 1 for k in range(h['TFIELDS'])}
    obs.count('event-files')
    for c in keep.colnames:
        name = {'ra': 'marxs_ra', 'dec': 'marxs_dec'}.get(c, c)
        if name.upper() not in cols:
            raise Violation('evt-column', f'event file has no column {name}')
        x = data[data.dtype.names[cols[name.upper()] - 1]]
        y = np.asarray(keep[c].filled(np.nan) if hasattr(keep[c], 'filled') else keep[c])
        if not (np.asarray(x) == y).all() and not (y.dtype.kind == 'f' and np.array_equal(x, y, equal_nan=True)):
            raise Violation('evt-column', f'column {c} in the event file differs from the photon list')
    want = {'EXPOSURE': a['expo'], 'INSTRUME': 'ACIS', 'DETNAM': 'ACIS-' + ''.join(map(str, a['chips'])), 'RA_PNT': a['ra'] % 360, 'DEC_PNT': a['dec'],
            'ROLL_PNT': a['roll'], 'TELESCOP': 'CHANDRA', 'MISSION': 'AXAF', 'ONTIME': a['expo'], 'LIVETIME': a['expo'],
            'CONTENT': 'EVT1', 'HDUCLASS': 'OGIP', 'HDUCLAS1': 'EVENTS', 'HDUCLAS2': 'ALL',
            'SIM_X': AIM[a['aim']][0] - (a['off'] or [0, 0])[0], 'SIM_Z': AIM[a['aim']][2] - (a['off'] or [0, 0])[1]}
    for k, v in want.items():
        g = h.get(k)
        if not (g == v or isinstance(v, float) and isinstance(g, (int, float)) and abs(g - v) < 1e-9 * (1 + abs(v))):
            raise Violation('evt-header', f'event file: {k} is {g!r} instead of {v!r}', key='evt-header:' + k)
    if abs(h['TSTOP'] - h['TSTART'] - a['expo']) > 1e-6 + 1e-9 * a['expo']:
        raise Violation('evt-header', f'TSTOP - TSTART is {h["TSTOP"] - h["TSTART"]} for an exposure of {a["expo"]} s')
    for c, lim in LIMITS.items():
        if c in cols and (h.get(f'TLMIN{cols[c]}'), h.get(f'TLMAX{cols[c]}')) != lim:
            raise Violation('evt-limits', f'column {c}: limits in the file are {h.get(f"TLMIN{cols[c]}")} to {h.get(f"TLMAX{cols[c]}")} instead of {lim}')
    on = np.asarray(keep['CCD_ID']) >= 0
    if not on.any():
        return
    # as ds9 or any other program would do it: the keywords of the columns called x and y
    ix, iy = cols['X'], cols['Y']
    wcs = WCS(naxis=2)
    for k in ('TCTYP', 'TCRVL', 'TCDLT', 'TCRPX'):
        if f'{k}{ix}' not in h or f'{k}{iy}' not in h:
            raise Violation('evt-wcs', f'event file has no {k} keywords for the sky coordinates in columns {ix} and {iy}')
    wcs.wcs.ctype = [h[f'TCTYP{ix}'], h[f'TCTYP{iy}']]
    if [c[:5].rstrip('-') + c[-4:] for c in wcs.wcs.ctype] != ['RA-TAN', 'DEC-TAN']:
        raise Violation('evt-wcs', f'sky coordinates have the types {list(wcs.wcs.ctype)}')
    wcs.wcs.crval, wcs.wcs.cdelt, wcs.wcs.crpix = ([h[f'{k}{ix}'], h[f'{k}{iy}']] for k in ('TCRVL', 'TCDLT', 'TCRPX'))
    got = wcs.wcs_pix2world(np.array([keep['x'], keep['y']]).T[on], 1)
    c0 = SkyCoord(a['ra'], a['dec'], unit='deg')
    true = SkyCoord(keep['ra'][on], keep['dec'][on], unit='deg')
    got = SkyCoord(got[:, 0], got[:, 1], unit='deg')
    tol = .02 + (3 * a['amp'] if a['t'] == 'lissajous' else 0)   # arcsec
    obs.count('events-located', int(on.sum()))
    sep = got.separation(true).arcsec
    if (sep > tol).any():
        k = int(np.argmax(sep))
        # the roll angle in the header is taken in the opposite sense
        other = c0.directional_offset_by(c0.position_angle(true) - 2 * a['roll'] * u.deg, c0.separation(true))
        what = 'roll' if a['roll'] and (got.separation(other).arcsec < tol).all() else 'wrong'
        raise Violation('evt-sky', f'event {k} of a photon from ({true[k].ra.deg}, {true[k].dec.deg}) is at ({got[k].ra.deg}, {got[k].dec.deg}) in the event file, '
                        f'{sep[k]:.2f} arcsec away, for a pointing with roll {a["roll"]} deg', key='evt-sky:' + what)
