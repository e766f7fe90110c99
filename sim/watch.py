"""Observers that look at the photon list before and after every stage and compare with a small reference model."""
import numpy as np
from sim.core import Violation, HarnessError
from sim import lib

CORE = ('pos', 'dir', 'polarization', 'probability')


def h3(x):
    return np.asarray(x)[..., :3]


def plane_model(pos4d, pos, dir):
    """Reference ray / rectangle intersection.  Returns hit, ambiguous (too close to an edge to call), point, y, z."""
    pos4d = np.asarray(pos4d, dtype=float)
    c, vx, vy, vz = (pos4d[:3, k] for k in (3, 0, 1, 2))
    ny, nz = np.linalg.norm(vy), np.linalg.norm(vz)
    ex, ey, ez = vx / np.linalg.norm(vx), vy / ny, vz / nz
    p, d = h3(pos), h3(dir)
    with np.errstate(all='ignore'):
        den = d @ ex
        k = ((c - p) @ ex) / den
        pt = p + k[:, None] * d
        rel = pt - c
        y, z = rel @ ey, rel @ ez
        scale = 1e-7 * (1 + ny + nz + np.abs(c).max())
        hit = (den != 0) & (k >= 0) & (np.abs(y) <= ny) & (np.abs(z) <= nz)
        amb = (np.abs(np.abs(y) - ny) < scale) | (np.abs(np.abs(z) - nz) < scale) | (np.abs(k) * np.linalg.norm(d, axis=1) < scale) | \
            (np.abs(den) < 1e-9)
    bad = ~(np.isfinite(p).all(axis=1) & np.isfinite(d).all(axis=1))
    hit[bad] = False
    return hit, amb & ~bad, pt, y, z


def cylinder_model(pos4d, philim, pos, dir):
    inv = np.linalg.inv(pos4d)
    p = (inv @ np.asarray(pos).T).T
    d = (inv @ np.asarray(dir).T).T
    n = len(p)
    hit = np.zeros(n, bool)
    amb = np.zeros(n, bool)
    pt = np.full((n, 4), np.nan)
    phi = np.full(n, np.nan)
    zz = np.full(n, np.nan)
    zs = np.linalg.norm(pos4d[:3, 2])
    lo, hi = philim
    for i in range(n):
        a = d[i, 0]**2 + d[i, 1]**2
        b = 2 * (p[i, 0] * d[i, 0] + p[i, 1] * d[i, 1])
        c = p[i, 0]**2 + p[i, 1]**2 - 1
        disc = b * b - 4 * a * c
        if a == 0 or not np.isfinite(disc):
            amb[i] = True
            continue
        if abs(disc) < 1e-9 * max(b * b, 1e-30):
            amb[i] = True
        if disc < 0:
            continue
        best = None
        for s in (-1, 1):
            k = (-b + s * np.sqrt(disc)) / (2 * a)
            x, y, z = (p[i] + k * d[i])[:3]
            f = np.arctan2(y, x)
            inside = (f - lo) % (2 * np.pi) <= (hi - lo) or np.isclose(hi - lo, 2 * np.pi)
            if abs(abs(z) - 1) < 1e-7 or abs(k) < 1e-7:
                amb[i] = True
            for e in (lo, hi):
                q = abs((f - e + np.pi) % (2 * np.pi) - np.pi)
                if q < 1e-7 and not np.isclose(hi - lo, 2 * np.pi):
                    amb[i] = True
            if k >= 0 and abs(z) <= 1 and inside and (best is None or k < best[0]):
                best = (k, f, z * zs)
        if best is not None:
            hit[i] = True
            pt[i] = p[i] + best[0] * d[i]
            phi[i], zz[i] = best[1:]
    return hit, amb, (pos4d @ pt.T).T[:, :3], phi, zz


class Snap:
    """Deep copy of a photon table at one moment."""

    def __init__(self, photons):
        self.names = list(photons.colnames)
        self.d = {c: np.array(photons[c], copy=True) for c in self.names}
        self.n = len(photons)
        self.meta = {k: repr(v) for k, v in photons.meta.items()}
        self.usermeta = dict(photons.meta)

    def __getitem__(self, c):
        return self.d[c]

    def __contains__(self, c):
        return c in self.d


USERCOLS = ('uid', 'userf', 'users', 'user2')


def add_user_columns(photons, base=0):
    n = len(photons)
    photons['uid'] = np.arange(base, base + n)
    photons['userf'] = np.sqrt(np.arange(n) + base + .5)
    photons['users'] = np.array(['u%d' % k for k in range(base, base + n)], dtype='U12')
    photons['user2'] = np.arange(2. * n).reshape(n, 2) + base
    photons['userb'] = (np.arange(n) + base) % 3 == 0
    photons.meta['USERKEY'] = (42.5, 'set by user')
    return photons


# columns an element may write (besides CORE); None = not modelled
OUT = {'perfect': ('mirror_x', 'mirror_y'), 'thin': ('y', 'z'), 'gfilter': (), 'efilter': ('y', 'z'), 'baffle': (), 'prop': (),
       'stackrad': ('y', 'z', 'mirror_x', 'mirror_y', 'inplanescatter', 'perpplanescatter'),
       'stackgauss': ('y', 'z', 'mirror_x', 'mirror_y', 'scatter'), 'radscatter': ('y', 'z', 'inplanescatter', 'perpplanescatter'),
       'lynxmirror': ('y', 'z', 'mirror_x', 'mirror_y', 'inplanescatter', 'perpplanescatter'), 'lynxeff': (), 'lynxqe': (),
       'arcmount': (), 'arcfilt': (), 'arcxou': ('mirror_x', 'mirror_y', 'xou'), 'arcscat': ('scat_y', 'scat_z', 'inplanescatter', 'perpplanescatter'),
       'arccat': ('grat_y', 'grat_z', 'order', 'blaze', 'order_L1', 'blaze_L1', 'L2Diffraction', 'y', 'z', 'facet', 'window'),
       'axscale': (), 'axlens': ('mirror_x', 'mirror_y'),
       'arccam': ('det_x', 'det_y', 'detpix_x', 'detpix_y', 'CCD'),
       'gaussscatter': ('y', 'z', 'scatter'), 'tag': (), 'hrma': ('y', 'z', 'mirror_x', 'mirror_y', 'inplanescatter', 'perpplanescatter'), 'proj': ('proj_x', 'proj_y'), 'supportbars': (),
       'l2abs': ('y', 'z'), 'quality': ('y', 'z'), 'boom': ('hitrod',), 'l2diff': ('y', 'z', 'L2Diffraction'),
       'catl1': ('grat_y', 'grat_z', 'order_L1', 'blaze_L1'),
       'mlmirror': ('y', 'z'), 'brewster': ('y', 'z'), 'det45': ('det_x', 'det_y', 'detpix_x', 'detpix_y')}
CHANGES = {  # which core columns each kind may change
    'gfilter': ('probability',), 'efilter': ('pos', 'probability'), 'baffle': ('pos', 'probability'), 'prop': ('pos',), 'tag': (),
    'lynxeff': ('probability',), 'lynxqe': ('probability',), 'lynxdet': ('pos',),
    'axscale': ('probability',), 'arcmount': ('probability',), 'arcfilt': ('probability',), 'arcscat': ('dir', 'polarization'), 'arccam': ('pos',), 'arcfp': ('pos',), 'arccirc': ('pos',),
    'l2abs': ('pos', 'probability'), 'quality': ('pos', 'probability'), 'boom': ('probability',), 'l2diff': ('pos', 'dir', 'polarization'),
    'proj': (), 'supportbars': ('probability',), 'det': ('pos',), 'detbare': ('pos',), 'detstack': ('pos', 'probability'),
    'detredist': ('pos', 'probability'), 'detpar': ('pos',), 'acis': ('pos',), 'detcirc': ('pos',), 'det45': ('pos',)}
FLAT = ('perfect', 'thin', 'stackrad', 'stackgauss', 'efilter', 'flatgrat', 'catgrat', 'npcat', 'catstack', 'cattol', 'baffle', 'det',
        'detstack', 'detredist', 'detbare', 'radscatter', 'gaussscatter', 'hrma', 'lynxmirror', 'mlmirror', 'brewster', 'det45', 'l2abs', 'l2diff', 'catl1', 'quality', 'stack', 'arcfp', 'axlens')
ASSEMBLY = ('par', 'gas', 'detpar', 'hetg', 'acis', 'lynxgas', 'lynxdet', 'arcxou', 'arccat', 'arccam')
GRAT = ('flatgrat', 'catgrat', 'npcat', 'par', 'gas', 'cattol', 'hetg')


def loccols(s):
    pre = s.get('pre') or ('detfp' if s['t'] == 'arcfp' else 'circ')
    return [pre + ('_phi' if s['t'] == 'arccirc' else '_x'), pre + '_y']


def pixcols(s):
    pre = s.get('pre') or ('detfp' if s['t'] == 'arcfp' else 'circ')
    return [pre + 'pix_x', pre + 'pix_y']


def outcols(s):
    t = s['t']
    if t == 'proj' and s.get('cols'):
        return tuple(s['cols'])
    if t in ('arcfp', 'arccirc'):
        return tuple(loccols(s) + pixcols(s))
    if t == 'proj' and s.get('name'):
        return (s['name'] + '_x', s['name'] + '_y')
    if t in OUT:
        return OUT[t]
    if t in ('seq', 'stack'):
        o = ('y', 'z', s['idcol']) if s.get('idcol') else ('y', 'z') if t == 'stack' else ()
        for x in s['l_stages' if t == 'seq' else 'l_layers']:
            o += tuple(outcols(x))
        return o
    if t in ('det', 'detstack', 'detredist', 'detbare'):
        o = ('det_x', 'det_y', 'detpix_x', 'detpix_y')
        if t == 'det' and s.get('second'):
            o = ('det2_x', 'det2_y', 'det2pix_x', 'det2pix_y')
        if t == 'detstack':
            o += ('y', 'z')
        if t == 'detredist':
            o += ('y', 'z', 'energy_detected')
        if s.get('idcol'):
            o += (s['idcol'],)
        return o
    if t in ('detpar', 'lynxdet'):
        return ('det_x', 'det_y', 'detpix_x', 'detpix_y', 'CCD_ID')
    if t == 'acis':
        return ('det_x', 'det_y', 'chipx', 'chipy', 'tdetx', 'tdety', 'detx', 'dety', 'x', 'y', 'CCD_ID')
    if t == 'detcirc':
        return ('det_phi', 'det_y', 'detpix_x', 'detpix_y', 'phi', 'z')
    o = ('grat_y', 'grat_z', 'order', 'blaze')
    if t in ('flatgrat', 'catgrat', 'npcat') and s.get('name'):
        o = ('grat_y', 'grat_z', s['name'], 'blaze')
    if t in ('catstack', 'lynxgas'):
        o = ('grat_y', 'grat_z', 'order', 'blaze', 'order_L1', 'blaze_L1', 'L2Diffraction', 'y', 'z')
    if t in ('par',):
        o += (s.get('idcol') or 'element',)
    if t in ('gas', 'hetg', 'lynxgas'):
        o += ('facet', 'element')
    return o


def changes(s):
    if s['t'] in ('seq', 'stack'):
        o = ()
        for x in s['l_stages' if s['t'] == 'seq' else 'l_layers']:
            o += tuple(changes(x))
        return o
    return CHANGES.get(s['t'], CORE)


def order_total(o):
    if o['k'] == 'list':
        return 1.
    return float(np.sum(o['p']))


def leaves(el):
    """Elements of an assembly, or of an assembly of assemblies."""
    out = []
    for e in el.elements:
        out += leaves(e) if getattr(e, 'elements', None) is not None and hasattr(e, 'elem_pos') else [e]
    return out


class Model:
    """Predicts hits, and the probability factor, of one stage from the state before."""

    def __init__(self, el, s, before):
        self.el, self.s, self.b = el, s, before
        self.n = before.n
        self.hit = None       # mask, or None if not a geometric element
        self.amb = np.zeros(self.n, bool)
        self.which = None
        t = s['t']
        if t in FLAT:
            self.hit, self.amb, self.pt, self.y, self.z = plane_model(el.pos4d, before['pos'], before['dir'])
        elif t == 'detcirc':
            self.hit, self.amb, self.pt, self.y, self.z = cylinder_model(
                el.pos4d, [-s['lim'], s['lim']], before['pos'], before['dir'])
        elif t in ASSEMBLY:
            self.assembly()
        elif t == 'arccirc':
            self.hit, self.amb, self.pt, self.y, self.z = cylinder_model(el.pos4d, [-s.get('lim', np.pi), s.get('lim', np.pi)], before['pos'], before['dir'])
        elif t == 'arcscat':   # goes by the mirror module that the photon came through, not by position
            from sim import arcus
            off = arcus.OFFSET[s['chan']]
            self.hit = (before['xou'] >= off) & (before['xou'] < off + 1000)
            self.pt = h3(before['pos'])
            P = np.asarray(el.pos4d)
            self.y, self.z = [(self.pt - P[:3, 3]) @ P[:3, k] / np.linalg.norm(P[:3, k]) for k in (1, 2)]
        elif t == 'boom':
            from sim import bench
            self.hit, self.amb = bench.boom_model(s, np.asarray(el.pos4d), before['pos'], before['dir'])

    def assembly(self):
        b = self.b
        n = self.n
        self.hit = np.zeros(n, bool)
        self.amb = np.zeros(n, bool)
        self.which = np.full(n, -1)
        self.count = np.zeros(n, int)
        self.pt = np.full((n, 3), np.nan)
        self.y = np.full(n, np.nan)
        self.z = np.full(n, np.nan)
        for e in leaves(self.el):
            h, a, pt, y, z = plane_model(e.pos4d, b['pos'], b['dir'])
            self.amb |= a
            self.count += h
            self.which[h] = e.id_num
            self.pt[h], self.y[h], self.z[h] = pt[h], y[h], z[h]
            self.hit |= h
        self.amb |= self.count > 1

    def factor(self):
        """(factor per photon, known) - the product of what the element is specified to do."""
        s, b, t = self.s, self.b, self.s['t']
        one = np.ones(self.n)
        e = b['energy']
        if t in ('prop', 'proj', 'tag', 'det', 'det45', 'detbare', 'detpar', 'acis', 'lynxdet', 'lynxmirror', 'detcirc', 'thin', 'stackgauss', 'radscatter', 'gaussscatter', 'l2diff',
                 'arcscat', 'arccirc', 'arccam', 'arcfp'):
            return one, True
        if t == 'axscale':
            return np.full(self.n, .61), True
        if t == 'arcmount':
            return np.where(b['xou'] < 0, 0., 1.), True
        if t == 'arcfilt':
            from sim import arcus
            return arcus.filter_value(s['f'], s['arcus']['p'], e), True
        if t == 'arcxou':
            return self.spo_factor(e), True
        if t in ('lynxeff', 'lynxqe'):
            return self.lynx_factor(t, e), True
        if t == 'gfilter':
            return lib.filter_value(s['filter'], e), True
        if t in ('efilter', 'detstack', 'detredist', 'stackrad'):
            return np.where(self.hit, lib.filter_value(s['filter'], e), 1.), True
        if t == 'perfect':
            if 'refl' in s:
                return one, None
            return one, True
        if t == 'hrma':
            return np.where(self.hit, .66, 1.), True
        if t == 'baffle':
            return np.where(self.hit, 1., 0.), True
        if t in ('flatgrat', 'catgrat', 'npcat', 'par', 'gas'):
            return np.where(self.hit, order_total(s['orders']), 1.), True
        if t == 'hetg':
            return one, True
        if t == 'brewster':   # only the part of the polarisation perpendicular to the plane of incidence is reflected
            ex = np.asarray(self.el.pos4d)[:3, 0]
            vs = np.cross(h3(b['dir']), ex / np.linalg.norm(ex))
            vs = vs / np.linalg.norm(vs, axis=1)[:, None]
            f = np.einsum('ij,ij->i', h3(b['polarization']), vs)**2
            return np.where(self.hit, np.clip(f, 0, 1), 1.), True
        if t == 'seq':
            return self.seq_factor()
        if t == 'boom':
            return np.where(self.hit, 0., 1.), True
        if t == 'stack':
            f = one
            for x in s['l_layers']:
                m = Model.__new__(Model)
                m.el, m.s, m.b, m.n, m.hit = self.el, x, b, self.n, self.hit
                g, ok = m.factor()
                if not ok:
                    return one, None
                f = f * g
            return f, True
        return one, None

    def lynx_factor(self, t, e):
        from marxs.missions.lynx import lynx
        if t == 'lynxqe':
            tab = lynx.filterdata
            return np.interp(e, np.asarray(tab['energy']) / 1000., np.asarray(tab['Total_throughput']))
        geom, eff = lynx.conf['metashellgeometry'], lynx.conf['metashelleff']
        f = np.ones(self.n)
        # the shell is the one the photon actually goes through, whatever number it carries
        r = self.b.aper_r
        for row in geom:
            area = np.pi * (row['r_outer']**2 - row['r_inner']**2)
            w = (r >= row['r_inner']) & (r <= row['r_outer'])
            f[w] = np.clip(np.interp(e[w], eff['energy'], np.asarray(eff[str(row['Metashell Serial Number'])]) * 100 / area), 0, 1)
        return f

    def spo_factor(self, e):
        """Two reflections, each under a quarter of the angle by which the photon is bent towards the focal point."""
        from sim import arcus
        f = np.ones(self.n)
        d = h3(self.b['dir'])
        for x in leaves(self.el):
            w = self.hit & (self.which == x.id_num)
            if not w.any():
                continue
            P = np.asarray(x.pos4d)
            r = arcus.petal(self.s['arcus']['p'])[x.id_num - arcus.OFFSET[self.s['chan']]]
            opt = P[:3, 3] - (r[0] + r[1]) / 2 * P[:3, 2] / np.linalg.norm(P[:3, 2])
            to = opt + 12000. * d[w] - self.pt[w]
            cos = np.einsum('ij,ij->i', to, d[w]) / np.linalg.norm(to, axis=1)
            f[w] = arcus.reflectivity(e[w], np.arccos(np.clip(np.abs(cos), 0, 1)) / 4)**2
        return f

    def seq_factor(self):
        pos = np.array(self.b['pos'])
        f = np.ones(self.n)
        st = Snap.__new__(Snap)
        st.d = dict(self.b.d)
        st.names, st.n, st.meta = self.b.names, self.n, {}
        st.d['pos'] = pos
        for x, el in zip(self.s['l_stages'], self.el.elements):
            m = Model(el, x, st)
            g, ok = m.factor()
            f = f * g
            self.amb |= m.amb
            if x['t'] == 'prop':
                st.d['pos'] = st.d['pos'] + x['dist'] * st.d['dir']
            elif m.hit is not None:
                p = np.array(st.d['pos'])
                p[m.hit, :3] = m.pt[m.hit]
                st.d['pos'] = p
        self.endpos = st.d['pos']
        return f, True


class Watch:
    def __init__(self, obs, what, prog):
        self.obs = obs
        self.what = what
        self.prog = prog
        self.b = None
        self.aper_r = None   # distance from the optical axis in the aperture

    def before(self, name, el, s, photons):
        self.b = Snap(photons)
        self.b.aper_r = self.aper_r
        self.fired0 = len(self.prog.cb.fired)

    def after(self, name, el, s, out):
        a = Snap(out)
        b = self.b
        obs = self.obs
        for c in b.names:
            if c not in a:
                raise Violation('column-lost', f'{name}: column {c} disappeared')
        if a.n != b.n:
            raise Violation('photon-count', f'{name}: {b.n} photons in, {a.n} out')
        for c in b.names:
            if a[c].shape != b[c].shape:
                raise Violation('column-shape', f'{name}: column {c} changed shape {b[c].shape} -> {a[c].shape}')
        if name == 'aperture':
            self.aper_r = np.hypot(a['pos'][:, 1], a['pos'][:, 2])
        m = None
        if s is not None and name not in ('aperture', 'pointing'):
            m = Model(el, s, b)
            if m.hit is not None:
                obs.state(name.split(':')[-1], bool(m.hit.any()), bool((~m.hit).any()), s.get('idcol'))
                obs.count('photon-hits', int(m.hit.sum()))
                obs.count('photon-misses', int((~m.hit).sum()))
                if m.hit.any() and (~m.hit).any():
                    obs.nontrivial = True
        obs.count('stages')
        if 'C03' in self.what:
            self.c03(name, el, s, b, a, m)
        if 'C04' in self.what and m is not None:
            self.c04(name, el, s, b, a, m, out)
        if 'C05' in self.what:
            self.c05(name, el, s, b, a, m)

    # ------------------------------------------------------------ bookkeeping and probability
    def c03(self, name, el, s, b, a, m):
        if name == 'pointing':
            may = {'dir', 'polarization'}
        elif name == 'aperture':
            may = {'pos', 'probability', 'y', 'z', 'aperture', 'xpos', 'ypos', 'mirror_shell', 'shell'}
        else:
            may = set(changes(s)) | set(outcols(s))
        for c in b.names:
            if c in may:
                continue
            if not lib.same_array(a[c], b[c]):
                k = int(np.nonzero([not lib.same_array(x, y) for x, y in zip(a[c], b[c])])[0][0])
                raise Violation('untouched-column-changed', f'{name}: column {c}, photon {k}: {b[c][k]!r} -> {a[c][k]!r}',
                                key=f'untouched-column-changed:{name.split(":")[-1]}:{c}')
        pa, pb = a['probability'], b['probability']
        if not (np.isfinite(pa).all() and (pa >= 0).all() and (pa <= 1).all()):
            k = int(np.nonzero(~((pa >= 0) & (pa <= 1)))[0][0])
            raise Violation('probability-range', f'{name}: photon {k} has probability {pa[k]!r} (was {pb[k]!r})')
        if (pa > pb).any():
            k = int(np.nonzero(pa > pb)[0][0])
            raise Violation('probability-increased', f'{name}: photon {k}: {pb[k]!r} -> {pa[k]!r}')
        if name == 'pointing':
            f, ok = np.ones(a.n), True
            amb = np.zeros(a.n, bool)
        elif name == 'aperture':
            f, ok, amb = self.aperture_factor(el, a)
        else:
            f, ok = m.factor()
            amb = m.amb
        if ok:
            want = pb * f
            bad = ~np.isclose(pa, want, rtol=1e-9, atol=1e-14) & ~amb
            if bad.any():
                k = int(np.nonzero(bad)[0][0])
                raise Violation('probability-product', f'{name}: photon {k}: {pb[k]!r} times factor {f[k]!r} gave {pa[k]!r}')
            self.obs.count('factors-checked', int((~amb).sum()))
        # header keywords of the user and of earlier stages survive (tags may overwrite theirs)
        for k, v in b.meta.items():
            if k not in a.meta:
                raise Violation('header-lost', f'{name}: header keyword {k} disappeared')
            if k in ('USERKEY', 'EXPOSURE', 'MARXSVER', 'SIMDATE', 'SIMTIME') and a.meta[k] != v and not (s or {}).get('t') == 'tag':
                raise Violation('header-changed', f'{name}: header keyword {k}: {v} -> {a.meta[k]}')

    def aperture_factor(self, el, a):
        els = [el] if not getattr(el, 'elements', None) else list(el.elements)
        if len(els) == 1:
            which = np.zeros(a.n, int)
        else:
            which = np.asarray(a[el.id_col]) - getattr(el, 'id_num_offset', 0) if el.id_col in a else np.zeros(a.n, int)
        f = np.ones(a.n)
        for i, e in enumerate(els):
            ex = np.asarray(e.pos4d)[:3, 0]
            ex = ex / np.linalg.norm(ex)
            w = which == i
            f[w] = np.clip(-(h3(a['dir'])[w] @ ex), 0, 1)
        return f, True, np.zeros(a.n, bool)

    # ------------------------------------------------------------ masks
    def c04(self, name, el, s, b, a, m, out):
        t = s['t']
        if t in ('tag', 'proj', 'supportbars', 'gfilter', 'lynxeff', 'lynxqe', 'prop', 'seq', 'arcmount', 'arcfilt', 'axscale'):
            return
        sure = ~m.amb
        if t == 'boom':
            if a.n and ('hitrod' not in a or not (a['hitrod'][sure] == m.hit[sure]).all()):
                k = int(np.nonzero(sure & (a['hitrod'] != m.hit))[0][0]) if 'hitrod' in a else 0
                raise Violation('wrong-identifier', f'{name}: photon {k}: {"hits" if m.hit[k] else "misses"} the rods, but is marked otherwise')
            return
        miss = ~m.hit & sure
        hit = m.hit & sure
        dark = t == 'baffle' or t == 'stack' and any(x['t'] == 'baffle' for x in s['l_layers'])
        cols = ['pos', 'dir', 'polarization', 'energy'] + ([] if dark else ['probability'])
        for c in cols:
            x, y = a[c][miss], b[c][miss]
            if not lib.same_array(x, y):
                raise Violation('missed-photon-changed', f'{name}: column {c} of a photon that misses the element changed',
                                key=f'missed-photon-changed:{t}:{c}')
        new = [c for c in a.names if c not in b]
        for c in outcols(s):
            if c not in a or c in CORE:
                continue
            arr = a[c]
            if c in b:
                if not lib.same_array(arr[miss], b[c][miss]):
                    raise Violation('missed-photon-output', f'{name}: output {c} of a photon that misses the element was overwritten')
            elif c in new and miss.any():
                ok = np.isnan(arr[miss]).all() if arr.dtype.kind == 'f' else (arr[miss] == -1).all()
                if not ok:
                    raise Violation('missed-photon-output', f'{name}: output {c} of photons that miss the element is {arr[miss][:5]}')
            if hit.any() and c in (new if not dark else ()):
                if arr.dtype.kind == 'f' and c not in ('element', 'facet') and not np.isfinite(arr[hit]).all():
                    raise Violation('hit-photon-output', f'{name}: output {c} of a photon that hits the element is not finite')
        if t != 'baffle' and hit.any():
            for c in self.localcols(el, s):
                if c not in a:
                    raise Violation('missing-output', f'{name}: no output column {c} although photons hit the element')
                if not np.isfinite(a[c][hit]).all():
                    raise Violation('hit-photon-output', f'{name}: local coordinate {c} of a hit photon is not finite')
        # identifiers
        idc, ids = self.ids(el, s, m)
        if idc is not None and hit.any():
            if idc not in a:
                raise Violation('missing-output', f'{name}: identifier column {idc} missing')
            if not (a[idc][hit] == ids[hit]).all():
                k = int(np.nonzero(hit & (a[idc] != ids))[0][0])
                raise Violation('wrong-identifier', f'{name}: photon {k} hits element {ids[k]} but carries {a[idc][k]}')
        if t in ASSEMBLY and hit.any():
            self.single(name, el, s, b, a, m, out, idc, hit)

    def localcols(self, el, s):
        t = s['t']
        if t in ('stackrad', 'stackgauss', 'hrma', 'lynxmirror', 'arcxou'):
            return ['mirror_x', 'mirror_y']
        if t in ('detstack', 'detredist', 'detpar', 'acis', 'lynxdet', 'arccam'):
            return ['det_x', 'det_y']
        if t in ('par', 'gas', 'catstack', 'hetg', 'lynxgas', 'arccat'):
            return ['grat_y', 'grat_z']
        if t in ('radscatter', 'gaussscatter', 'baffle', 'l2abs', 'l2diff', 'quality', 'stack', 'boom'):
            return []
        if t in ('arcfp', 'arccirc'):
            return loccols(s)
        if t == 'arcscat':
            return ['scat_y', 'scat_z']
        return list(el.loc_coos_name)

    def ids(self, el, s, m):
        t = s['t']
        if t == 'par':
            return s.get('idcol') or 'element', m.which
        if t in ('detpar', 'acis', 'lynxdet'):
            return 'CCD_ID', m.which
        if t in ('lynxgas', 'arccat'):
            return 'facet', m.which
        if t == 'arcxou':
            return 'xou', m.which
        if t == 'arccam':
            return 'CCD', m.which
        if t in ('gas', 'hetg'):
            return ('facet', m.which) if getattr(el, 'id_col', None) == 'facet' else (None, None)
        if s.get('idcol'):
            return s['idcol'], np.full(m.n, 7)
        return None, None

    def single(self, name, el, s, b, a, m, out, idc, hit):
        """Running just the listed element on the photons that carry its identifier reproduces their outcome."""
        import astropy.table as at
        t = s['t']
        det = t in ('detpar', 'acis', 'lynxdet', 'arccam', 'arcxou') or (t in ('par', 'gas') and s['orders']['k'] in ('list', 'p') and len(s['orders']['o']) == 1)
        if not det or s.get('unc') is not None:
            return
        st = np.random.get_state()
        try:
            for e in el.elements:
                w = hit & (m.which == e.id_num)
                if not w.any():
                    continue
                tab = at.Table({c: b[c][w] for c in b.names}, meta=b.usermeta)
                res = e(tab)
                for c in list(CORE) + [c for c in outcols(s) if c in a]:
                    if c not in res.colnames:
                        raise Violation('missing-output', f'{name}: element {e.id_num} alone does not produce {c}')
                    x, y = np.asarray(res[c]), a[c][w]
                    if not np.allclose(x, y, rtol=1e-9, atol=1e-9, equal_nan=True):
                        raise Violation('assembly-vs-element', f'{name}: column {c} of photons with identifier {e.id_num} differs from '
                                        'what the element alone gives')
                self.obs.count('elements-run-alone')
        finally:
            np.random.set_state(st)

    # ------------------------------------------------------------ rays
    def c05(self, name, el, s, b, a, m):
        t = s['t'] if s is not None and m is not None else name
        if 'pos' in a:
            p = a['pos']
            if not np.isfinite(p).all():
                k = int(np.nonzero(~np.isfinite(p).all(axis=1))[0][0])
                raise Violation('position', f'{name}: photon {k} has position {p[k]}')
            if not (p[:, 3] == 1).all() and not np.allclose(p[:, 3], 1, rtol=0, atol=1e-12):
                raise Violation('position', f'{name}: position is not a homogeneous point: {p[p[:, 3] != 1][0]}')
        if 'dir' in a:
            d = a['dir']
            if not np.isfinite(d).all():
                k = int(np.nonzero(~np.isfinite(d).all(axis=1))[0][0])
                raise Violation('direction', f'{name}: photon {k} has direction {d[k]}',
                                key=f'direction:nan:{t}')
            if not np.allclose(d[:, 3], 0, rtol=0, atol=1e-12):
                raise Violation('direction', f'{name}: direction is not a homogeneous vector: {d[np.abs(d[:, 3]) > 0][0]}')
            ln = np.linalg.norm(d, axis=1)
            if not (ln > 1e-9).all():
                raise Violation('direction', f'{name}: direction of length 0')
            if 'dir' in b and name != 'pointing':
                lb = np.linalg.norm(b['dir'], axis=1)
                unit = np.isclose(lb, 1, rtol=0, atol=1e-9)
                if unit.any() and not np.allclose(ln[unit], 1, rtol=0, atol=1e-8):
                    k = int(np.nonzero(unit & ~np.isclose(ln, 1, rtol=0, atol=1e-8))[0][0])
                    raise Violation('direction-length', f'{name}: photon {k}: length {lb[k]} -> {ln[k]}')
            elif name == 'pointing' and not np.allclose(ln, 1, rtol=0, atol=1e-9):
                raise Violation('direction-length', f'{name}: directions are not unit vectors')
        if 'polarization' in a:
            q = a['polarization']
            # a mirror that reflects nothing of a photon has no polarization to report for it
            dark = np.isnan(q[:, :3]).all(axis=1) & (a['probability'] == 0) if 'probability' in a else np.zeros(a.n, bool)
            if t not in ('brewster', 'mlmirror'):
                dark &= np.isnan(b['polarization'][:, :3]).all(axis=1) if 'polarization' in b else False
            idx = np.nonzero(~dark)[0]
            q = q[idx]
            if len(idx) and not np.isfinite(q).all():
                raise Violation('polarization', f'{name}: polarization is not finite', key=f'polarization:nan:{t}')
            if len(idx) and (not np.allclose(np.linalg.norm(q[:, :3], axis=1), 1, rtol=0, atol=1e-6) or not np.allclose(q[:, 3], 0, atol=1e-12)):
                k = int(np.argmax(np.abs(np.linalg.norm(q[:, :3], axis=1) - 1)))
                raise Violation('polarization', f'{name}: photon {idx[k]}: polarization {q[k]} is not a unit vector')
            dd = h3(a['dir'][idx]) / np.linalg.norm(h3(a['dir'][idx]), axis=1)[:, None]
            dot = np.einsum('ij,ij->i', dd, q[:, :3])
            if not (np.abs(dot) < 1e-6).all():
                k = int(np.argmax(np.abs(dot)))
                raise Violation('polarization', f'{name}: photon {idx[k]}: polarization not perpendicular to the ray (cos = {dot[k]})')
        if m is None:
            return
        if t == 'boom':
            return
        if t == 'prop':
            if not np.allclose(a['pos'], b['pos'] + s['dist'] * b['dir'], rtol=1e-12, atol=1e-9):
                raise Violation('off-ray', f'{name}: propagated position is wrong')
            return
        if m.hit is None:
            if t == 'seq':
                m.factor()
                ok = ~m.amb
                if not np.allclose(a['pos'][ok], m.endpos[ok], rtol=1e-9, atol=1e-6):
                    raise Violation('off-ray', f'{name}: position after the sequence is not the last intersection point')
            elif not lib.same_array(a['pos'], b['pos']) or not lib.same_array(a['dir'], b['dir']):
                raise Violation('ray-changed', f'{name}: element without geometry changed rays')
            return
        hit = m.hit & ~m.amb
        if not hit.any():
            return
        p = h3(a['pos'])[hit]
        # on the previous ray, at the intersection with the element
        if not np.allclose(p, m.pt[hit], rtol=1e-9, atol=1e-5):
            k = int(np.nonzero(hit)[0][np.argmax(np.abs(p - m.pt[hit]).max(axis=1))])
            raise Violation('not-on-element', f'{name}: photon {k} is at {a["pos"][k]} but its ray meets the element at {m.pt[k]}')
        lc = self.localcols(el, s)
        if t not in ('baffle',) and lc and lc[0] in a:
            y, z = a[lc[0]][hit], a[lc[1]][hit]
            if t in ('detcirc', 'arccirc'):
                y = np.mod(y - m.y[hit] + np.pi, 2 * np.pi) - np.pi + m.y[hit]
            # (a module may be tilted out of the plane of the scatter)
            atol = .3 if t == 'arcscat' else 1e-5
            if not (np.allclose(y, m.y[hit], rtol=1e-7, atol=atol) and np.allclose(z, m.z[hit], rtol=1e-7, atol=atol)):
                k = int(np.nonzero(hit)[0][np.argmax(np.nan_to_num(np.abs(y - m.y[hit]) + np.abs(z - m.z[hit]), nan=np.inf))])
                raise Violation('local-coordinates', f'{name}: photon {k}: reported local coordinates ({a[lc[0]][k]}, {a[lc[1]][k]}) '
                                f'but it hits at ({m.y[k]}, {m.z[k]})')
        if t in ('det', 'det45', 'detbare', 'detstack', 'detredist', 'detpar', 'detcirc', 'acis', 'lynxdet', 'arccam', 'arcfp', 'arccirc') and s.get('unc') is None:
            self.pixels(name, el, s, a, m, hit)
        self.obs.count('surface-hits-checked', int(hit.sum()))

    def pixels(self, name, el, s, a, m, hit):
        """Pixels are squares of the size asked for, counted from the center of the corner pixel."""
        t = s['t']
        cols = ['det2pix_x', 'det2pix_y'] if t == 'det' and s.get('second') else ['chipx', 'chipy'] if t == 'acis' else \
            pixcols(s) if t in ('arcfp', 'arccirc') else ['detpix_x', 'detpix_y']
        pix = 1. if t == 'detbare' else .016 if t == 'lynxdet' and 'pix' not in s else .1 if t == 'detpar' else .024 if t in ('acis', 'arccam') else s.get('pix', 1.)
        if t in ('detcirc', 'arccirc'):
            r = np.linalg.norm(np.asarray(el.pos4d)[:3, 0])
            half, loc = (None, None), (((m.y + np.pi) % (2 * np.pi) - np.pi) * r, m.z)
        else:
            size = {e.id_num: [np.linalg.norm(np.asarray(e.pos4d)[:3, k]) for k in (1, 2)] for e in (el.elements if t in ASSEMBLY else [el])}
            which = m.which[hit] if t in ASSEMBLY else np.full(hit.sum(), el.id_num)
            half, loc = [np.array([size[w][k] for w in which]) for k in (0, 1)], (m.y, m.z)
        for c, h, x in zip(cols, half, loc):
            if c not in a:
                raise Violation('missing-output', f'{name}: no output column {c} although photons hit the detector')
            x, got = x[hit], a[c][hit]
            want, tol = x / pix, 1e-6 + 1e-6 / pix
            if h is not None:
                frac = np.abs(2 * h / pix - np.round(2 * h / pix))
                want = want + h / pix - .5 + (t == 'acis')
                tol = tol + frac / 2 + 1e-6
            elif c.endswith('_x'):
                got = want + (got - want + np.pi * r / pix) % (2 * np.pi * r / pix) - np.pi * r / pix
            bad = ~(np.abs(got - want) <= tol)
            if bad.any():
                k = int(np.nonzero(hit)[0][np.argmax(np.nan_to_num(np.abs(got - want), nan=np.inf))])
                raise Violation('pixel', f'{name}: photon {k} falls on ({m.y[k]}, {m.z[k]}), {c} is {a[c][k]} instead of {want[np.nonzero(hit)[0] == k][0]}')
        self.obs.count('pixels-checked', int(hit.sum()))


class SourceWatch:
    pass
