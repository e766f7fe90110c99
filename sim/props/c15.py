"""C15: response files on a faulty disk."""
import os
import numpy as np
import astropy.units as u
from astropy.io import fits
from astropy.table import Table, QTable
from scipy.stats import norm
from sim import world
from sim.core import Violation

ID = 'C15'
TECHNIQUE = ('deterministic simulation of writing, reading, rewriting and restarting with response matrices and effective areas on a fault-injecting disk '
             '(errors, full disk, torn writes, truncation, crashes); all views against the dense matrix that went in, files against an independent decoder')
RULE = 'a disk fault fired or the response has empty rows, several groups or a channel numbering not starting at 1; distinct = distinct event log'
STATE_MEASURE = 'hash of (kind of response, channels, numbering, table class, groups per row, outcomes of the writes)'
ASSUMPTIONS = ['matrix elements are stored in single precision (1e-6)', 'damage means truncation, torn, partial or failed writes; bit errors in the medium are not injected',
               'line spread functions are Gaussian with a width linear in wavelength, so that the interpolation in the tables is exact']
REAL = ['marxs.reduction.ogip (RMF, ARF)', 'marxs.reduction.lsfparm.make_rmf', 'sherpa models', 'astropy.table', 'astropy.io.fits']
STUB = ['disk (fault injecting, in scratch directory)', 'process crash', 'contents of the responses']
N = {'quick': 2000, 'thorough': 40000}
TIMEOUT = 150
KW = {'TELESCOP': 'sim', 'INSTRUME': 'none', 'FILTER': 'none'}


def gen(rng, i, tier):
    kind = 'gauss' if i % 12 == 5 else 'lsf' if i % 12 == 9 else 'ccd' if i % 24 == 7 else rng.choice(['rmf', 'rmf', 'rmf', 'vla', 'arf'])
    plan = {'kind': kind, 'n_rows': rng.choice([1, 2, 3, 5, 12]), 'n_chan': rng.choice([1, 2, 3, 8, 30]), 'rseed': rng.randrange(2**31),
            'shape': rng.choice(['gauss', 'gaps', 'gaps', 'single', 'same', 'edges', 'full', 'allempty']), 'empty': rng.choice([0, 0, .3]),
            'tlmin': rng.choice([0, 1, 1, 2, 100, 32760, 40000]), 'thr': rng.choice([1e-6, 1e-6, 1e-3, 0]), 'cls': rng.choice(['Table', 'QTable', 'ColOrKeyTable']),
            'unit': rng.choice(['keV', 'eV']), 'pass_tlmin': rng.random() < .3, 'order': rng.choice(['std', 'std', 'back']),
            'area': rng.choice(['rand', 'const', 'zero', 'nan']), 'miss': rng.choice([None, None, None, 'TELESCOP', 'FILTER', 'SPECRESP']),
            'sig': rng.choice([[.02, 0], [.1, 0], [.05, .01], [.3, 0]]), 'sigby': rng.choice(['wave', 'energy', 'nm']), 'edges': rng.choice(['wave', 'energy']),
            'l_steps': []}
    plan['old_tlmin'] = rng.choice(['same', 'none', 'noeb', 'wrong', 'wrongeb'])
    plan['made'] = rng.random() < .5
    plan['widths'] = rng.choice([1, 1, 2, 4])
    if kind == 'gauss':
        plan['n_chan'] = rng.choice([5, 12, 25])
    for _ in range(rng.randint(1, 5)):
        k = rng.choice(['write', 'write', 'write', 'truncate', 'reread', 'noover'])
        st = {'k': k}
        if k == 'write':
            r = rng.random()
            if r < .4:
                st['f'] = None
            elif r < .5:
                st['f'] = {'quota': rng.choice([10, 2880, 3000, 6000, 9000])}
            else:
                op = rng.choice(['write', 'write', 'open', 'close', 'remove', '*'])
                st['f'] = {'op': op, 'n': rng.randrange({'write': 4, 'open': 2, 'close': 2, 'remove': 2, '*': 8}[op]),
                           'kind': rng.choice(['EIO', 'ENOSPC', 'torn', 'crash', 'EACCES']), 'frac': rng.random()}
        if k == 'truncate':
            st['frac'] = rng.choice([0, rng.random(), rng.random(), 1 - rng.random() / 50, .999])
        plan['l_steps'].append(st)
    return plan


def dense(plan):
    """The response that goes in: one row per energy, one column per channel."""
    r = np.random.RandomState(plan['rseed'])
    n, m = plan['n_rows'], plan['n_chan']
    a = np.zeros((n, m))
    x = np.arange(m)
    for k in range(n):
        s = plan['shape']
        if s == 'gauss':
            a[k] = np.exp(-.5 * ((x - r.uniform(0, m)) / r.uniform(.3, 3))**2)
        elif s == 'gaps':
            a[k] = r.uniform(size=m) * (r.uniform(size=m) < .6)
        elif s == 'single':
            f = r.randint(m)
            a[k, f:f + r.randint(1, m + 1)] = r.uniform(.1, 1)
        elif s == 'same':
            a[k, :max(1, m // 2)] = r.uniform(.1, 1)
        elif s == 'edges':
            a[k, 0] = r.uniform(.1, 1)
            a[k, -1] = r.uniform(.1, 1)
        elif s == 'full':
            a[k] = r.uniform(.1, 1, m)
        if r.uniform() < plan['empty']:
            a[k] = 0
        if a[k].sum() > 0:
            a[k] /= a[k].sum()
    return a


def groups(row, thr):
    on = np.concatenate([[False], row > thr, [False]]).astype(int)
    d = np.diff(on)
    return np.nonzero(d == 1)[0], np.nonzero(d == -1)[0]


def energies(plan):
    return np.linspace(.3, 2., plan['n_rows'] + 1), np.linspace(.25, 2.2, plan['n_chan'] + 1)


def build(plan, a):
    from marxs.reduction.ogip import RMF, ColOrKeyTable
    cls = {'Table': Table, 'QTable': QTable, 'ColOrKeyTable': ColOrKeyTable}[plan['cls']]
    e, c = energies(plan)
    n = plan['n_rows']
    data = {'ENERG_LO': e[:-1] * u.keV, 'ENERG_HI': e[1:] * u.keV, 'N_GRP': np.zeros(n, dtype=np.int16)}
    for k in ('F_CHAN', 'N_CHAN', 'MATRIX'):
        data[k] = np.empty(n, dtype=object)
    for k in range(n):
        out = RMF.arr_to_rmf_matrix_row(a[k], plan['tlmin'], threshold=plan['thr'])
        for i, col in enumerate(['N_GRP', 'F_CHAN', 'N_CHAN', 'MATRIX']):
            data[col][k] = out[i]
    names = list(data)
    if plan['order'] == 'back':
        names = names[::-1]
    m = cls({k: data[k] for k in names})
    eb = RMF.ebounds_from_edges((c * u.keV).to(plan['unit']))
    eb = cls(eb)
    if plan['tlmin']:
        eb.replace_column('CHANNEL', eb.Column((np.asarray(eb['CHANNEL']) + plan['tlmin']).astype(np.int32), name='CHANNEL'))
    m.meta.update(KW)
    eb.meta.update(KW)
    # full_rmf needs the keyword before writing
    m.meta[f"TLMIN{names.index('F_CHAN') + 1}"] = plan['tlmin']
    eb.meta[f"TLMIN{eb.colnames.index('CHANNEL') + 1}"] = plan['tlmin']
    return RMF(m, eb, CHANTYPE='PI', HDUCLAS3='REDIST')


def write_vla(plan, a, path):
    """A file with variable length arrays, as other programs write them."""
    e, c = energies(plan)
    n = plan['n_rows']
    f, nc, mat, ng = [np.empty(n, dtype=object) for _ in range(3)] + [np.zeros(n, dtype=np.int16)]
    for k in range(n):
        s, t = groups(a[k], plan['thr'])
        ng[k] = len(s)
        f[k] = (s + plan['tlmin']).astype(np.int32)
        nc[k] = (t - s).astype(np.int16)
        mat[k] = a[k][a[k] > plan['thr']].astype(np.float32)
    cols = [fits.Column('ENERG_LO', 'E', unit='keV', array=e[:-1]), fits.Column('ENERG_HI', 'E', unit='keV', array=e[1:]),
            fits.Column('N_GRP', 'I', array=ng), fits.Column('F_CHAN', 'PJ()', array=f), fits.Column('N_CHAN', 'PI()', array=nc),
            fits.Column('MATRIX', 'PE()', array=mat)]
    if plan['order'] == 'back':
        cols = cols[::-1]
    h = fits.BinTableHDU.from_columns(cols, name='MATRIX')
    m = plan['n_chan']
    b = fits.BinTableHDU.from_columns([fits.Column('CHANNEL', 'J', array=np.arange(m) + plan['tlmin']), fits.Column('E_MIN', 'D', unit='keV', array=c[:-1]),
                                       fits.Column('E_MAX', 'D', unit='keV', array=c[1:])], name='EBOUNDS')
    for x in (h, b):
        x.header.update({**KW, 'CHANTYPE': 'PI', 'DETCHANS': m})
    h.header[f"TLMIN{[c.name for c in cols].index('F_CHAN') + 1}"] = plan['tlmin']
    b.header['TLMIN1'] = plan['tlmin']
    fits.HDUList([fits.PrimaryHDU(), h, b]).writeto(path)


def make_gauss(plan):
    """RMF made by marxs for a Gaussian line spread function and the matrix it should have."""
    from marxs.reduction.ogip import RMF
    w = np.array([5., 8, 11, 14, 17, 20])
    s0, s1 = plan['sig']
    s = s0 + s1 * w
    wq, sq = w * u.Angstrom, s * u.Angstrom
    if plan['sigby'] == 'energy':
        en = wq.to(u.keV, equivalencies=u.spectral())
        tab = QTable([en, (sq / wq * en).to(u.eV)], names=['energy', 'sigma_energy'])
    elif plan['sigby'] == 'nm':
        tab = Table([wq.to(u.nm), sq], names=['wave', 'sigma_wave'])
    else:
        tab = QTable([wq[::-1], sq[::-1]], names=['wave', 'sigma_wave'])
    keep = [np.array(tab[c]) for c in tab.colnames]
    names = list(tab.colnames)
    edges = np.linspace(6, 19, plan['n_chan'] + 1)
    q = edges * u.Angstrom
    if plan['edges'] == 'energy':
        q = q.to(u.keV, equivalencies=u.spectral())
    thr = plan['thr'] or 1e-6
    rmf = RMF.from_Gauss_sigma(q, tab, threshold=thr, headerkw=dict(KW, SATELLIT='sim'))
    if list(tab.colnames) != names or not all(np.array_equal(np.array(tab[c]), v) for c, v in zip(names, keep)):
        raise Violation('input-changed', 'from_Gauss_sigma changed the table of widths')
    lo, hi = edges[:-1][::-1], edges[1:][::-1]    # increasing energy
    a = np.zeros((len(lo), len(lo)))
    for k in range(len(lo)):
        mid = .5 * (lo[k] + hi[k])
        sg = s0 + s1 * mid
        a[k] = norm.cdf(hi, mid, sg) - norm.cdf(lo, mid, sg)
    hc = 12.398419843320026
    return rmf, a, hc / hi, hc / lo, thr


def at(par, c, x, wd):
    """Amplitude, width and position of a component at a wavelength for an extraction width"""
    v = [a + b * x for a, b in par[c]]
    k = int(c[-1]) * (wd - 1)
    return [v[0] * (1 + .1 * k), v[1] * (1 + .05 * k), v[2] + .002 * k]


def fraction(ee, x, wd):
    return (ee[0] + ee[1] * x) * (1 + .02 * (wd - 1))


def made_table(comps, par, ee, w, widths):
    """The same table made with the functions for this purpose, through a file"""
    from marxs.reduction import lsfparm
    from sherpa.astro.models import Lorentz1D
    from sherpa.models import NormGauss1D, Gauss1D
    fwhm = np.sqrt(8 * np.log(2))

    def model(x, wd):
        out = []
        for c in comps:
            m = (NormGauss1D if c[0] == 'G' else Lorentz1D)(name=c)
            v = at(par, c, x, wd)
            m.ampl, m.fwhm, m.pos = v[0], v[1] * (fwhm if c[0] == 'G' else 1), v[2]
            out.append(m)
        return sum(out[1:], out[0])
    first = model(w[0], widths[0])
    tab = lsfparm.empty_lsfparmtable(widths, w, first, 'SIM', -1)
    want = {'NUM_WIDTHS', 'WIDTHS', 'NUM_LAMBDAS', 'LAMBDAS', 'EE_FRACS', *[c + '_PARMS' for c in comps]}
    if not want <= set(tab.colnames) or tab['NUM_LAMBDAS'][0] != len(w) or tab['NUM_WIDTHS'][0] != len(widths) or not np.array_equal(tab['WIDTHS'][0], widths) or not np.array_equal(tab['LAMBDAS'][0], w) or tab['LAMBDAS'].unit != u.Angstrom:
        raise Violation('lsf-table', f'empty_lsfparmtable for {comps} has columns {tab.colnames}')
    for j, i in np.ndindex(len(widths), len(w)):
        x = w[i]
        d = lsfparm.sherpa2caldb(model(x, widths[j]))
        if set(d) != set(comps):
            raise Violation('lsf-components', f'sherpa2caldb gives {sorted(d)} for the components {comps}')
        for c in comps:
            v = at(par, c, x, widths[j])
            if not np.allclose(d[c], v, rtol=1e-9):
                raise Violation('lsf-parameters', f'sherpa2caldb: {c} has {np.asarray(d[c]).tolist()}, expected {v} (amplitude, width, position)')
            tab[c + '_PARMS'][0, j, i] = d[c]
        tab['EE_FRACS'][0, j, i] = fraction(ee, x, widths[j])
    # models that cannot be stored
    bad = [first + Gauss1D(name='GAUSS9')]
    if len(comps) > 1:
        a, b = NormGauss1D(name='GAUSS1'), NormGauss1D(name='GAUSS1')
        bad.append(a + b)
    for k, m in enumerate(bad):
        try:
            lsfparm.empty_lsfparmtable(np.array([1.]), w, m, 'SIM', -1)
        except ValueError:
            continue
        raise Violation('lsf-accepted', f"empty_lsfparmtable accepts a model with {['a component that has no place in such a file', 'two components of the same name'][k]}")
    path = os.path.join(world.current().scratch(), 'lsf.fits')
    tab.meta.update(KW)
    tab.write(path, format='fits')
    tab = Table.read(path, format='fits', hdu=1)
    # and back
    for j, i in {(0, 0), (len(widths) - 1, 2), (0, len(w) - 1)}:
        x, wd = w[i], widths[j]
        m = lsfparm.caldb2sherpa(tab, 0, j, i)
        tot = sum(at(par, c, x, wd)[0] for c in comps)
        edges = x + np.linspace(-1, 1.1, 9)
        exp = sum(mixture(par, c, x, wd, edges[:-1], edges[1:]) for c in comps) * fraction(ee, x, wd) / tot
        got = m(edges[:-1], edges[1:])
        if not np.allclose(got, exp, rtol=2e-3, atol=1e-6):
            raise Violation('lsf-model', f'caldb2sherpa at {x} Angstrom: {got.tolist()}, expected {exp.tolist()}'[:400])
        flat = [c.name for c in lsfparm.flatten_sherpa_model(m)]
        if sorted(flat) != sorted(['EE_FRACS'] + [c + '_PARMS' for c in comps]):
            raise Violation('lsf-components', f'caldb2sherpa and flatten_sherpa_model give the components {flat} for {comps}')
    return tab


def mixture(par, c, x, wd, lo, hi):
    """One component (not normalised) in bins"""
    amp, wid, pos = at(par, c, x, wd)
    if c[0] == 'G':
        return amp * (norm.cdf(hi, pos, wid) - norm.cdf(lo, pos, wid))
    return amp / np.pi * (np.arctan((hi - pos) / (wid / 2)) - np.arctan((lo - pos) / (wid / 2)))


def make_lsf(plan):
    """RMF for a line spread function of several components, whose parameters change with wavelength."""
    from marxs.reduction import lsfparm
    g = np.random.Generator(np.random.PCG64(plan['rseed']))
    w = np.array([5., 8, 11, 14, 17, 20])
    comps = ['GAUSS1', 'GAUSS2', 'LORENTZ1', 'GAUSS3'][:int(g.integers(1, 5))]
    # Parameters are linear in wavelength, so any sensible interpolation is exact.
    par = {c: [(g.uniform(.3, 1.), g.uniform(0, .02)), (g.uniform(.02, .2), g.uniform(0, .01)), (g.uniform(0, .05), 1.)] for c in comps}
    ee = (g.uniform(.5, .8), g.uniform(0, .01))
    widths = np.array([[1.], [1., 3.], [.5, 1, 2, 3]][[1, 2, 4].index(plan.get('widths', 1))])
    wd = float(widths[0] if len(widths) == 1 else g.choice([1, 1.3, 2.8]))
    tab = Table({'NUM_WIDTHS': [len(widths)], 'WIDTHS': [widths], 'NUM_LAMBDAS': [len(w)], 'LAMBDAS': [w],
                 'EE_FRACS': [[[fraction(ee, x, y) for x in w] for y in widths]]})
    tab['LAMBDAS'].unit = u.Angstrom
    for c in comps:
        tab[c + '_PARMS'] = [[[at(par, c, x, y) for x in w] for y in widths]]
    if plan.get('made'):
        tab = made_table(comps, par, ee, w, widths)
    tab.meta.update(KW, ORDER=-1)
    before = [np.array(tab[c]) for c in tab.colnames], dict(tab.meta)
    edges = np.linspace(6, 19, plan['n_chan'] + 1)
    q = edges * u.Angstrom
    if plan['edges'] == 'energy':
        q = q.to(u.keV, equivalencies=u.spectral())[::-1]
    thr = plan['thr'] or 1e-6
    rmf = lsfparm.make_rmf(tab[0], q, wd * u.deg, threshold=thr, **({'kw_interp': {'kind': 'linear'}} if g.random() < .3 else {}))
    if not all(np.array_equal(np.array(tab[c]), b) for c, b in zip(tab.colnames, before[0])) or dict(tab.meta) != before[1]:
        raise Violation('input-changed', 'make_rmf changed the table of line spread functions')
    lo, hi = edges[:-1][::-1], edges[1:][::-1]
    a = np.zeros((len(lo), len(lo)))
    for k in range(len(lo)):
        mid = .5 * (lo[k] + hi[k])
        tot = 0
        for c in comps:
            tot += at(par, c, mid, wd)[0]
            a[k] += mixture(par, c, mid, wd, lo, hi)
        a[k] *= fraction(ee, mid, wd) / tot
    hc = 12.398419843320026
    return rmf, a, hc / hi, hc / lo, thr


def make_ccd(plan):
    """RMF of a CCD: one Gaussian in energy whose width is tabulated."""
    from marxs.missions.arcus.arfrmf import mkrmf0
    en = np.array([.2, .5, 1., 2.])
    f0, f1 = [60., 20.] if plan['sig'][1] else [100., 0.]
    tab = QTable([en * u.keV, (f0 + f1 * en) * u.eV], names=['energy', 'FWHM'])
    keep = [np.array(tab[c]) for c in tab.colnames]
    edges = np.linspace(.3, 1.6, plan['n_chan'] + 1)
    thr = plan['thr'] or 1e-6
    rmf = mkrmf0(edges * u.keV, ccdfwhm=tab, threshold=thr)
    if not all(np.array_equal(np.array(tab[c]), v) for c, v in zip(tab.colnames, keep)):
        raise Violation('input-changed', 'mkrmf0 changed the table of widths')
    lo, hi = edges[:-1], edges[1:]
    a = np.zeros((len(lo), len(lo)))
    for k in range(len(lo)):
        mid = .5 * (lo[k] + hi[k])
        sg = (f0 + f1 * mid) / 1000 / np.sqrt(8 * np.log(2))
        a[k] = norm.cdf(hi, mid, sg) - norm.cdf(lo, mid, sg)
    return rmf, a, lo, hi, thr


class Ref:
    """Dense response with thresholds applied, energies and numbering."""

    def __init__(self, a, elo, ehi, cmin, cmax, thr, tlmin, rtol):
        self.a = np.where(a > thr, a, 0.)
        self.fuzzy = np.abs(a - thr) < 1e-9 * (1 + thr) + rtol * thr
        self.elo, self.ehi, self.cmin, self.cmax = elo, ehi, cmin, cmax
        self.thr, self.tlmin, self.rtol = thr, tlmin, rtol


def check_views(rmf, ref, who):
    n = len(ref.a)
    for k in range(n):
        mid = .5 * (ref.elo[k] + ref.ehi[k]) * u.keV
        row = ref.a[k]
        fz = ref.fuzzy[k]
        for en in (mid, mid.to(u.eV), mid.to(u.Angstrom, equivalencies=u.spectral())):
            lo, hi, full = rmf.full_rmf(en)
            lo, hi, full = [np.asarray(getattr(x, 'value', x), dtype=float) for x in (lo, hi, full)]
            if full.shape != row.shape:
                raise Violation('full-shape', f'{who}: full_rmf has {full.shape} channels, {row.shape} went in')
            if not (np.allclose(lo, ref.cmin, rtol=1e-6) and np.allclose(hi, ref.cmax, rtol=1e-6)):
                raise Violation('channel-energies', f'{who}: channel limits {lo}..{hi}, expected {ref.cmin}..{ref.cmax}'[:300])
            bad = ~np.isclose(full, row, rtol=ref.rtol, atol=1e-9) & ~fz
            if bad.any():
                j = int(np.argmax(bad))
                raise Violation('full-matrix', f'{who}: row {k}, channel index {j}: {full[j]!r}, went in as {row[j]!r} (query {en})', key='full-matrix')
            lo, hi, part = rmf.rmf(en)
            lo, hi, part = [np.asarray(getattr(x, 'value', x), dtype=float) for x in (lo, hi, part)]
            if not len(lo) == len(hi) == len(part):
                raise Violation('row-lengths', f'{who}: rmf() returns {len(lo)} energies and {len(part)} values for row {k}')
            on = full > 0
            if np.array_equal(part[part > 0], full[on]):     # channels that underflow may be listed with zero
                lo, hi, part = lo[part > 0], hi[part > 0], part[part > 0]
            if len(lo) != on.sum() or not (np.allclose(lo, ref.cmin[on], rtol=1e-6) and np.allclose(hi, ref.cmax[on], rtol=1e-6) and np.array_equal(part, full[on])):
                raise Violation('row-view', f'{who}: row {k}: rmf() gives {list(zip(lo, part))}, full_rmf() has {list(zip(ref.cmin[on], full[on]))}'[:400])
            wlo, whi, wpart = rmf.rmf_angstrom(en)
            wlo, whi, wpart = wlo[wpart > 0], whi[wpart > 0], wpart[wpart > 0]
            if len(wlo) != on.sum() or wlo.unit != u.Angstrom or not (np.allclose(wlo.value, 12.398419843320026 / ref.cmax[on], rtol=1e-6)
                                              and np.allclose(whi.value, 12.398419843320026 / ref.cmin[on], rtol=1e-6) and np.array_equal(wpart, part)):
                raise Violation('wavelength-view', f'{who}: row {k}: rmf_angstrom() does not agree with rmf()')
    for en in (ref.elo.min() * .5, ref.ehi.max() * 1.5):
        try:
            rmf.full_rmf(en * u.keV)
        except Exception:  # noqa
            pass
        else:
            raise Violation('outside', f'{who}: a response for {en} keV was returned, the matrix covers {ref.elo.min()}..{ref.ehi.max()}')


def decode(path, ref, who):
    """Independent reading of the file."""
    with fits.open(path, memmap=False) as h:
        m, eb = h['MATRIX'], h['EBOUNDS']
        d = m.data
        k = [c for c in range(1, 20) if m.header.get(f'TTYPE{c}') == 'F_CHAN'][0]
        tl = m.header.get(f'TLMIN{k}')
        if tl != ref.tlmin:
            raise Violation('file-numbering', f'{who}: first channel number in the file {tl}, expected {ref.tlmin}')
        k = [c for c in range(1, 20) if eb.header.get(f'TTYPE{c}') == 'CHANNEL'][0]
        if eb.header.get(f'TLMIN{k}') != ref.tlmin:
            raise Violation('file-numbering', f"{who}: first channel number of EBOUNDS in the file {eb.header.get(f'TLMIN{k}')}, expected {ref.tlmin}")
        if list(eb.data['CHANNEL']) != list(range(ref.tlmin, ref.tlmin + ref.a.shape[1])):
            raise Violation('file-numbering', f"{who}: channels in EBOUNDS {list(eb.data['CHANNEL'])[:5]}.., expected to start at {ref.tlmin}")
        if m.header['HDUCLAS1'] != 'RESPONSE' or m.header['TELESCOP'] != ('ARCUS' if who.startswith('ccd') else 'sim') or eb.header['HDUCLAS2'] != 'EBOUNDS':
            raise Violation('file-keywords', f'{who}: mandatory keywords are wrong')
        for x in (m, eb):
            if x.header['DETCHANS'] != ref.a.shape[1]:
                raise Violation('file-keywords', f"{who}: DETCHANS = {x.header['DETCHANS']} in {x.name}, {ref.a.shape[1]} channels")
        if len(d) != len(ref.a) or not np.allclose(d['ENERG_LO'], ref.elo, rtol=1e-6) or not np.allclose(d['ENERG_HI'], ref.ehi, rtol=1e-6):
            raise Violation('file-energies', f'{who}: energies in the file differ')
        for r in range(len(d)):
            full = np.zeros(ref.a.shape[1])
            f, nc = np.atleast_1d(d['F_CHAN'][r]), np.atleast_1d(d['N_CHAN'][r])
            mat = np.atleast_1d(d['MATRIX'][r])
            p = 0
            for g in range(int(d['N_GRP'][r])):
                s = int(f[g]) - tl
                full[s:s + int(nc[g])] = mat[p:p + int(nc[g])]
                p += int(nc[g])
            bad = ~np.isclose(full, ref.a[r], rtol=ref.rtol, atol=1e-9) & ~ref.fuzzy[r]
            if bad.any():
                j = int(np.argmax(bad))
                raise Violation('file-matrix', f'{who}: file row {r}, channel index {j}: {full[j]!r}, went in as {ref.a[r][j]!r}')


def bytes_of(path):
    if not os.path.exists(path):
        return None
    with open(path, 'rb') as f:
        return f.read()


def attempt(w, root, fault, func, obs):
    """Run func in a process of its own with the fault; returns (status, message, fired)"""
    quota = fault.get('quota') if fault else None
    w.fs = world.FaultFS(root, [fault] if fault and 'op' in fault else [], quota=quota)

    def body():
        try:
            func()
            return 'ok', None
        except Exception as ex:  # noqa
            return 'error', f'{type(ex).__name__}: {ex}'[:200]
    try:
        st, val = world.life(body)
        fired = list(w.fs.fired)
    finally:
        w.fs = None
    for f in fired:
        obs.fault(f'disk:{f[0]}:{f[1]}')
    if fired:
        obs.nontrivial = True
    if st == 'crash':
        return 'crash', None, fired
    return val[0], val[1], fired


def steps(plan, obs, w, root, writer, reader, checker, decoder, who):
    """The history of writes, damage and reads; writer(path, overwrite), reader(path) -> object, checker(object, who)."""
    good = None        # content of the file that was written completely
    path = os.path.join(root, 'resp.fits')
    outcomes = []
    for k, st in enumerate(list(plan['l_steps']) + [{'k': 'write', 'f': None}, {'k': 'reread'}]):
        ws = f'{who}, step {k} ({st})'
        if st['k'] == 'write':
            res, msg, fired = attempt(w, root, st['f'], lambda: writer(path, True), obs)
            obs.event(k, res, [f[:2] for f in fired])
            obs.count('writes-' + res)
            outcomes.append(res)
            if res == 'ok':
                try:
                    x = reader(path)
                except Exception as ex:  # noqa
                    raise Violation('written-but-unreadable', f'{ws}: the write reported no error (faults {fired}), but reading fails: {ex!r}'[:400],
                                    key=f'written-but-unreadable:{type(ex).__name__}')
                checker(x, ws + ' read back')
                decoder(path, ws)
                good = bytes_of(path)
            else:
                if res == 'error' and not fired:
                    raise Violation('write-fails', f'{ws}: no fault, but {msg}', key='write-fails:' + msg.split(':')[0])
                good = None
                maybe(reader, checker, path, ws + ' after a failed write', obs)
        elif st['k'] == 'truncate':
            if good is None:
                continue
            cut = good[:int(len(good) * st['frac'])]
            p2 = os.path.join(root, 'cut.fits')
            with open(p2, 'wb') as f:
                f.write(cut)
            obs.fault('truncated-file')
            obs.nontrivial = True
            maybe(reader, checker, p2, f'{ws} file cut to {len(cut)} of {len(good)} bytes', obs)
        elif st['k'] == 'reread':
            if good is None:
                continue
            x = reader(path)
            checker(x, ws)
            if hasattr(x, 'matrix') or hasattr(x, 'write'):
                # a second generation
                p2 = os.path.join(root, 'second.fits')
                if os.path.exists(p2):
                    os.remove(p2)
                x.write(p2)
                checker(x, ws + ' after writing the second generation')
                y = reader(p2)
                checker(y, ws + ' second generation')
                decoder(p2, ws + ' second generation')
            if bytes_of(path) != good:
                raise Violation('reading-changes-file', f'{ws}: the file changed when it was read')
        elif st['k'] == 'noover':
            if good is None:
                continue
            res, msg, fired = attempt(w, root, None, lambda: writer(path, False), obs)
            if res == 'ok':
                raise Violation('overwritten', f'{ws}: existing file replaced without being asked')
            if bytes_of(path) != good:
                raise Violation('overwritten', f'{ws}: the file changed although overwriting was refused')
            obs.count('refused-to-overwrite')
    return outcomes


def maybe(reader, checker, path, who, obs):
    """A file that may be damaged is refused or reads as what was written."""
    try:
        x = reader(path)
    except Exception:  # noqa
        obs.count('damaged-refused')
        return
    obs.count('damaged-accepted')
    try:
        checker(x, who)
    except Violation as v:
        raise Violation('damaged-file-accepted', str(v), key='damaged-file-accepted')
    except Exception:  # noqa   noticed later than while opening it
        obs.count('damaged-refused-late')


def run(plan, obs):
    from marxs.reduction.ogip import RMF, ARF
    w = world.current()
    root = w.scratch()
    obs.simtime += 1 + len(plan['l_steps'])
    if plan['kind'] == 'arf':
        run_arf(plan, obs, w, root, ARF)
        return
    if plan['kind'] in ('gauss', 'lsf', 'ccd'):
        rmf, a, elo, ehi, thr = {'gauss': make_gauss, 'lsf': make_lsf, 'ccd': make_ccd}[plan['kind']](plan)
        # tables in files have single precision
        ref = Ref(a, elo, ehi, elo, ehi, thr, 0, 2e-3 if plan['kind'] == 'lsf' and plan.get('made') else 2e-5)
        tlmin = 0
    else:
        a = dense(plan)
        e, c = energies(plan)
        tlmin = plan['tlmin']
        ref = Ref(a, e[:-1], e[1:], c[:-1], c[1:], plan['thr'], tlmin, 1e-6)
        if plan['kind'] == 'vla':
            p = os.path.join(root, 'vla.fits')
            write_vla(plan, a, p)
            rmf = RMF.read(p)
        else:
            rmf = build(plan, a)
    ng = [len(groups(r, ref.thr)[0]) for r in ref.a]
    if tlmin != 1 or min(ng) == 0 or max(ng) > 1:
        obs.nontrivial = True
    who = f"{plan['kind']} {a.shape} numbering from {tlmin}"
    check_views(rmf, ref, who + ' in memory')

    def writer(path, overwrite):
        if plan['pass_tlmin']:
            # what is there already, e.g. from another file, does not matter
            old = plan.get('old_tlmin', 'same')
            for x, col, tag in ((rmf.matrix, 'F_CHAN', 'm'), (rmf.ebounds, 'CHANNEL', 'eb')):
                k = f'TLMIN{x.colnames.index(col) + 1}'
                if old == 'none' or (old == 'noeb' and tag == 'eb'):
                    x.meta.pop(k, None)
                elif old == 'wrong' or (old == 'wrongeb' and tag == 'eb'):
                    x.meta[k] = tlmin + 3
        rmf.write(path, overwrite=overwrite, **({'TLMIN': tlmin} if plan['pass_tlmin'] else {}))
    out = steps(plan, obs, w, root, writer, RMF.read, lambda x, s: check_views(x, ref, s), lambda p, s: decode(p, ref, s), who)
    # in this process, too
    writer(os.path.join(root, 'here.fits'), False)
    check_views(rmf, ref, who + ' after writing')
    decode(os.path.join(root, 'here.fits'), ref, who)
    obs.event(a.shape, ng)
    obs.state(plan['kind'], a.shape, tlmin, plan['cls'], tuple(ng), tuple(out))


def run_arf(plan, obs, w, root, ARF):
    n = plan['n_rows']
    e, _ = energies(plan)
    r = np.random.RandomState(plan['rseed'])
    area = {'rand': r.uniform(0, 50, n), 'const': np.full(n, 7.5), 'zero': np.zeros(n), 'nan': r.uniform(0, 50, n)}[plan['area']]
    arf = ARF({'ENERG_LO': e[:-1] * u.keV, 'ENERG_HI': e[1:] * u.keV})
    if plan['miss'] != 'SPECRESP':
        arf['SPECRESP'] = area * u.cm**2
    arf['EXTRA'] = np.arange(n) * 1.5
    arf['CONST'] = np.full(n, 3)
    arf.meta.update({k: v for k, v in KW.items() if k != plan['miss']})
    who = f"arf {n} {plan['area']}"
    if plan['miss']:
        p = os.path.join(root, 'bad.arf')
        try:
            arf.write(p)
        except Exception:  # noqa
            if os.path.exists(p):
                raise Violation('refused-but-written', f'{who}: refused to write without {plan["miss"]}, but there is a file')
            obs.count('incomplete-refused')
        else:
            if plan['miss'] != 'SPECRESP':
                raise Violation('incomplete-accepted', f'{who}: written without mandatory {plan["miss"]}')
        if plan['miss'] == 'SPECRESP':
            try:
                ARF.read(p)
            except Exception:  # noqa
                obs.count('incomplete-refused')
            else:
                raise Violation('incomplete-accepted', f'{who}: a file without SPECRESP is read as effective area')
            arf['SPECRESP'] = area * u.cm**2
        else:
            arf.meta[plan['miss']] = KW[plan['miss']]

    def get(t, c):
        x = t[c]
        if isinstance(x, u.Quantity):
            x = x.to({'ENERG_LO': u.keV, 'ENERG_HI': u.keV, 'SPECRESP': u.cm**2}[c]).value
        return np.broadcast_to(np.asarray(x, dtype=float), n)
    want = {'ENERG_LO': e[:-1], 'ENERG_HI': e[1:], 'SPECRESP': area, 'EXTRA': np.arange(n) * 1.5, 'CONST': np.full(n, 3.)}

    def checker(t, s):
        for c, v in want.items():
            try:
                x = get(t, c)
            except KeyError:
                raise Violation('lost', f'{s}: {c} is missing', key=f'lost:{c}')
            if not np.allclose(x, v, rtol=1e-13):
                raise Violation('area-values', f'{s}: {c} is {x.tolist()}, went in as {v.tolist()}'[:300], key=f'area-values:{c}')
        if t.meta.get('TELESCOP') != 'sim':
            raise Violation('keywords', f'{s}: TELESCOP is {t.meta.get("TELESCOP")!r}')

    def decoder(p, s):
        with fits.open(p, memmap=False) as h:
            d, hd = h[1].data, h[1].header
            for c in ('ENERG_LO', 'ENERG_HI', 'SPECRESP'):
                if c not in d.names:
                    raise Violation('file-columns', f'{s}: required column {c} is not in the file')
                if not np.allclose(d[c], want[c], rtol=1e-13):
                    raise Violation('file-area', f'{s}: {c} in the file differs')
            if hd['HDUCLAS2'] != 'SPECRESP' or hd['EXTNAME'] != 'SPECRESP':
                raise Violation('file-keywords', f'{s}: mandatory keywords are wrong')
    out = steps(plan, obs, w, root, lambda p, o: arf.write(p, overwrite=o), ARF.read, checker, decoder, who)
    checker(arf, who + ' in memory at the end')
    obs.event(n, plan['area'])
    obs.state('arf', n, plan['area'], plan['miss'], tuple(out))
