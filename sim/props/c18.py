"""C18: analysis leaves photons and instruments alone, is repeatable, independent of photon order, and conserves what it counts."""
import copy
import numpy as np
from sim import lib, world, sched
from sim.core import Violation, HarnessError

ID = 'C18'
TECHNIQUE = ('deterministic simulation: several analysis clients work on shared photon lists, instruments and capture objects under a seeded scheduler that '
             'switches between them (and interrupts them) at source lines of marxs code; every result is compared with the same call alone in a new '
             'process on new objects, with independently computed sums and widths, with permuted and split lists, and all inputs are compared bit for bit before and after')
RULE = 'at least two analysis calls were compared; distinct = distinct event log (operations, results, switch trace)'
STATE_MEASURE = 'hash of (operation sequences, kind of lists, scheduling mode)'
ASSUMPTIONS = ['floating-point sums in another order agree to 1e-9 relative; widths only compared where the spread of positions is well above rounding',
               'the documented side effect of resolvingpower_per_order on the order selector of the gratings is allowed']
REAL = ['marxs.analysis', 'marxs.missions.arcus.analyze_grid', 'marxs.optics', 'marxs.design.rowland', 'marxs.simulator']
STUB = ['scheduler (simulated threads)', 'photon lists synthesised by the harness']
N = {'quick': 1200, 'thorough': 30000}
TIMEOUT = 150

OPS = ['fraction', 'aeff', 'res', 'res', 'robust', 'capture', 'capture', 'gaps', 'focus', 'project', 'facet', 'perorder', 'weighted', 'average', 'width2d', 'subap', 'raygrid']


def gen_list(rng):
    return {'n': rng.choice([0, 1, 19, 20, 21, 22, 60, 200, 400]), 'seed': rng.randrange(2**31), 'orders': rng.choice([[0], [0, 1], [-1, 0, 1], [-3, -2, 0], [1, 2, 5], [0, 0, 0, 3]]),
            'zero': rng.choice([0., .2, .8, 1.]), 'miss': rng.choice([0., 0., .2, .9]), 'masked': rng.random() < .25, 'exact': rng.choice([None, None, 19, 20, 21]),
            'quant': rng.random() < .15, 'dup': rng.random() < .1}


def gen_op(rng):
    return {'op': rng.choice(OPS), 'l': rng.randrange(4), 'l2': rng.randrange(4), 'orders': rng.choice([[0], [-1, 0, 1], [-3, -2, -1, 0, 1, 2, 3, 5], [7], [5, 0, 1], [2, 2]]),
            'zeropos': rng.choice([None, None, 0., -3.5]), 'col': rng.choice(['det_x', 'det_x', 'proj_x', 'det_y']), 'ordercol': rng.choice(['order', 'order', 'order2']),
            'n_photons': rng.choice([None, 1, 1000, 12345]), 'k': rng.randrange(3), 'rot': rng.choice([0., .1, -.5]), 'seed': rng.randrange(2**31), 'det': rng.choice(['none', 'rowland', 'flat'])}


def gen(rng, i, tier):
    plan = {'l_lists': [gen_list(rng) for _ in range(rng.choice([1, 2, 3]))], 'l_clients': [], 'mode': rng.choice(['line', 'line', 'sequential']), 'l_switches': [], 'l_aborts': [],
            'caps': [{'orders': rng.choice([[-1, 0, 1], [-3, -2, -1, 0, 1, 2, 3, 5], [1, 2], [0], 'default']), 'A': rng.choice([1, 2.5, 'cm2']), 'zeropos': rng.choice([None, 0., 2.]),
                      'col': rng.choice(['det_x', 'proj_x'])} for _ in range(3)],
            'gas': rng.choice(['gas', 'grid', 'par']), 'planes': [lib.U(rng, -1, 1) for _ in range(2)]}
    for _ in range(rng.choice([1, 2, 2, 3])):
        plan['l_clients'].append({'l_ops': [gen_op(rng) for _ in range(rng.choice([1, 2, 3, 4]))], 'seed': rng.randrange(2**31)})
    if plan['mode'] == 'line':
        scale = rng.choice([3, 15, 60])
        plan['l_switches'] = [[1 + int(rng.expovariate(1. / scale)), rng.randrange(4)] for _ in range(rng.randint(2, 50))]
    if rng.random() < .25:
        plan['l_aborts'].append([rng.randrange(len(plan['l_clients'])), rng.randint(1, rng.choice([20, 200, 2000]))])
    return plan


def mk_list(s):
    from astropy.table import Table, MaskedColumn, QTable
    import astropy.units as u
    g = np.random.Generator(np.random.PCG64(s['seed']))
    n = s['n']
    order = g.choice(s['orders'], n)
    order[g.random(n) < s['zero'] * .5] = 0
    if s['exact'] is not None and n >= s['exact']:
        # an order with exactly this many photons
        order[order == 1] = 0
        order[g.permutation(n)[:s['exact']]] = 1
    pos = np.stack([np.full(n, 1000.) + g.normal(size=n), 30 * g.normal(size=n), 30 * g.normal(size=n), np.ones(n)], axis=1)
    tgt = np.stack([np.zeros(n) + 5, 7. * order + .1 * g.normal(size=n), .2 * g.normal(size=n)], axis=1)
    d = tgt - pos[:, :3]
    d /= np.linalg.norm(d, axis=1)[:, None]
    t = Table()
    t['time'] = np.sort(g.random(n))
    t['pos'] = pos
    t['dir'] = np.concatenate([d, np.zeros((n, 1))], axis=1)
    t['energy'] = np.ones(n)
    t['polarization'] = np.zeros((n, 4))
    t['probability'] = np.where(g.random(n) < .1, 0., g.random(n))
    t['order'] = order
    t['order2'] = g.choice(s['orders'], n)
    miss = g.random(n) < s['miss']
    for c, w in (('det_x', .1), ('det_y', .3), ('proj_x', .05)):
        x = 7. * order + w * g.normal(size=n)
        if s['dup'] and n:
            x = np.round(x, 1)
        if s['masked']:
            t[c] = MaskedColumn(np.where(miss, 99., x), mask=miss)
        elif c != 'det_y':
            x[miss] = np.nan
            t[c] = x
        else:
            t[c] = x
    t['CCD_ID'] = np.where(miss, -1, g.integers(0, 4, n))
    t['facet'] = g.integers(-1, 5, n)
    t.meta['EXPOSURE'] = (17., 'comment')
    return t


def mk_world(plan):
    import astropy.units as u
    import marxs.missions.arcus.analyze_grid  # noqa: not in a client, which may be suspended with the import lock
    from marxs.analysis.gratings import CaptureResAeff, CaptureResAeff_CCDgaps
    from marxs.analysis.coords import ProjectOntoPlane
    w = {'lists': [mk_list(s) for s in plan['l_lists']], 'caps': [], 'gaps': [], 'planes': []}
    for c in plan['caps']:
        kw = {'A_geom': 3.5 * u.cm**2 if c['A'] == 'cm2' else c['A'], 'dispersion_coord': c['col'], 'zeropos': c['zeropos']}
        if c['orders'] != 'default':
            kw['orders'] = list(c['orders'])
        w['caps'].append(CaptureResAeff(**kw))
        w['gaps'].append(CaptureResAeff_CCDgaps(**kw))
    for p in plan['planes']:
        w['planes'].append(ProjectOntoPlane(position=[0, p, 0], orientation=lib.axmat([0, 0, 1], p)))
    spec = {'t': 'gas', 'kind': plan['gas'], 'de': 25., 'rmax': 60., 'cat': True, 'd': 2e-4, 'orders': {'k': 'list', 'l': [0, 1]}}
    from marxs.design.rowland import RowlandTorus, GratingArrayStructure, RectangularGrid
    from marxs import optics, simulator
    row = RowlandTorus(500., 500.)
    w['rowland'] = row
    kw = dict(elem_class=optics.FlatGrating, elem_args={'zoom': [1, 12., 12.], 'd': 2e-3, 'order_selector': optics.OrderSelector([0, 1])})
    if plan['gas'] == 'gas':
        w['gas'] = GratingArrayStructure(rowland=row, d_element=[25., 25.], radius=[0., 60.], **kw)
    elif plan['gas'] == 'grid':
        w['gas'] = RectangularGrid(rowland=row, d_element=[25., 25.], y_range=[-50, 50], z_range=[-50, 50], **kw)
    else:
        w['gas'] = simulator.Parallel(elem_pos={'position': [[900., y, z] for y in (-25, 0, 25) for z in (-25, 0, 25)]}, **kw)
    w['det'] = optics.FlatDetector(zoom=1e4)
    return w


def snap_table(t):
    out = {}
    for c in t.colnames:
        x = t[c]
        out[c] = (np.array(np.asarray(x)), np.array(x.mask) if hasattr(x, 'mask') else None, type(x).__name__, str(x.unit))
    return out, copy.deepcopy(dict(t.meta)), list(t.colnames)


def table_changed(a, b, allowed=()):
    if [c for c in b[2] if c not in allowed] != [c for c in a[2] if c not in allowed]:
        return f'columns {sorted(set(a[2]) ^ set(b[2]))} or their order changed'
    for c in a[0]:
        if c in allowed:
            continue
        for x, y in zip(a[0][c], b[0][c]):
            if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
                if not lib.same_array(x, y):
                    return f'column {c} changed'
            elif x != y:
                return f'column {c} changed from {x} to {y}'
    if a[1] != b[1]:
        return 'header changed'
    return None


def snap_instr(w, selector=True):
    g = w['gas']
    out = [np.array(g.pos4d), [np.array(p) for p in g.elem_pos], [np.array(e.pos4d) for e in g.elements], [e.id_num for e in g.elements],
           np.array(w['det'].pos4d), [np.array(p.pos4d) for p in w['planes']], [list(p.loc_coos_name) for p in w['planes']], [w['rowland'].R, w['rowland'].r]]
    for c in w['caps'] + w['gaps']:
        out.append([repr(c.A_geom), list(np.asarray(c.orders)), c.order_col, c.dispersion_coord, c.zeropos])
    return out


def flat(x):
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    return [x]


def instr_changed(a, b):
    fa, fb = flat(a), flat(b)
    if len(fa) != len(fb):
        return True
    for x, y in zip(fa, fb):
        if isinstance(x, np.ndarray):
            if not lib.same_array(x, y):
                return True
        elif x != y and not (x != x and y != y):
            return True
    return False


def plain(x):
    """Results as plain data for comparison."""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if hasattr(x, 'colnames'):
        return {c: plain(x[c]) for c in x.colnames}
    if hasattr(x, 'mask'):
        return np.array(np.ma.filled(np.ma.asarray(getattr(x, 'value', x), dtype=float) if not hasattr(x, 'unit') else np.ma.asarray(np.asarray(x), dtype=float), np.nan))
    if hasattr(x, 'unit') and hasattr(x, 'value'):
        return np.array(x.value, dtype=float)
    if isinstance(x, (float, int, np.generic, np.ndarray)) or x is None:
        return np.array(x) if x is not None else None
    return str(x)


def differ(a, b, rtol=0.):
    if isinstance(a, dict):
        if set(a) != set(b):
            return f'keys {sorted(set(a) ^ set(b))}'
        for k in a:
            d = differ(a[k], b[k], rtol)
            if d:
                return f'{k}: {d}'
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return f'{len(a)} and {len(b)} entries'
        for k, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, rtol)
            if d:
                return f'[{k}] {d}'
        return None
    if isinstance(a, np.ndarray):
        if a.shape != b.shape or not (lib.same_array(a, b) if rtol == 0 else np.allclose(a, b, rtol=rtol, atol=1e-12, equal_nan=True)):
            return f'{a!r} and {b!r}'
        return None
    return None if a == b else f'{a!r} and {b!r}'


def minimiser(func, *args, **kwargs):
    """None where there is no focus: scipy gives up, or it goes to a detector so far away that nothing hits it"""
    import traceback
    try:
        return func(*args, **kwargs)
    except Exception as ex:
        for f in reversed(traceback.extract_tb(ex.__traceback__)):
            if isinstance(ex, KeyError) and ex.args == ('det_x',):
                return None
            if '/scipy/optimize/' in f.filename:
                return None
            if '/marxs/' in f.filename:
                break
        raise


def doop(w, op):
    """One analysis call.  Returns plain results."""
    import astropy.units as u
    from marxs import analysis, optics
    from marxs.analysis import gratings as gr, analysis as an, coords as co
    t = w['lists'][op['l'] % len(w['lists'])]
    t2 = w['lists'][op['l2'] % len(w['lists'])]
    o = op['op']
    orders = np.array(op['orders'])
    try:
        if o == 'fraction':
            return plain(an.detected_fraction(t, orders, op['ordercol']))
        if o == 'aeff':
            return plain(gr.effectivearea_from_photonlist(t, orders, op['n_photons'] or 77, 2. * u.cm**2, op['ordercol']))
        if o == 'res':
            return plain(gr.resolvingpower_from_photonlist(t, orders, col=op['col'], zeropos=op['zeropos'], ordercol=op['ordercol']))
        if o == 'robust':
            return plain(gr.resolvingpower_from_photonlist_robust([t, t2], orders, ['det_x', op['col']], [op['zeropos'], 0.], op['ordercol']))
        if o == 'capture':
            return plain(w['caps'][op['k'] % len(w['caps'])](t, op['n_photons']))
        if o == 'gaps':
            return plain(w['gaps'][op['k'] % len(w['gaps'])](t, op['n_photons']))
        if o == 'focus':
            if len(t) < 3:
                return 'skipped'
            kw = {'orientation': lib.axmat([0, 0, 1], op['rot'])}
            if op['k']:
                kw.update(objective_func=an.mean_width_2d, objective_func_args={})
            r = minimiser(an.find_best_detector_position, t, options={'maxiter': 6}, **kw)
            if r is None:
                return 'no minimum'
            return [plain(r.x), plain(r.fun)]
        if o == 'width2d':
            return plain([an.mean_width_2d(t), an.sigma_clipped_std(t, colname='proj_x')]) if len(t) else 'skipped'
        if o == 'project':
            p = t.copy()
            q = w['planes'][op['k'] % len(w['planes'])](p)
            return [plain(q[c]) if c in q.colnames else 'absent' for c in ('proj_x', 'proj_y')] + [sorted(set(q.colnames) - set(t.colnames))]
        if o == 'facet':
            return plain(co.facet_table(w['gas'], **({'project_plane': w['planes'][op['k'] - 1]} if op['k'] else {})))
        if o == 'perorder':
            if len(t) < 20:
                return 'skipped'
            gas = copy.deepcopy(w['gas'])
            det = {'none': None, 'rowland': w['rowland'], 'flat': w['det']}[op['det']]
            sub = t[:40]
            for c in ('order', 'order2', 'facet', 'det_x', 'det_y', 'CCD_ID'):
                sub.remove_column(c)
            before = snap_table(sub)
            out = minimiser(gr.resolvingpower_per_order, gas, sub, np.array([0, 1][:1 + op['k'] % 2]), det)
            d = table_changed(before, snap_table(sub))
            if d:
                raise Violation('photons-changed', f'resolvingpower_per_order: {d}')
            return 'no minimum' if out is None else [plain(out[0]), plain(out[1])]
        if o == 'weighted':
            class Eff:
                pass
            e = Eff()
            g = np.random.Generator(np.random.PCG64(op['seed']))
            e.orders = np.arange(-3, 6)
            e.energy = g.permutation(np.linspace(.3, 2., 7))
            e.prob = g.random((7, 9))
            sel = np.array(sorted(set(op['orders']) - {7}) or [0])
            data = g.random((len(sel), 5))
            en = np.sort(g.uniform(.2, 2.2, 5))
            keep = [np.array(x) for x in (data, sel, en, e.orders, e.energy, e.prob)]
            out = gr.weighted_per_order(data, sel, en, e)
            if not all(lib.same_array(a, b) for a, b in zip(keep, (data, sel, en, e.orders, e.energy, e.prob))):
                raise Violation('inputs-changed', 'weighted_per_order changed its input')
            s = np.argsort(keep[4])
            wt = np.array([np.interp(en, keep[4][s], keep[5][s, k + 3]) for k in sel])
            want = (wt * data).sum(axis=0) / wt.sum(axis=0)
            if not np.allclose(np.asarray(out), want, rtol=1e-9):
                raise Violation('weighted-mean', f'weighted_per_order gives {out} instead of {want}')
            return plain(out)
        if o == 'average':
            g = np.random.Generator(np.random.PCG64(op['seed']))
            r = g.uniform(100, 1000, (4, 3))
            r[g.random((4, 3)) < .3] = np.nan
            a = g.random((4, 3))
            m = np.isfinite(r)
            if op['seed'] % 3 == 0:
                # "works for masked arrays": some values are masked, others NaN
                r = np.ma.array(r, mask=g.random((4, 3)) < .2)
                m = m & ~r.mask
            keep = [np.array(np.ma.getdata(r)), a.copy(), np.array(np.ma.getmaskarray(r))]
            ax = [None, 0, 1][op['k']]
            R, A = gr.average_R_Aeff(r, a, axis=ax)
            if not (lib.same_array(np.ma.getdata(r), keep[0]) and lib.same_array(a, keep[1]) and lib.same_array(np.ma.getmaskarray(r), keep[2])):
                raise Violation('inputs-changed', 'average_R_Aeff changed its input')
            den = np.where(m, a, 0).sum(axis=ax)
            with np.errstate(all='ignore'):
                want = np.where(m, r * a, 0).sum(axis=ax) / den
            got = np.ma.filled(np.ma.asarray(R, dtype=float), np.nan)
            if not np.allclose(A, a.sum(axis=ax), rtol=1e-9) or not np.allclose(got, np.where(den > 0, want, np.nan), rtol=1e-9, equal_nan=True):
                raise Violation('weighted-mean', f'average_R_Aeff gives {R}, {A} instead of {want}, {a.sum(axis=ax)}')
            return [plain(R), plain(A)]
        if o == 'subap':
            g = np.random.Generator(np.random.PCG64(op['seed']))
            center, width = [np.pi / 2, 0., .3, 2.5, np.pi, 1.][op['l'] % 6], g.uniform(0.02, .8)
            ang = g.uniform(-2 * np.pi, 4 * np.pi, 60)
            # angular distance to the two sectors
            dist = np.abs((ang[:, None] - np.array([center, -center]) + np.pi) % (2 * np.pi) - np.pi).min(axis=1)
            ang, dist = ang[np.abs(dist - width) > 1e-3], dist[np.abs(dist - width) > 1e-3]
            a0 = ang.copy()
            got = gr.identify_photon_in_subaperture(ang, width, *([] if op['l'] % 6 == 0 else [center]))
            if not lib.same_array(ang, a0):
                raise Violation('inputs-changed', 'identify_photon_in_subaperture changed the angles')
            bad = np.flatnonzero(np.asarray(got) != (dist < width))
            if len(bad):
                raise Violation('sub-aperture', f'angle {ang[bad[0]]} is {dist[bad[0]]} from the nearest of the sectors at +-{center}, half width {width}: reported as '
                                f'{"inside" if got[bad[0]] else "outside"}')
            return plain(np.asarray(got))
        if o == 'raygrid':
            return raygrid(w, op)
    except gr.AnalysisError as e:
        return 'AnalysisError'
    raise HarnessError(o)


CHAN = ['1', '2', '1m', '2m']
STEP = [0, 1000, 10000, 11000]


def raygrid(w, op):
    """Areas and resolving power of a grid of Arcus simulations in files."""
    import os
    import shutil
    import astropy.units as u
    from astropy.table import Table
    from marxs.missions.arcus import analyze_grid as ag
    from marxs.missions.arcus.arcus import defaultconf
    g = np.random.Generator(np.random.PCG64(op['seed']))
    orders = np.array(op['orders'])
    d = world.current().scratch()
    try:
        want, wantR, en, before = [], [], [], {}
        for i in range(1 + op['k']):
            n = int(g.choice([1, 40, 120, 300]))
            t = Table()
            aper = g.integers(0, 4, n)
            t['xou'] = np.array(STEP)[aper] + g.integers(0, 900, n)
            t['order'] = g.choice(orders, n)
            t['order_L1'] = np.where(g.random(n) < .2, g.choice([-1, 1], n), 0)
            t['CCD'] = np.where(g.random(n) < .15, -1, g.integers(1, 16, n))
            t['probability'] = np.where(g.random(n) < .1, 0., g.random(n))
            zero = np.array([ag.zeropos('circ_phi', c) for c in CHAN])
            t['circ_phi'] = zero[aper] + .01 * t['order'] + 1e-4 * g.normal(size=n)
            miss = g.random(n) < .05
            t['circ_phi'][miss] = np.nan
            e = float(g.uniform(.3, 1.2))
            t['energy'] = np.full(n, e)
            t.meta.update(EXPOSURE=1000 + i, A_GEOM=500. + i, ENERGY=e, MARXSVER='1')
            f = os.path.join(d, f'wave{i:05.2f}.fits')
            t.write(f)
            before[f] = open(f, 'rb').read()
            use = np.asarray(t['order_L1']) == 0
            p = np.asarray(t['probability'])
            hit = np.asarray(t['CCD']) >= 0
            want.append([[p[use & hit & (aper == a) & (t['order'] == q)].sum() / (1000 + i) * (500. + i) for q in orders] for a in range(4)])
            ok = use & ~miss & (p > 0)
            wantR.append([model_res(np.asarray(t['circ_phi'])[ok & (aper == a)], np.asarray(t['order'])[ok & (aper == a)], orders, zero[a]) for a in range(4)])
            en.append(e)
        out = ag.aeffRfromraygrid(d, defaultconf, orders=orders)
        for f, b in before.items():
            if open(f, 'rb').read() != b:
                raise Violation('photons-changed', f'aeffRfromraygrid changed {os.path.basename(f)}')
        want = np.array(want)
        if len(out) != len(en) or not close(out['energy'].to_value(u.keV), en):
            raise Violation('raygrid', f"energies of the grid are {out['energy']} instead of {en}")
        if not close(out['wave'].to_value(u.Angstrom), 12.398419843320026 / np.array(en)):
            raise Violation('raygrid', f"wavelengths of the grid are {out['wave']} for energies {en}")
        disp = orders != 0
        for c, x in (('Aeff', want), ('Aeff4', want.sum(axis=1)), ('Aeff_disp', want.sum(axis=1)[:, disp].sum(axis=1))):
            if not close(out[c].to_value(u.cm**2), x):
                raise Violation('aeff', f'{c} of the grid is {out[c]} instead of {x}')
        for i in range(len(en)):
            for a in range(4):
                r = wantR[i][a]
                if r is None:
                    continue
                r = np.full(len(orders), np.nan) if isinstance(r, str) else r[0]
                if not close(np.asarray(out['R'][i, a]), r, 1e-6):
                    raise Violation('res', f"R of channel {CHAN[a]}, file {i} is {out['R'][i, a]} instead of {r}")
        R = np.asarray(out['R'])
        m = np.isfinite(R)
        with np.errstate(all='ignore'):
            avg = np.where(m, R * want, 0).sum(axis=1) / np.where(m, want, 0).sum(axis=1)
        if not close(np.asarray(out['R4']), np.where(np.where(m, want, 0).sum(axis=1) > 0, avg, np.nan), 1e-6):
            raise Violation('res', f"R4 is {out['R4']} instead of {avg}")
        # the table in a file, one column of it as csv
        grid, csv = os.path.join(d, 'grid.fits'), os.path.join(d, 'out.csv')
        out.write(grid)
        col = ['Aeff4', 'R4'][op['l'] % 2]
        if len(set(op['orders'])) == len(orders):
            ag.csv_per_order(grid, col, csv)
            back = Table.read(csv, format='ascii.csv')
            names = ['wave'] + [f'order_{q}' for q in orders]
            if back.colnames != names:
                raise Violation('csv', f'csv file has columns {back.colnames} instead of {names}')
            for q, name in enumerate(names[1:]):
                x = np.ma.filled(np.ma.asarray(back[name], dtype=float), np.nan)
                y = getattr(out[col][:, q], 'value', np.asarray(out[col][:, q]))
                if not close(x, y):
                    raise Violation('csv', f'{col} of order {orders[q]} is {y} but {x} in the csv file')
        return plain([np.asarray(out['Aeff'].value), R, list(out.colnames)])
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- independent calculations

def clipped(x):
    """Mean and width after at most 5 rounds of removing what is further than 3 standard deviations from the median."""
    x = np.asarray(x, dtype=float)
    x = x[np.isfinite(x)]
    near = False
    for _ in range(5):
        if len(x) == 0:
            return np.nan, np.nan, near
        m, s = np.median(x), x.std()
        d = np.abs(x - m)
        keep = d <= 3 * s
        near |= bool(np.any(np.abs(d - 3 * s) <= 1e-9 * (np.abs(m) + s)))
        if keep.all():
            break
        x = x[keep]
    return x.mean(), x.std(), near


def column(t, c):
    """Values of a column with NaN where masked."""
    x = np.array(np.asarray(t[c]), dtype=float)
    if hasattr(t[c], 'mask'):
        x[np.asarray(t[c].mask)] = np.nan
    return x


def model_res(x, order, orders, zeropos):
    """None: cannot tell.  Otherwise 'AnalysisError' or [res, pos, std] with NaN for too few photons."""
    if zeropos is None:
        if (order == 0).sum() < 20:
            return 'AnalysisError'
        zeropos, s, near = clipped(x[order == 0])
        if near:
            return None
    out = []
    for o in orders:
        sel = x[order == o]
        if len(sel) < 20:
            out.append((np.nan, np.nan, np.nan))
            continue
        m, s, near = clipped(sel)
        if near or not s > 1e-9 * abs(m):
            return None
        out.append((abs(m - zeropos) / s / 2.3548, m, s))
    return [np.array([x[k] for x in out]) for k in range(3)]


def close(a, b, rtol=1e-8, atol=1e-9):
    return np.shape(a) == np.shape(b) and np.allclose(np.asarray(a, dtype=float), np.asarray(b, dtype=float), rtol=rtol, atol=atol, equal_nan=True)


def check_value(plan, w, op, res, obs, where):
    """Compare a result with independent calculations."""
    t = w['lists'][op['l'] % len(w['lists'])]
    n = len(t)
    p = np.asarray(t['probability'])
    o = op['op']
    order = np.asarray(t[op['ordercol']])
    sums = lambda sel, orders, order: np.array([p[sel & (order == k)].sum() for k in orders])
    every = np.ones(n, dtype=bool)
    if o == 'fraction' and n:
        want = sums(every, op['orders'], order) / n
        if not close(res, want):
            raise Violation('fraction', f'{where}: detected_fraction is {res}, expected {want}')
    elif o == 'aeff':
        want = sums(every, op['orders'], order) / (op['n_photons'] or 77) * 2.
        if not close(res, want):
            raise Violation('aeff', f'{where}: effective area is {res}, expected {want}')
    elif o == 'res':
        want = model_res(column(t, op['col']), order, op['orders'], op['zeropos'])
        if want is None:
            obs.count('width-too-close-to-call')
        elif isinstance(want, str) or isinstance(res, str):
            if not (isinstance(want, str) and isinstance(res, str)):
                raise Violation('res', f'{where}: {res}, expected {want}')
        elif not all(close(a, b, 1e-6) for a, b in zip(res, want)):
            raise Violation('res', f'{where}: resolving power, position, width are {res}, expected {want}')
    elif o in ('capture', 'gaps'):
        cap = plan['caps'][op['k'] % len(plan['caps'])]
        orders = list(range(-10, 11)) if cap['orders'] == 'default' else cap['orders']
        order = np.asarray(t['order'])
        A = 3.5 if cap['A'] == 'cm2' else cap['A']
        sel = every if o == 'capture' else np.asarray(t['CCD_ID']) >= 0
        N = op['n_photons'] or n
        if n == 0 and op['n_photons'] is None:
            return
        aeff = sums(sel, orders, order) / N * A
        zero = np.array([k == 0 for k in orders])
        for k, want in (('Aeff', aeff), ('Aeff0', aeff[zero].sum()), ('Aeffgrat', aeff[~zero].sum())):
            if not close(res[k], want):
                raise Violation('aeff', f'{where}: {k} is {res[k]}, expected {want}')
        x = column(t, cap['col'])
        ok = np.isfinite(x) & (p > 0)
        R = model_res(x[ok], order[ok], orders, cap['zeropos'])
        if isinstance(R, str):
            R = [np.full(len(orders), np.nan)]
        if R is None:
            obs.count('width-too-close-to-call')
            return
        if not close(res['R'], R[0], 1e-6):
            raise Violation('res', f"{where}: R is {res['R']}, expected {R[0]}")
        use = ~zero & np.isfinite(R[0])
        wt = aeff[use].sum()
        got = float(np.asarray(res['Rgrat'], dtype=float))
        if wt > 0:
            want = (R[0][use] * aeff[use]).sum() / wt
            if not close(got, want, 1e-6):
                raise Violation('res', f'{where}: Rgrat is {got}, expected {want}')
        elif np.isfinite(got) and got != 0:
            raise Violation('res', f'{where}: Rgrat is {got} without any photons in dispersed orders')
    elif o == 'focus' and not isinstance(res, str):
        # width at the position that was found
        X = float(res[0])
        m = lib.axmat([0, 0, 1], op['rot'])
        pos, d = np.asarray(t['pos'])[:, :3], np.asarray(t['dir'])[:, :3]
        nrm = m[:, 0]
        s = (X - pos @ nrm) / (d @ nrm)
        hit = pos + s[:, None] * d
        y, z = hit @ m[:, 1], hit @ m[:, 2]
        if op['k']:
            want, near = np.mean(np.hypot(y - y.mean(), z - z.mean())), False
        else:
            _, want, near = clipped(y)
        if not near and not close(float(res[1]), want, 1e-6):
            raise Violation('focus', f'{where}: width {res[1]} reported for a detector at {X}, where it is {want}')
    elif o == 'project':
        pl = w['planes'][op['k'] % len(w['planes'])]
        g4 = np.array(pl.pos4d)
        v = np.asarray(t['pos'])[:, :3] - g4[:3, 3]
        for c, r, k in (('proj_x', res[0], 1), ('proj_y', res[1], 2)):
            if isinstance(r, str):
                raise Violation('projection', f'{where}: no column {c}: new columns are {res[2]}')
            want = v @ g4[:3, k] / np.linalg.norm(g4[:3, k])
            if not close(r, want):
                raise Violation('projection', f'{where}: {c} is {r[:3]}, expected {want[:3]}')
    elif o == 'facet':
        g = w['gas']
        want = np.stack([np.asarray(x)[:3, 3] for x in g.elem_pos])
        plane = np.eye(4) if not op['k'] else np.array(w['planes'][op['k'] - 1].pos4d)
        v = want - plane[:3, 3]
        a, b = v @ plane[:3, 1], v @ plane[:3, 2]
        cols = {'facet': [e.id_num for e in g.elements], 'facet_x': want[:, 0], 'facet_y': want[:, 1], 'facet_z': want[:, 2], 'facet_projx': a, 'facet_projy': b,
                'facet_rad': np.hypot(a, b)}
        for c, x in cols.items():
            if c not in res or not close(res[c], x, 1e-8, 1e-7):
                raise Violation('facet-table', f'{where}: {c} is {res.get(c)}, expected {x}')
        big = np.hypot(a, b) > 1e-3
        if not np.allclose(np.exp(1j * np.asarray(res['facet_ang'], dtype=float))[big], ((a + 1j * b) / np.maximum(np.hypot(a, b), 1e-300))[big], atol=1e-6):
            raise Violation('facet-table', f"{where}: facet_ang is {res['facet_ang']}")


def rearranged(plan, w, op, res, obs, where):
    """Photon order and splitting."""
    if op['op'] in ('focus', 'perorder', 'weighted', 'average', 'facet', 'project', 'subap', 'raygrid') or isinstance(res, str):
        return
    lists = w['lists']
    j = op['l'] % len(lists)
    t = lists[j]
    g = np.random.Generator(np.random.PCG64(op['seed']))
    w2 = dict(w, lists=list(lists))
    w2['lists'][j] = t[g.permutation(len(t))]
    res2 = doop(w2, op)
    if op['op'] in ('fraction', 'aeff'):
        d = differ(res, res2, 1e-9)
    elif op['op'] in ('capture', 'gaps'):
        d = differ({k: res[k] for k in ('Aeff', 'Aeff0', 'Aeffgrat')}, {k: res2[k] for k in ('Aeff', 'Aeff0', 'Aeffgrat')}, 1e-9)
    else:
        d = None
        if op['op'] == 'width2d':
            d = differ(res[0], res2[0], 1e-9)
    obs.count('permutations')
    if d:
        raise Violation('order-of-photons', f"{where}: result depends on the order of photons: {d}")
    if op['op'] in ('aeff', 'capture', 'gaps') and (op['n_photons'] or op['op'] == 'aeff'):
        sel = g.random(len(t)) < .5
        parts = []
        for m in (sel, ~sel):
            w2['lists'][j] = t[m]
            parts.append(doop(w2, op))
        if op['op'] == 'aeff':
            ok = close(parts[0] + parts[1], res)
        else:
            ok = all(close(parts[0][k] + parts[1][k], res[k]) for k in ('Aeff', 'Aeff0', 'Aeffgrat'))
        obs.count('splits')
        if not ok:
            raise Violation('split', f'{where}: areas of two parts do not add up to the area of the whole list')


def solo(plan, op, seed):
    def body():
        np.random.seed(seed % 2**32)
        return doop(mk_world(plan), op)
    return world.life(body)[1]


def run(plan, obs):
    if not plan['l_lists'] or not plan['l_clients']:
        return
    ops = [(k, i, op) for k, c in enumerate(plan['l_clients']) for i, op in enumerate(c['l_ops'])]
    want = {}

    def all_solo():
        out = {}
        for k, i, op in ops:
            np.random.seed(op['seed'] % 2**32)
            out[k, i] = doop(mk_world(plan), op)
        return out
    st, want = world.life(all_solo)
    w = mk_world(plan)
    tables0 = [snap_table(t) for t in w['lists']]
    instr0 = snap_instr(w)
    results = {}
    sc = sched.Scheduler(plan['l_switches'], 'line' if plan['mode'] == 'line' else 'none', [(f'c{k}', at) for k, at in plan['l_aborts']])

    def mk(k):
        def func():
            for i, op in enumerate(plan['l_clients'][k]['l_ops']):
                np.random.seed(op['seed'] % 2**32)
                results[k, i] = doop(w, op)
        return func
    for k, c in enumerate(plan['l_clients']):
        sc.spawn(f'c{k}', mk(k), c['seed'])
    sc.run()
    for t in sc.trace:
        obs.event(*t)
    obs.count('switches', sc.nswitch)
    for c in sc.clients:
        if c.error is not None:
            if isinstance(c.error, sched.Abort):
                obs.fault('interrupt')
                continue
            raise c.error
    for j, t in enumerate(w['lists']):
        d = table_changed(tables0[j], snap_table(t))
        if d:
            raise Violation('photons-changed', f"list {j} after {[op['op'] for k, i, op in ops]}: {d}")
    if instr_changed(instr0, snap_instr(w)):
        raise Violation('instrument-changed', f"gratings, projection planes or capture objects changed by {[op['op'] for k, i, op in ops]}")
    for (k, i, op) in ops:
        if (k, i) not in results:
            continue
        where = f"client {k}, call {i} ({op['op']})"
        res = results[k, i]
        obs.event(k, i, op['op'], repr(res)[:300])
        obs.count('calls-compared')
        d = differ(want[k, i], res)
        if d:
            raise Violation('not-repeatable', f"{where}: alone and after or between other calls: {d}")
        check_value(plan, w, op, res, obs, where)
        rearranged(plan, w, op, res, obs, where)
    for j, t in enumerate(w['lists']):
        d = table_changed(tables0[j], snap_table(t))
        if d:
            raise Violation('photons-changed', f'list {j}: {d}')
    obs.state(plan['mode'], tuple(op['op'] for k, i, op in ops), tuple(s['n'] > 20 for s in plan['l_lists']), bool(plan['l_aborts']))
    if len(results) > 1:
        obs.nontrivial = True
