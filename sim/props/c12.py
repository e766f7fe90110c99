"""C12: tolerancing trials are independent, labelled correctly and leave no trace."""
import contextlib
import copy
import io
import numpy as np
import astropy.units as u
from astropy.coordinates import SkyCoord
from astropy.table import Table
from sim import lib, world
from sim.core import Violation, HarnessError

ID = 'C12'
TECHNIQUE = ('deterministic simulation: seeded histories of tolerancing campaigns on one instrument, with analysis and trial functions that fail at a given call, '
             'interrupts at arbitrary lines, analysis functions that scribble on their photon list, and repetition of the campaign afterwards; every row is compared with '
             'a stand-alone run of just that trial on a newly built instrument with the random state captured when the trial started')
RULE = 'a campaign of at least two trials was run to its end; distinct = distinct event log'
STATE_MEASURE = 'hash of (campaign kind, displacement function, target, number of trials, analysis kind, failure kind)'
ASSUMPTIONS = ['trials of one campaign set the same attributes when varyattribute is used, because it only touches the attributes it is given',
               'a campaign without reset leaves the state of its last trial, as documented']
REAL = ['marxs.design.tolerancing', 'marxs.missions.mitsnl.tolerances', 'marxs.simulator', 'marxs.optics', 'marxs.source']
STUB = ['analysis functions', 'interrupts']
N = {'quick': 1200, 'thorough': 30000}
F = 2000.


class Interrupt(BaseException):
    pass


class Boom(Exception):
    pass


# ---------------------------------------------------------------- plans

def gen_instr(rng):
    return {'mirror': rng.choice(['lens', 'scatter', 'scatter']), 'grat': rng.choice(['flat', 'cat', 'single', 'stack', 'gas']), 'n': rng.randint(1, 4),
            'det': rng.choice(['single', 'par']), 'w': lib.U(rng, 10, 40), 'h': lib.U(rng, 10, 60), 'd': lib.U(rng, 2e-4, 1e-3), 'orders': rng.choice([[0, 1], [-1, 0, 1], [1]])}


SIX = ['dx', 'dy', 'dz', 'rx', 'ry', 'rz']


def gen_six(rng, sigma=False):
    keys = SIX if rng.random() < .4 else rng.sample(SIX, rng.randint(0, 3))
    lo = 0 if sigma else -1
    return {k: rng.choice([0., lib.U(rng, lo, 1) * (3. if k[0] == 'd' else .1)]) for k in keys}


TU = {'mm': 1., 'cm': 10., 'um': 1e-3, 'm': 1e3}
RU = {'rad': 1., 'mrad': 1e-3, 'deg': np.pi / 180, 'arcmin': np.pi / 180 / 60, 'arcsec': np.pi / 180 / 3600}


def gen_wigglelist(rng):
    """Steps as users give them; the displacement list made from them feeds the campaign."""
    tu, ru = rng.choice(sorted(TU)), rng.choice(sorted(RU))
    zero = rng.random() < .85

    def steps(mx):
        # distinct multiples, so that steps of different size stay apart in any unit
        k = rng.sample(range(1, 9), rng.choice([0, 1, 1, 2, 3]))
        if rng.random() < .7:
            k.sort()
        k = ([0] if zero or not k else []) + k
        return [x * mx / 8 for x in k]
    return {'trans': steps(3. / TU[tu]), 'tu': tu, 'rot': steps(.1 / RU[ru]), 'ru': ru, 'which': rng.choice(['global', 'individual']), 'l_rows': [rng.randrange(10**6) for _ in range(rng.choice([1, 2, 3, 4]))],
            'dtype': rng.choice(['list', 'list', 'f32'] if False else ['list']), 'select': rng.choice(SIX)}


def wigglelist(w, who):
    """The two lists for the steps of w, checked against the steps that were asked for."""
    import warnings
    from marxs.design.tolerancing import generate_6d_wigglelist, select_1dof_changed
    trans, rot = np.array(w['trans']) * u.Unit(w['tu']), np.array(w['rot']) * u.Unit(w['ru'])
    t0, r0 = trans.copy(), rot.copy()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        both = generate_6d_wigglelist(trans, rot)
    if not same(trans, t0) or not same(rot, r0):
        raise Violation('parameters-changed', f'{who}: generate_6d_wigglelist changed the steps')
    for name, got, signs in zip(['global', 'individual'], both, [(1, -1), (1,)]):
        want = []
        for i, key in enumerate(SIX):
            for v in ([x * TU[w['tu']] for x in w['trans']] if i < 3 else [x * RU[w['ru']] for x in w['rot']]):
                for s in signs:
                    row = [0.] * 6
                    row[i] = s * v
                    if not any(np.allclose(row, o, rtol=1e-9, atol=1e-15) for o in want):
                        want.append(row)
        rows = []
        for g in got:
            if sorted(g) != sorted(SIX):
                raise Violation('wigglelist', f'{who}: {name} displacement has parameters {sorted(g)}')
            rows.append([float(g[k]) for k in SIX])
        left = list(want)
        for r in rows:
            hit = [o for o in left if np.allclose(r, o, rtol=1e-9, atol=1e-15)]
            if not hit:
                raise Violation('wigglelist', f'{who}: {name} displacements hold {dict(zip(SIX, r))} twice or without being asked for (steps {trans}, {rot})', key='extra')
            left.remove(hit[0])
        if left:
            raise Violation('wigglelist', f'{who}: {name} displacements miss {dict(zip(SIX, left[0]))} (steps {trans}, {rot})', key='missing')
        # trials which change just one degree of freedom
        tab = Table(rows=[dict(zip(SIX, r), trial=k) for k, r in enumerate(rows)])
        for key in SIX:
            sel = sorted(select_1dof_changed(tab, key)['trial'])
            exp = [k for k, r in enumerate(rows) if all(x == 0 for x, q in zip(r, SIX) if q != key)]
            if sel != exp:
                raise Violation('select', f'{who}: trials with changes in {key} only are {exp}, select_1dof_changed gives {sel}')
    lst = list(both[0] if w['which'] == 'global' else both[1])
    return [lst[k % len(lst)] for k in w['l_rows']]


def gen_campaign(rng, ins):
    kind = rng.choice(['run', 'run', 'energies', 'energies2'])
    funcs = ['moveelem']
    if ins['grat'] not in ('single',) or ins['det'] == 'par':
        funcs += ['moveglobal', 'moveindividual', 'wiggle'] * 2
    if ins['mirror'] == 'scatter':
        funcs += ['varyattribute']
    if ins['grat'] in ('flat', 'cat', 'single', 'gas'):
        funcs += ['varyperiod', 'varyorderselector']
    if ins['grat'] == 'stack':
        funcs += ['bartilt', 'bartilt']
    f = rng.choice(funcs)
    par = (['grat'] if ins['grat'] != 'single' else []) + (['det'] if ins['det'] == 'par' else [])
    n = rng.choice([0, 1, 2, 2, 3, 5])
    if kind != 'run':
        n = max(n, 1)
    if f in ('moveglobal', 'moveindividual', 'wiggle'):
        tgt = rng.choice(par)
        ps = [gen_six(rng, f == 'wiggle') for _ in range(n)]
    elif f == 'moveelem':
        tgt = rng.choice((['gratel', 'detel', 'mirror']))
        ps = [gen_six(rng) for _ in range(n)]
    elif f == 'varyattribute':
        tgt = 'scatter'
        two = rng.random() < .5
        ps = []
        for _ in range(n):
            p = {'inplanescatter': [rng.choice([0., lib.U(rng, 0, 60)]), rng.choice(['arcsec', 'arcsec', 'arcmin'])]}
            if two:
                p['perpplanescatter'] = [rng.choice([0., lib.U(rng, 0, 60)]), 'arcsec']
            ps.append(p)
    elif f == 'varyperiod':
        tgt = 'gratel'
        ps = [{'period_mean': lib.U(rng, 5e-4, 1e-3), 'period_sigma': rng.choice([0., lib.U(rng, 0, 5e-5)])} for _ in range(n)]
    elif f == 'varyorderselector':
        tgt = 'gratel'
        ps = [{'orderlist': rng.sample(range(-3, 4), 2), 'p': rng.choice([None, [.25, .5]])} for _ in range(n)]
        for p in ps:
            if p['p'] is None:
                p.pop('p')
        if kind != 'run':
            for p in ps:
                p['p'] = [.3, .6]
    else:
        tgt = 'grat'
        ps = [dict(gen_six(rng, True), max_bar_tilt=rng.choice([0., lib.U(rng, 0, .02)])) for _ in range(n)]
    if kind != 'run' and f not in ('varyattribute', 'varyperiod', 'varyorderselector'):
        # a table needs the same columns in every row
        keys = sorted({k for p in ps for k in p})
        ps = [{k: p.get(k, 0.) for k in keys} for p in ps]
    fault = None
    if rng.random() < .35:
        fault = {'where': rng.choice(['analyze', 'trial', 'line', 'line']), 'n': rng.randrange(0, 6), 'line': rng.choice([rng.randrange(1, 60), rng.randrange(1, 3000)])}
    return {'kind': kind, 'func': f, 'tgt': tgt, 'l_pars': ps, 'dup': rng.random() < .3, 'ana': rng.choice(['stats', 'stats', 'mutate', 'shared', 'capture', 'quantity', 'array']),
            'fault': fault, 'reset': rng.random() < .7, 'l_en': [lib.U(rng, .4, 2.) for _ in range(rng.choice([1, 2, 3]))], 'n_phot': rng.choice([1, 5, 30, 80]),
            'subclass': rng.random() < .4, 'unit': rng.choice(['keV', 'keV', 'eV']),
            'wl': gen_wigglelist(rng) if f in ('moveglobal', 'moveindividual', 'wiggle', 'moveelem') and rng.random() < .5 else None}


def gen(rng, i, tier):
    ins = gen_instr(rng)
    return {'ins': ins, 'l_camp': [gen_campaign(rng, ins) for _ in range(rng.choice([1, 1, 2, 3]))], 'n_probe': 40}


# ---------------------------------------------------------------- instrument

class MyGrating:
    """set below: a user's own class derived from CATGrating"""


def build(ins):
    from marxs import optics, simulator, source
    from marxs.missions.mitsnl.catgrating import CATL1L2Stack
    from marxs.design.rowland import RowlandTorus, RectangularGrid
    c = SkyCoord(30., 30., unit='deg')
    el = {'pnt': source.FixedPointing(coords=c), 'aper': optics.RectangleAperture(position=[F + 200., 0, 0], zoom=[1, 60., 60.])}
    if ins['mirror'] == 'lens':
        el['mirror'] = optics.PerfectLens(focallength=F, position=[F, 0, 0], zoom=[1, 80., 80.])
    else:
        el['mirror'] = optics.FlatStack(position=[F, 0, 0], zoom=[1, 80., 80.], elements=[optics.PerfectLens, optics.RadialMirrorScatter],
                                        keywords=[{'focallength': F}, {'inplanescatter': 5 * u.arcsec, 'perpplanescatter': 1 * u.arcsec}])
    sel = optics.OrderSelector(list(ins['orders']))
    n, w = ins['n'], ins['w']
    pos = {'position': [[.8 * F, (k - (n - 1) / 2) * (2 * w + 1), 0.] for k in range(n)]}
    z = np.array([1., w, ins['h']])
    if ins['grat'] == 'single':
        el['grat'] = optics.FlatGrating(d=ins['d'], order_selector=sel, position=[.8 * F, 0, 0], zoom=z)
    elif ins['grat'] == 'gas':
        el['grat'] = RectangularGrid(rowland=RowlandTorus(F / 2, F / 2), d_element=[2 * w, 2 * w], elem_class=optics.CATGrating, y_range=[-40., 40.], z_range=[-w, w],
                                     elem_args={'zoom': np.array([1., w, w]), 'd': ins['d'], 'order_selector': sel})
    elif ins['grat'] == 'stack':
        el['grat'] = simulator.Parallel(elem_class=CATL1L2Stack, elem_pos=pos, elem_args={'order_selector': sel, 'zoom': z})
    else:
        el['grat'] = simulator.Parallel(elem_class=optics.FlatGrating if ins['grat'] == 'flat' else optics.CATGrating, elem_pos=pos,
                                        elem_args={'d': ins['d'], 'order_selector': sel, 'zoom': z})
    if ins['det'] == 'single':
        el['det'] = optics.FlatDetector(zoom=[1, 60., 60.], pixsize=.1)
    else:
        el['det'] = simulator.Parallel(elem_class=optics.FlatDetector, elem_pos={'position': [[0, -30., 0], [0, 0., 0], [0, 30., 0]]}, id_col='CCD',
                                       elem_args={'zoom': np.array([1, 14.8, 14.8]), 'pixsize': .1})
    return el


ORDER = ['pnt', 'aper', 'mirror', 'grat', 'det']


def first_elem(el, tgt):
    return {'scatter': 'mirror', 'mirror': 'mirror', 'grat': 'grat', 'gratel': 'grat', 'det': 'det', 'detel': 'det'}[tgt]


def target(el, tgt):
    if tgt in ('mirror', 'grat', 'det'):
        return el[tgt]
    if tgt == 'scatter':
        return el['mirror'].elements[1]
    e = el[tgt[:-2]]
    return list(e.elements) if hasattr(e, 'elements') else e


def target_class(ins, tgt, subclass):
    """Class whose instances in the instrument are just the target."""
    from marxs import optics, simulator
    from marxs.optics.base import FlatOpticalElement
    from marxs.missions.mitsnl.catgrating import CATL1L2Stack
    from marxs.design.rowland import RectangularGrid, ElementsOnTorus
    if tgt == 'scatter':
        return optics.RadialMirrorScatter, subclass
    if tgt == 'mirror':
        return (optics.PerfectLens, subclass) if ins['mirror'] == 'lens' else (optics.FlatStack, False)
    if tgt == 'grat':
        if ins['grat'] == 'gas':
            return (ElementsOnTorus, True) if subclass else (RectangularGrid, False)
        return (simulator.Parallel, False) if ins['det'] == 'single' else None
    if tgt == 'det':
        return (simulator.Parallel, False) if ins['grat'] in ('single', 'gas') else None
    if tgt == 'detel':
        return optics.FlatDetector, subclass
    if ins['grat'] == 'stack':
        return CATL1L2Stack, subclass
    if ins['grat'] in ('cat', 'gas'):
        return (optics.FlatGrating, True) if subclass else (optics.CATGrating, False)
    return optics.FlatGrating, subclass


def functions():
    from marxs.design import tolerancing as t
    from marxs.missions.mitsnl.tolerances import wiggle_and_bar_tilt
    return {'moveglobal': t.moveglobal, 'moveindividual': t.moveindividual, 'wiggle': t.wiggle, 'moveelem': t.moveelem, 'varyattribute': t.varyattribute,
            'varyperiod': t.varyperiod, 'varyorderselector': t.varyorderselector, 'bartilt': wiggle_and_bar_tilt}


def real_pars(func, p):
    """Parameters of one trial as a user gives them."""
    from marxs.optics import OrderSelector
    if func == 'varyattribute':
        return {k: v[0] * u.Unit(v[1]) for k, v in p.items()}
    if func == 'varyorderselector':
        return dict({'order_selector': OrderSelector}, **copy.deepcopy(p))
    return dict(p)


def nominal(ins, c):
    from marxs.optics import OrderSelector
    f = c['func']
    if f == 'varyattribute':
        return {'inplanescatter': 5 * u.arcsec, 'perpplanescatter': 1 * u.arcsec}
    if f == 'varyperiod':
        return {'period_mean': ins['d'], 'period_sigma': 0.}
    if f == 'varyorderselector':
        return {'order_selector': OrderSelector, 'orderlist': list(ins['orders'])}
    from marxs.design.tolerancing import reset_6d
    if f == 'bartilt':
        return dict(reset_6d, max_bar_tilt=0.)
    return reset_6d


# ---------------------------------------------------------------- analysis functions

def stats(ph, kind):
    p = np.asarray(ph['probability'])
    out = {'n': len(ph), 'ptot': float(p.sum()), 'e': float(np.mean(ph['energy'])) if len(ph) else 0.,
           'cols': ','.join(sorted(ph.colnames))}
    if 'det_x' in ph.colnames:
        x = np.asarray(ph['det_x'], dtype=float)
        ok = np.isfinite(x)
        out['x'] = float(np.sum(x[ok]))
        out['nx'] = int(ok.sum())
    else:
        out.update(x=0., nx=-1)
    out['dir'] = float(np.abs(np.asarray(ph['dir'])).sum())
    o = np.asarray(ph['order'], dtype=float) if 'order' in ph.colnames else np.zeros(0)
    out['ord'] = float(np.nansum(np.abs(o[np.isfinite(o)])))
    if kind == 'array':
        out['arr'] = np.array([p.sum(), np.asarray(ph['pos'])[:, 1].sum()])
    return out


class Analyse:
    def __init__(self, kind, fault):
        self.kind, self.fault, self.n = kind, fault, 0
        self.shared = {}
        if kind == 'capture':
            from marxs.analysis.gratings import CaptureResAeff
            self.cap = CaptureResAeff(A_geom=2., orders=[-1, 0, 1], dispersion_coord='det_x')

    def __call__(self, ph):
        k = self.n
        self.n += 1
        if self.fault is not None and self.fault['where'] == 'analyze' and self.fault['n'] == k:
            self.fault['fired'] = True
            raise Boom(f'analysis {k}')
        out = self.pure(ph, k)
        if self.kind == 'mutate':
            ph['probability'][:] = 0
            ph['pos'][:] = 7.
            ph['energy'] = -1.
            ph['dir'][:] = 0
            ph.meta['scribble'] = k
            for v in ph.meta.values():
                if isinstance(v, list):
                    v.append('scribble')
            ph.remove_column('time')
        if self.kind == 'shared':
            self.shared.update(out)
            return self.shared
        return out

    def pure(self, ph, k):
        if self.kind == 'capture':
            if 'order' in ph.colnames and 'det_x' in ph.colnames:
                return self.cap(ph)
            return {'Aeff0': 0., 'Aeffgrat': 0., 'Aeff': np.zeros(3), 'Rgrat': 0., 'R': np.zeros(3)}
        out = stats(ph, self.kind)
        if self.kind == 'quantity':
            out['x'] = (out['x'] * u.mm).to([u.mm, u.cm][k % 2])
        return out


def same(a, b):
    if isinstance(a, u.Quantity) or isinstance(b, u.Quantity):
        return isinstance(a, u.Quantity) and isinstance(b, u.Quantity) and same(a.value, b.to_value(a.unit))
    if isinstance(a, (str, type)) or isinstance(b, (str, type)):
        return a == b
    if a is np.ma.masked or b is np.ma.masked:
        return (a is np.ma.masked or np.ma.is_masked(a) or (np.isscalar(a) and not np.isfinite(a))) and \
               (b is np.ma.masked or np.ma.is_masked(b) or (np.isscalar(b) and not np.isfinite(b)))
    a, b = np.ma.filled(np.ma.asarray(a, dtype=float), np.nan), np.ma.filled(np.ma.asarray(b, dtype=float), np.nan)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True))


def samekeys(a, b):
    return set(a) == set(b) and all(same(a[k], b[k]) if not isinstance(a[k], list) else a[k] == b[k] for k in a)


# ---------------------------------------------------------------- run

def snapshot(t):
    return t.copy(), copy.deepcopy(t.meta), list(t.colnames)


def unchanged(t, snap, who):
    if list(t.colnames) != snap[2]:
        raise Violation('input-changed', f'{who}: columns of the input photons are now {t.colnames}')
    d = lib.table_diff(t, snap[0], meta=False)
    if d:
        raise Violation('input-changed', f'{who}: input photons were changed: {d}')
    if repr(t.meta) != repr(snap[1]):
        raise Violation('input-changed', f'{who}: header of the input photons was changed')


def leaves(el):
    todo = [el[k] for k in ORDER[2:]]
    out = []
    while todo:
        e = todo.pop(0)
        out.append(e)
        todo.extend(getattr(e, 'elements', []))
    return out


def same_state(a, b, who, seed, n, what):
    la, lb = leaves(a), leaves(b)
    if len(la) != len(lb):
        raise Violation(what, f'{who}: {len(la)} elements instead of {len(lb)}')
    for x, y in zip(la, lb):
        if not np.allclose(x.pos4d, y.pos4d, rtol=0, atol=1e-9 * max(1, np.abs(y.pos4d).max())):
            raise Violation(what, f'{who}: {type(x).__name__} is at {x.pos4d.tolist()} instead of {y.pos4d.tolist()}')
    out = []
    for el in (a, b):
        np.random.seed(seed % 2**32)
        p = mk_source(1., n).generate_photons(n * u.s)
        for k in ORDER:
            p = el[k](p)
        out.append(p)
    d = lib.table_diff(out[0], out[1], meta=False, rtol=1e-9, atol=1e-9)
    if d:
        raise Violation(what, f'{who}: photons pass the instrument differently: {d}')


def mk_source(e, n):
    from marxs import source
    return source.PointSource(coords=SkyCoord(30., 30., unit='deg'), energy=e * u.keV, flux=1 / u.s / u.cm**2, geomarea=1 * u.cm**2)


class Src:
    """The user's source: a real one that notes the random state."""

    def __init__(self, n):
        self.real = mk_source(1., n)
        self.log = []

    @property
    def energy(self):
        return self.real.energy

    @energy.setter
    def energy(self, val):
        self.real.energy = val

    def generate_photons(self, t, **kw):
        self.log.append((np.random.get_state(), self.real.energy, t))
        return self.real.generate_photons(t, **kw)


def run(plan, obs):
    with contextlib.redirect_stdout(io.StringIO()):
        _run(plan, obs)


def _run(plan, obs):
    from marxs import simulator
    from marxs.design import tolerancing as tol
    ins = plan['ins']
    el = build(ins)
    fn = functions()
    seq = simulator.Sequence(elements=[el[k] for k in ORDER])
    for ci, c in enumerate(plan['l_camp']):
        pars = [real_pars(c['func'], p) for p in c['l_pars']]
        if c.get('wl'):
            pars = wigglelist(dict(c['wl'], which='individual') if c['func'] == 'wiggle' else c['wl'], f'campaign {ci}')
            obs.count('displacement-lists')
        if c['dup'] and len(pars) > 1:
            pars[-1] = pars[0]
        if c['kind'] != 'run' and (not pars or not c['l_en']):
            continue
        pcopy = copy.deepcopy(pars)
        first = ORDER.index(first_elem(el, c['tgt']))
        cls = target_class(ins, c['tgt'], c['subclass'])
        kind = c['kind']
        if kind == 'energies2' and (cls is None):
            kind = 'energies'
        reset = nominal(ins, c) if (kind != 'run' and c['reset']) else None
        rcopy = copy.deepcopy(reset)
        who = f'campaign {ci} ({kind}, {c["func"]} on {c["tgt"]})'
        en = (np.array(c['l_en']) * u.keV).to(u.Unit(c['unit']))
        encopy = en.copy()
        # input photons
        if kind == 'run':
            np.random.seed((plan['seed'] + ci) % 2**32)
            pin = mk_source(c['l_en'][0] if c['l_en'] else 1., c['n_phot']).generate_photons(c['n_phot'] * u.s)
            fresh = build(ins)
            for k in ORDER[:first]:
                pin = fresh[k](pin)
            pin['usercol'] = np.arange(len(pin))
            pin.meta['userlist'] = ['a', 'b']
            snap = snapshot(pin)
        attempts = [dict(c['fault']), None] if c['fault'] is not None else [None]
        for fault in attempts:
            ana = Analyse(c['ana'], fault)
            src = Src(c['n_phot'])
            trials = []

            def wig(parts, **kw):
                k = len(trials)
                trials.append((np.random.get_state(), parts, kw))
                if fault is not None and fault['where'] == 'trial' and fault['n'] == k:
                    fault['fired'] = True
                    raise Boom(f'trial {k}')
                return fn[c['func']](parts, **kw)
            rem = simulator.Sequence(elements=[el[k] for k in ORDER[first:]])
            np.random.seed((plan['seed'] + 77 * ci + 1) % 2**32)

            def campaign():
                if kind == 'run':
                    return tol.run_tolerances(pin, rem, wig, target(el, c['tgt']), pars, ana)
                if kind == 'energies':
                    return tol.run_tolerances_for_energies(src, en, simulator.Sequence(elements=[el[k] for k in ORDER[:first]]), rem, wig, target(el, c['tgt']),
                                                           pars, ana, reset=reset, t_source=c['n_phot'] * u.s)
                return tol.run_tolerances_for_energies2(src, en, seq, cls[0], wig, pars, ana, reset=reset, subclass_ok=cls[1], t_source=c['n_phot'] * u.s)
            res, failed = call(campaign, fault, obs, who)
            unch(pars, pcopy, reset, rcopy, en, encopy, who)
            if kind == 'run':
                unchanged(pin, snap, who)
            if not failed:
                break
        ntr = len(pars) * (1 if kind == 'run' else len(en)) + (1 if reset is not None else 0)
        if len(trials) != ntr:
            raise Violation('trials', f'{who}: the trial function was called {len(trials)} times, expected {ntr}')
        if kind == 'run':
            if not isinstance(res, list) or len(res) != len(pars):
                raise Violation('rows', f'{who}: {len(res)} results for {len(pars)} trials')
        elif len(res) != len(pars) * len(en):
            raise Violation('rows', f'{who}: {len(res)} rows for {len(pars)} trials at {len(en)} energies')
        k = 0
        for ie in range(1 if kind == 'run' else len(en)):
            for ip, p in enumerate(pcopy):
                want, n = alone(ins, c, kind, p, ie, en, trials[k][0], src, first, snap[0] if kind == 'run' else None, ana, k, cls if kind == 'energies2' else None)
                check_row(res[k], p, want, kind, en[ie] if kind != 'run' else None, f'{who}, row {k}', pcopy[0])
                k += 1
        obs.count('trials-compared', k)
        if reset is not None:
            same_state(el, build(ins), who + ': after the final reset', plan['seed'] + ci, plan['n_probe'], 'not-reset')
        elif pars:
            last = build(ins)
            np.random.set_state(trials[-1][0])
            fn[c['func']](target(last, c['tgt']), **pcopy[-1])
            same_state(el, last, who + ': after the last trial', plan['seed'] + ci, plan['n_probe'], 'last-state')
            fn[c['func']](target(el, c['tgt']), **nominal(ins, c))
            same_state(el, build(ins), who + ': after resetting by hand', plan['seed'] + ci, plan['n_probe'], 'not-reset')
        obs.event(ci, kind, c['func'], c['tgt'], len(trials), repr(c['fault']))
        obs.state(kind, c['func'], c['tgt'], len(pars), c['ana'], (c['fault'] or {}).get('where'))
        obs.simtime += c['n_phot'] * len(trials)
        if len(pars) > 1:
            obs.nontrivial = True


def unch(pars, pcopy, reset, rcopy, en, encopy, who):
    if len(pars) != len(pcopy) or not all(samekeys(a, b) for a, b in zip(pars, pcopy)):
        raise Violation('parameters-changed', f'{who}: the list of parameters was changed to {pars}')
    if reset is not None and not samekeys(reset, rcopy):
        raise Violation('parameters-changed', f'{who}: reset was changed to {reset}')
    if not same(en, encopy):
        raise Violation('parameters-changed', f'{who}: the energies were changed')


def call(campaign, fault, obs, who):
    if fault is None:
        return campaign(), False
    if fault['where'] == 'line':
        n = [0]

        def hook(code, lineno):
            n[0] += 1
            if n[0] == fault['line']:
                raise Interrupt()
        try:
            with world.Steps(None, hook):
                res = campaign()
        except Interrupt:
            obs.fault('interrupt')
            return None, True
        if n[0] >= fault['line']:
            raise Violation('error-swallowed', f'{who}: an interrupt did not reach the caller')
        return res, False
    try:
        res = campaign()
    except Boom:
        obs.fault('failing-' + fault['where'])
        return None, True
    if fault.get('fired'):
        raise Violation('error-swallowed', f'{who}: a failure of the {fault["where"]} function did not reach the caller')
    return res, False


def alone(ins, c, kind, p, ie, en, state, src, first, pin, ana, k, cls):
    """The same trial on a new instrument."""
    el = build(ins)
    if kind == 'run':
        ph = pin.copy()
    else:
        e = en[ie].to_value(u.keV)
        np.random.set_state(src.log[ie][0])
        ph = mk_source(e, c['n_phot']).generate_photons(c['n_phot'] * u.s)
        for q in ORDER[:first]:
            ph = el[q](ph)
    np.random.set_state(state)
    functions()[c['func']](target(el, c['tgt']), **copy.deepcopy(p))
    for q in ORDER[first:]:
        ph = el[q](ph)
    return ana.pure(ph, k), len(ph)


def check_row(row, p, want, kind, e, who, p0):
    cols = list(row.keys()) if kind == 'run' else list(row.colnames)
    expect = set(p) | set(want) | ({'energy', 'wave'} if kind != 'run' else set())
    if set(cols) != expect:
        raise Violation('columns', f'{who}: has {sorted(cols)} instead of {sorted(expect)}')
    if kind == 'run':
        for k in p:
            if not (row[k] == p[k] if isinstance(p[k], (list, type)) else same(row[k], p[k])):
                raise Violation('label', f'{who}: {k} = {row[k]} instead of {p[k]}')
        for k in want:
            if not same(row[k], want[k]):
                raise Violation('result', f'{who}: {k} = {row[k]!r}, the same trial alone gives {want[k]!r}', key='result')
        return
    if not np.isclose(u.Quantity(row['energy'], e.unit).value, e.value, rtol=1e-12):
        raise Violation('label', f'{who}: energy {row["energy"]} instead of {e}')
    if not np.isclose(u.Quantity(row['wave'], u.Angstrom).value, e.to_value(u.Angstrom, u.spectral()), rtol=1e-9):
        raise Violation('label', f'{who}: wave {row["wave"]} for energy {e}')
    for k in list(p) + list(want):
        v = p.get(k, want.get(k))
        x = row[k]
        if isinstance(v, u.Quantity):
            # tables hold numbers; the unit is the one of the first row
            if not any(np.isclose(float(x), v.to_value(q), rtol=1e-9, atol=1e-12) for q in ([p0[k].unit] if k in p else [u.mm, u.cm])):
                raise Violation('label' if k in p else 'result', f'{who}: {k} = {x} instead of {v}')
        elif isinstance(v, type):
            if x is not v:
                raise Violation('label', f'{who}: {k} = {x} instead of {v}')
        elif not same(x, v):
            raise Violation('label' if k in p else 'result', f'{who}: {k} = {x!r} instead of {v!r}', key='label' if k in p else 'result')
