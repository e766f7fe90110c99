"""C11: positions of nested elements follow any history of alignment changes."""
import copy
import math
import numpy as np
import astropy.units as u
from astropy.table import Table
from sim import lib, world
from sim.core import Violation, HarnessError

ID = 'C11'
TECHNIQUE = ('deterministic simulation: seeded histories of alignment operations (moveglobal, moveindividual, wiggle, moveelem, move_center, edits by hand, regeneration, '
             'copies, operations on lists) interleaved over several assemblies with refused and interrupted operations and photon runs in between; after every step every '
             'element of every assembly is compared with an independent model of the composed position, and photons with freshly built elements at the model positions')
RULE = 'at least two operations changed a position; distinct = distinct event log'
STATE_MEASURE = 'hash of (assembly kind, last two operations, pending edits, abort)'
ASSUMPTIONS = ['misalignments are rotations and translations, as documented', 'the reference center is moved by rotations and translations',
               'an operation that was refused or interrupted is followed by a regeneration before positions are compared',
               'the placement of elements on the Rowland torus itself is taken as nominal']
REAL = ['marxs.simulator.Parallel', 'marxs.missions.chandra (ACIS, HETG)', 'marxs.design.tolerancing', 'marxs.design.rowland', 'marxs.optics']
STUB = ['interrupts']
N = {'quick': 1500, 'thorough': 40000}


class Interrupt(BaseException):
    pass


# ------------------------------------------------------------------ plans

def gen_rigid(rng, big=True):
    s = rng.choice([1e-3, .1, 1., 30.]) if big else .1
    return {'t': [rng.choice([0., lib.U(rng, -s, s)]) for _ in range(3)], 'r': [rng.choice([0., lib.U(rng, -1, 1) * rng.choice([1e-3, .1, 1.5])]) for _ in range(3)]}


def gen_elpos(rng, n, rigid=False):
    out = []
    for k in range(n):
        m = gen_rigid(rng)
        m['t'] = [lib.U(rng, -5, 5), lib.U(rng, -60, 60), lib.U(rng, -60, 60)]
        m['z'] = 1. if rigid or rng.random() < .7 else lib.U(rng, .5, 2)
        out.append(m)
    return out


def gen_args(rng, n):
    a = {'posoff': rng.choice([None, None, [lib.U(rng, -3, 3) for _ in range(3)]]), 'rotoff': rng.choice([None, None, [lib.U(rng, -1, 1) for _ in range(3)]]),
         'zoom': rng.choice([None, 'vec', 'list']), 'z': [lib.U(rng, 1, 30) for _ in range(max(n, 3))],
         'what': rng.choice(['det', 'det', 'grat', 'grat', 'cat', 'stack', 'thin', 'lens']), 'd': [lib.U(rng, 2e-4, 1e-3) for _ in range(n)], 'dlist': rng.random() < .5}
    return a


def gen_asm(rng):
    k = rng.choice(['par', 'par', 'par', 'nest', 'nest', 'gas', 'grid', 'mesh', 'single', 'single'])
    a = {'kind': k, 'own': gen_rigid(rng)}
    j = rng.random()
    if j < .06:
        a.update(kind='acis', aim=rng.choice(['ACIS-I', 'ACIS-S']), chips=rng.sample(range(10), rng.randint(1, 6)))
        return a
    if j < .065:
        a['kind'] = 'hetg'
        return a
    if k == 'single':
        a['what'] = rng.choice(['det', 'grat', 'cat', 'stack', 'thin', 'lens', 'catstack', 'lensstack', 'nested', 'circ'])
        a['z'] = [lib.U(rng, 1, 30) for _ in range(3)]
        a['d'] = lib.U(rng, 2e-4, 1e-3)
        return a
    if k in ('gas', 'grid', 'mesh'):
        a.update(R=lib.U(rng, 400, 900), de=lib.U(rng, 20, 45), rmax=lib.U(rng, 50, 90), cat=rng.random() < .5, off=rng.choice([0, 5]))
        return a
    n = rng.randint(1, 5)
    a.update(n=n, pos=gen_elpos(rng, n), form=rng.choice(['dict', 'dict', 'dict4', 'list']), args=gen_args(rng, n), off=rng.choice([0, 0, 3]), ownz=rng.choice([1., 1., 2.]),
             share=rng.random() < .3)
    if k == 'nest':
        m = rng.randint(1, 4)
        a.update(m=m, outer=gen_elpos(rng, m, rigid=True), oargs=gen_args(rng, m))
    return a


OPS = ['moveglobal', 'moveglobal', 'moveindividual', 'wiggle', 'moveelem', 'moveelem', 'move_center', 'edit_pos', 'edit_unc', 'edit_eunc', 'generate', 'reset',
       'observe', 'shear', 'copy']


def gen(rng, i, tier):
    asms = [gen_asm(rng) for _ in range(rng.choice([1, 2, 2, 3]))]
    ops = []
    for _ in range(rng.choice([2, 4, 8, 16])):
        o = {'op': rng.choice(OPS), 'a': rng.randrange(8), 'path': [rng.randrange(6), rng.randrange(6)], 'depth': rng.choice([0, 0, 0, 1, 2]), 'm': gen_rigid(rng),
             'sig': [rng.choice([0., lib.U(rng, 0, 1)]) for _ in range(6)], 'inplace': rng.random() < .5, 'gen': rng.random() < .7, 'list': rng.random() < .25,
             'abort': rng.choice([None, None, None, None, None, rng.randrange(1, 40), rng.randrange(1, 300)]), 'same': rng.random() < .15, 'e': rng.randrange(10)}
        ops.append(o)
    return {'l_asms': asms, 'l_ops': ops, 'n_phot': rng.choice([3, 10, 40])}


# ------------------------------------------------------------------ model

def rot(r):
    """static x, y, z rotations"""
    c, s = np.cos(r), np.sin(r)
    rx = np.array([[1, 0, 0], [0, c[0], -s[0]], [0, s[0], c[0]]])
    ry = np.array([[c[1], 0, s[1]], [0, 1, 0], [-s[1], 0, c[1]]])
    rz = np.array([[c[2], -s[2], 0], [s[2], c[2], 0], [0, 0, 1.]])
    return rz @ ry @ rx


def aff(t=(0, 0, 0), r=None, z=1.):
    m = np.eye(4)
    m[:3, :3] = (np.eye(3) if r is None else np.asarray(r)) @ np.diag(np.ones(3) * np.asarray(z))
    m[:3, 3] = t
    return m


def mat(m):
    return aff(m['t'], rot(np.array(m['r'])), m.get('z', 1.))


def parts(m):
    """translation, rotation, zoom of a matrix without shear"""
    z = np.linalg.norm(m[:3, :3], axis=0)
    return m[:3, 3], m[:3, :3] / z, z


def compose(P, U, V, E, A):
    (tv, rv, zv), (te, re, ze), (ta, ra, za) = parts(V), parts(E), parts(A)
    return P @ U @ aff(tv) @ aff(te) @ aff(ta) @ aff(r=rv) @ aff(r=re) @ aff(r=ra) @ aff(z=zv) @ aff(z=ze) @ aff(z=za)


class Leaf:
    def __init__(self, pos, build):
        self.nominal = pos
        self.move = np.eye(4)
        self.build = build           # build(pos4d) -> independent real element

    @property
    def pos(self):
        return self.move @ self.nominal

    def leaves(self, real):
        yield self, real


class Asm:
    """Model of a Parallel."""

    def __init__(self, P, E, A, mk, show=None):
        self.show = range(len(E)) if show is None else show    # elements that are in use
        self.P = P
        self.E = E
        self.A = A
        self.mk = mk                 # mk(i, pos) -> Leaf or Asm
        self.U = np.eye(4)
        self.V = [np.eye(4) for _ in E]
        self.broken = False
        self.generate()

    def generate(self):
        self.el = [self.mk(i, compose(self.P, self.U, self.V[i], self.E[i], self.A[i])) for i in self.show]

    def leaves(self, real):
        if len(real.elements) != len(self.el):
            raise Violation('count', f'{len(real.elements)} elements instead of {len(self.el)}')
        for m, r in zip(self.el, real.elements):
            yield from m.leaves(r)


# ------------------------------------------------------------------ real objects

def lens_rough():
    from marxs import optics
    return optics.PerfectLens


def leafargs(a, i=None):
    """class and keywords (without position) of a leaf; i: element for lists of keywords"""
    from marxs import optics
    w = a['what']
    d = a['d'] if i is None else a['d'][i]
    sel = optics.OrderSelector([-1, 0, 1])
    if w == 'det':
        return optics.FlatDetector, {'pixsize': .1, 'ignore_pixel_warning': True}
    if w in ('grat', 'cat'):
        return (optics.FlatGrating if w == 'grat' else optics.CATGrating), {'d': d, 'order_selector': sel}
    if w == 'thin':
        return optics.ThinLens, {'focallength': 500.}
    if w == 'lens':
        return optics.PerfectLens, {'focallength': 500.}
    if w == 'stack':
        return optics.FlatStack, {'elements': (optics.EnergyFilter, optics.FlatGrating),
                                  'keywords': ({'filterfunc': half}, {'d': d, 'order_selector': sel})}
    if w == 'lensstack':
        return optics.FlatStack, {'elements': (optics.PerfectLens, optics.EnergyFilter, optics.FlatGrating),
                                  'keywords': ({'focallength': 500.}, {'filterfunc': half}, {'d': d, 'order_selector': sel})}
    if w == 'nested':
        return optics.FlatStack, {'elements': (optics.EnergyFilter, optics.FlatStack),
                                  'keywords': ({'filterfunc': half}, {'elements': [optics.FlatGrating], 'keywords': [{'d': d, 'order_selector': sel}]})}
    if w == 'catstack':
        from marxs.missions.mitsnl.catgrating import CATL1L2Stack
        return CATL1L2Stack, {'order_selector': sel, 'd': d}
    if w == 'circ':
        return optics.CircularDetector, {'pixsize': .1}
    raise HarnessError(w)


def half(e):
    return .5 * np.ones_like(np.asarray(e, dtype=float))


def elem_args(a, n):
    """keywords of the elements as given to Parallel, and the model's matrix of the offset of each element"""
    cls, kw = leafargs(a, None if not isinstance(a['d'], list) else 0)
    kw = dict(kw)
    if 'd' in kw:
        kw['d'] = list(a['d']) if a['dlist'] else a['d'][0]
    elif a['what'] == 'stack' and a['dlist']:
        kw['keywords'] = [leafargs(a, k)[1]['keywords'] for k in range(n)]
    A = [np.eye(4) for _ in range(n)]
    t = [0., 0., 0.]
    r = None
    z = [np.ones(3)] * n
    if a['posoff'] is not None:
        kw['position'] = np.array(a['posoff'])
        t = a['posoff']
    if a['rotoff'] is not None:
        r = rot(np.array(a['rotoff']))
        kw['orientation'] = r.copy()
    if a['zoom'] == 'vec':
        kw['zoom'] = np.array([1., a['z'][0], a['z'][1]])
        z = [kw['zoom'].copy()] * n
    elif a['zoom'] == 'list':
        kw['zoom'] = [np.array([1., x, 2 * x]) for x in a['z'][:n]]
        z = [np.array([1., x, 2 * x]) for x in a['z'][:n]]
    A = [aff(t, r, z[k]) for k in range(n)]
    return cls, kw, A


def frozen(kw):
    return {k: repr(v) for k, v in kw.items() if not isinstance(v, dict)}


def unchanged(kw, before):
    """the keywords can be used again for another assembly"""
    now = frozen(kw)
    if now != before:
        diff = sorted(k for k in set(now) | set(before) if now.get(k) != before.get(k))
        raise Violation('keywords-changed', f'building an assembly changed the keywords for the elements: {[(k, before.get(k), now.get(k)) for k in diff]}'[:300], key='keywords-changed')


def leaf_builder(a, n, id_off, id_col):
    def build(i, pos):
        def make(p):
            cls, kw = leafargs(a, i if a['dlist'] else 0)
            return cls(pos4d=p.copy(), id_num=id_off + i, id_col=id_col, **kw)
        return Leaf(pos, make)
    return build


def elem_pos(pos, form, cache=None):
    if form == 'dict':
        return {'position': [list(m['t']) for m in pos], 'orientation': [rot(np.array(m['r'])) for m in pos], 'zoom': [m.get('z', 1.) for m in pos]}
    if form == 'dict4':
        return {'pos4d': [mat(m) for m in pos]}
    return [mat(m) for m in pos]


def make(a):
    """-> (real object, model)"""
    from marxs.simulator import Parallel
    from marxs.design import rowland
    from marxs import optics
    from marxs.math.geometry import Cylinder
    if a['kind'] == 'single':
        P = aff(a['own']['t'], rot(np.array(a['own']['r'])), [1., a['z'][0], a['z'][1]])
        cls, kw = leafargs(a)
        if a['what'] == 'circ':
            P = mat(a['own'])
            P = P @ aff(z=[a['z'][0] * 3, a['z'][0] * 3, a['z'][1]])

        def build(p):
            c, k = leafargs(a)
            return c(pos4d=p.copy(), **k)
        return build(P), Leaf(P, build)
    P = mat(a['own'])
    if a['kind'] in ('acis', 'hetg'):
        from marxs.missions import chandra
        if a['kind'] == 'acis':
            obj = chandra.ACIS(chips=list(a['chips']), aimpoint=chandra.AIMPOINTS[a['aim']], pos4d=P)
        else:
            obj = chandra.HETG()
            P = np.array(obj.pos4d)

        def mk(i, pos):
            if a['kind'] == 'acis':
                from marxs.missions.chandra.det_acis import ACISChip

                def b(p):
                    return ACISChip(pos4d=p.copy(), id_num=i, id_col='CCD_ID', pixsize=.024)
            else:
                e0 = obj.elements[i]

                def b(p):
                    return optics.FlatGrating(pos4d=p.copy(), id_num=i, id_col='facet', d=e0._d, groove_angle=obj.elem_args['groove_angle'][i],
                                              order_selector=optics.OrderSelector(np.arange(-3, 4)))
            return Leaf(pos, b)
        # the corners in the design files are rounded; the remaining shear is dropped
        from transforms3d.affines import decompose44
        E = [aff(*decompose44(p)[:3]) for p in obj.elem_pos]
        return obj, Asm(P, E, [np.eye(4)] * len(E), mk, show=a.get('chips'))
    if a['kind'] in ('gas', 'grid', 'mesh'):
        cls = optics.CATGrating if a['cat'] else optics.FlatGrating
        kw = {'d': 5e-4, 'order_selector': optics.OrderSelector([-1, 1]), 'zoom': np.array([1., a['de'] / 2.2, a['de'] / 2.2])}
        okw = dict(d_element=[a['de'], a['de']], elem_class=cls, elem_args=kw, id_num_offset=a['off'], pos4d=P)
        for R in (a['R'], 2 * a['R'], 700., 1000.):
            okw['rowland'] = rowland.RowlandTorus(R, R)
            try:
                if a['kind'] == 'gas':
                    obj = rowland.GratingArrayStructure(radius=[10., a['rmax']], **okw)
                elif a['kind'] == 'mesh':
                    obj = rowland.CircularMeshGrid(radius=[a['de'], a['rmax']], **okw)
                else:
                    obj = rowland.RectangularGrid(y_range=[-a['rmax'], a['rmax']], z_range=[-30, 30], **okw)
                break
            except Exception as e:
                if 'torus not found' not in str(e):
                    raise
        else:
            raise HarnessError('no torus')
        if not obj.elem_pos:
            raise HarnessError('empty assembly')
        E = [np.array(p) for p in obj.elem_pos]

        def mk(i, pos):
            def b(p):
                return cls(pos4d=p.copy(), id_num=a['off'] + i, id_col='facet', d=5e-4, order_selector=optics.OrderSelector([-1, 1]))
            return Leaf(pos, b)
        return obj, Asm(P, E, [aff(z=[1., a['de'] / 2.2, a['de'] / 2.2])] * len(E), mk)
    n = a['n']
    cls, kw, A = elem_args(a['args'], n)
    E = [mat(m) for m in a['pos']]
    build = leaf_builder(a['args'], n, a['off'], 'element')
    if a['kind'] == 'par':
        P = P @ aff(z=a['ownz'])
        before = frozen(kw)
        obj = Parallel(elem_class=cls, elem_pos=elem_pos(a['pos'], a['form']), elem_args=kw, id_num_offset=a['off'], pos4d=P.copy())
        unchanged(kw, before)
        return obj, Asm(P, E, A, build)
    # an assembly of assemblies
    m = a['m']
    oa = a['oargs']
    okw = {'elem_class': cls, 'elem_pos': elem_pos(a['pos'], a['form'] if a['form'] != 'list' or n != m else 'dict'), 'elem_args': kw, 'id_num_offset': a['off']}
    t, r = [0., 0., 0.], None
    if oa['posoff'] is not None:
        okw['position'] = np.array(oa['posoff'])
        t = oa['posoff']
    if oa['rotoff'] is not None:
        okw['orientation'] = rot(np.array(oa['rotoff']))
        r = rot(np.array(oa['rotoff']))
    before = frozen(okw), frozen(kw)
    obj = Parallel(elem_class=Parallel, elem_pos=elem_pos(a['outer'], 'list' if a['form'] == 'list' else 'dict'), elem_args=okw, id_num_offset=7, pos4d=P.copy())
    unchanged(okw, before[0])
    unchanged(kw, before[1])

    def mk(i, pos):
        return Asm(pos, [e.copy() for e in E], A, build)
    return obj, Asm(P, [mat(x) for x in a['outer']], [aff(t, r)] * m, mk)


# ------------------------------------------------------------------ comparison

def compare(real, model, who):
    if isinstance(model, Leaf):
        check_leaf(real, model, who)
        return 1
    n = 0
    if not np.allclose(real.pos4d, model.P, rtol=0, atol=1e-7 * max(1., np.abs(model.P).max())):
        raise Violation('assembly-position', f'{who}: pos4d of the assembly is {real.pos4d.tolist()} instead of {model.P.tolist()}')
    if len(real.elements) != len(model.el):
        raise Violation('count', f'{who}: {len(real.elements)} elements instead of {len(model.el)}')
    for k, (r, m) in enumerate(zip(real.elements, model.el)):
        n += compare(r, m, f'{who}, element {k}')
    return n


def check_leaf(real, leaf, who):
    todo = [real]
    while todo:
        r = todo.pop()
        if not np.allclose(r.pos4d, leaf.pos, rtol=0, atol=1e-7 * max(1., np.abs(leaf.pos).max())):
            raise Violation('position', f'{who} ({type(r).__name__}) is at {np.round(r.pos4d, 9).tolist()} instead of {np.round(leaf.pos, 9).tolist()}')
        if not np.allclose(r.geometry['center'], leaf.pos[:, 3], rtol=0, atol=1e-7 * max(1., np.abs(leaf.pos).max())):
            raise Violation('position', f'{who}: center {r.geometry["center"]} instead of {leaf.pos[:, 3]}')
        todo.extend(getattr(r, 'elements', []))


def photons_for(leaves, n, seed):
    r = np.random.RandomState(seed)
    pos, d = [], []
    for k in range(n):
        m = leaves[r.randint(len(leaves))][0].pos
        target = m @ np.append([0.], np.append(r.uniform(-1.2, 1.2, 2), 1.))
        nrm = np.cross(m[:3, 1], m[:3, 2])
        v = nrm / np.linalg.norm(nrm) * r.choice([-1, 1]) + r.normal(size=3) * .2
        v /= np.linalg.norm(v)
        d.append(np.append(v, 0))
        pos.append(np.append(target[:3] - v * r.uniform(1, 400), 1))
    d = np.array(d).reshape(-1, 4)
    pol = np.cross(d[:, :3], [.3, .5, .7])
    pol /= np.linalg.norm(pol, axis=1)[:, None]
    return Table({'pos': np.array(pos).reshape(-1, 4), 'dir': d, 'polarization': np.hstack([pol, np.zeros((len(pol), 1))]), 'energy': r.uniform(.5, 2, n),
                  'probability': np.ones(n), 'time': np.arange(n, dtype=float)}, meta={'ROLL_PNT': (25., 'roll')})


def observe(real, model, n, seed, who, obs):
    leaves = list(model.leaves(real))
    if not leaves:
        return
    p0 = photons_for(leaves, n, seed)
    a, b = p0.copy(), p0.copy()
    np.random.seed(seed % 2**32)
    a = real(a)
    np.random.seed(seed % 2**32)
    for leaf, r in leaves:
        b = leaf.build(leaf.pos)(b)
    obs.count('photons-compared', n)
    dif = lib.table_diff(a, b, meta=False, rtol=1e-6, atol=1e-6, ignore=('detpix_x', 'detpix_y'))
    if dif:
        raise Violation('photons', f'{who}: photons do not see the elements where they are: {dif}', key='photons')


# ------------------------------------------------------------------ run

def resolve(objs, models, o):
    """object and model an operation refers to"""
    k = o['a'] % len(objs)
    r, m, depth, who = objs[k], models[k], o['depth'], f'assembly {k}'
    for lev in range(depth):
        if isinstance(m, Leaf) or not m.el:
            break
        j = o['path'][lev] % len(m.el)
        r, m = r.elements[j], m.el[j]
        who += f', element {j}'
    return k, r, m, who


def to_leaf(r, m, o):
    lev = 0
    while isinstance(m, Asm):
        j = o['path'][lev % 2] % len(m.el)
        r, m = r.elements[j], m.el[j]
        lev += 1
    return r, m


def run(plan, obs):
    from marxs.design import tolerancing as tol
    from marxs.simulator import SimulationSetupError
    objs, models, kinds = [], [], []
    shared = {}
    for a in plan['l_asms']:
        r, m = make(a)
        objs.append(r)
        models.append(m)
        kinds.append(a['kind'] + a.get('what', ''))
    if not objs:
        return

    def check(label):
        for k in range(len(objs)):
            if not dirty(models[k]):
                obs.count('elements-compared', compare(objs[k], models[k], f'{label}: assembly {k} ({kinds[k]})'))
    check('after construction')
    last = None
    nchange = 0
    for step, o in enumerate(plan['l_ops']):
        k, r, m, who = resolve(objs, models, o)
        op = o['op']
        if dirty(models[k]) and m is not models[k]:
            m, r = models[k], objs[k]
            who = f'assembly {k}'
        if isinstance(m, Leaf) and op not in ('observe', 'copy', 'moveelem'):
            op = 'moveelem'
        if dirty(m) and op in ('observe', 'copy', 'moveelem'):
            op = 'generate'
        label = f'step {step}: {op} on {who}'
        kw = dict(zip(['dx', 'dy', 'dz', 'rx', 'ry', 'rz'], o['m']['t'] + o['m']['r']))
        M = mat(o['m'])
        same_kind = [(rr, mm) for j, (rr, mm) in enumerate(zip(objs, models)) if isinstance(mm, Asm) and j != k] if o['list'] and isinstance(m, Asm) else []
        targets = [(r, m)] + same_kind
        arg = [t[0] for t in targets] if o['list'] else r
        if op == 'reset':
            op, kw, M = ['moveglobal', 'moveindividual', 'moveelem'][o['e'] % 3], tol.reset_6d, np.eye(4)
            if op == 'moveelem' and dirty(m):
                op = 'moveglobal'
        nchange += op not in ('observe', 'generate', 'copy')
        interrupted = None
        if op == 'moveglobal':
            interrupted = call(o, obs, lambda: tol.moveglobal(arg, **kw))
            for rr, mm in targets:
                mm.U = M.copy()
                done(mm)
        elif op == 'moveindividual':
            interrupted = call(o, obs, lambda: tol.moveindividual(arg, **kw))
            for rr, mm in targets:
                mm.V = [M.copy() for _ in mm.E]
                done(mm)
        elif op == 'wiggle':
            skw = dict(zip(['dx', 'dy', 'dz', 'rx', 'ry', 'rz'], o['sig']))
            interrupted = call(o, obs, lambda: tol.wiggle(arg, **skw))
            for rr, mm in targets:
                mm.V = drawn(rr, mm, o['sig'], label)
                done(mm)
        elif op == 'moveelem':
            rl, ml = to_leaf(r, m, o)
            more = []
            if o['list'] and isinstance(models[k], Asm):
                more = [x for x in models[k].leaves(objs[k]) if x[0] is not ml]
            arg = [rl] + [x[1] for x in more] if o['list'] else rl
            interrupted = call(o, obs, lambda: tol.moveelem(arg, **kw))
            for mm in [ml] + [x[0] for x in more]:
                mm.move = M.copy()
        elif op == 'move_center':
            ch = np.linalg.inv(m.P) if o['same'] and abs(np.linalg.det(m.P) - 1) < 1e-9 else M
            r.move_center(ch)
            newP = ch @ m.P
            m.E = [np.linalg.inv(newP) @ m.P @ e for e in m.E]
            m.P = newP
            done(m)
        elif op in ('edit_pos', 'edit_eunc', 'edit_unc'):
            edit(op, o, r, m, M)
            m.broken = True
            if o['gen']:
                interrupted = call(o, obs, r.generate_elements)
                done(m)
        elif op == 'generate':
            interrupted = call(o, obs, r.generate_elements)
            done(m)
        elif op == 'shear':
            if not m.E:
                continue
            j = o['e'] % len(m.E)
            S = np.eye(4)
            S[0, 1] = .3 + abs(o['m']['t'][0])
            keep = r.elem_uncertainty[j]
            r.elem_uncertainty[j] = S
            try:
                r.generate_elements()
            except SimulationSetupError:
                obs.fault('refused-shear')
            else:
                raise Violation('shear-accepted', f'{label}: elem_uncertainty with shear is documented to be refused')
            r.elem_uncertainty[j] = keep
            r.generate_elements()
            done(m)
        elif op == 'copy':
            objs.append(copy.deepcopy(objs[k]))
            models.append(copy_model(models[k]))
            kinds.append(kinds[k] + '-copy')
        elif op == 'observe':
            observe(r, m, plan['n_phot'], step + plan['seed'], label, obs)
        if interrupted:
            label += ' (interrupted and repeated)'
        check(label)
        obs.event(step, op, who, interrupted)
        obs.state(kinds[k], last, op, isinstance(m, Leaf), bool(interrupted), bool(o['list']))
        last = op
    for k in range(len(objs)):
        if dirty(models[k]):
            objs[k].generate_elements()
            done(models[k])
    check('at the end')
    for k in range(len(objs)):
        observe(objs[k], models[k], plan['n_phot'], k + plan['seed'], f'assembly {k} ({kinds[k]}) at the end', obs)
    obs.nontrivial = nchange >= 2


def copy_model(m):
    if isinstance(m, Leaf):
        c = Leaf(m.nominal.copy(), m.build)
        c.move = m.move.copy()
        return c
    c = object.__new__(Asm)
    c.show = m.show
    c.P, c.E, c.A, c.mk, c.U, c.V, c.broken = m.P.copy(), [e.copy() for e in m.E], m.A, m.mk, m.U.copy(), [v.copy() for v in m.V], m.broken
    c.el = [copy_model(e) for e in m.el]
    return c


def dirty(m):
    return isinstance(m, Asm) and (m.broken or any(dirty(e) for e in m.el))


def done(m):
    m.broken = False
    m.generate()


def call(o, obs, func):
    """Run an operation; an interruption at a given line is followed by a repetition, as a user would do it."""
    if o['abort'] is None:
        func()
        return False
    n = [0]

    def hook(code, lineno):
        n[0] += 1
        if n[0] == o['abort']:
            raise Interrupt()
    try:
        with world.Steps(None, hook):
            func()
    except Interrupt:
        obs.fault('interrupted-operation')
        func()
        return True
    return False


def drawn(r, m, sig, label):
    v = [np.array(x) for x in r.elem_uncertainty]
    if len(v) != len(m.E):
        raise Violation('wiggle', f'{label}: {len(v)} displacements for {len(m.E)} elements')
    for x in v:
        if not np.allclose(x[:3, :3] @ x[:3, :3].T, np.eye(3), atol=1e-9):
            raise Violation('wiggle', f'{label}: displacement is not a rotation and translation: {x}')
        for j in range(3):
            if sig[j] == 0 and abs(x[j, 3]) > 1e-12:
                raise Violation('wiggle', f'{label}: displacement {x[j, 3]} along an axis with accuracy 0')
            if abs(x[j, 3]) > 8 * sig[j] + 1e-12:
                raise Violation('wiggle', f'{label}: displacement {x[j, 3]} for an accuracy of {sig[j]}')
        if not any(sig[3:]) and not np.allclose(x[:3, :3], np.eye(3), atol=1e-12):
            raise Violation('wiggle', f'{label}: rotated although the angles are accurate')
    for j in range(3):
        if sig[j] and len(v) > 1 and len({float(x[j, 3]) for x in v}) < len(v):
            raise Violation('wiggle', f'{label}: the same draw was used for several elements')
    return v


def edit(op, o, r, m, M):
    j = o['e'] % len(m.E)
    if op == 'edit_pos':
        m.E[j] = M @ m.E[j]
        if o['inplace']:
            r.elem_pos[j][:] = M @ r.elem_pos[j]
        else:
            r.elem_pos[j] = M @ r.elem_pos[j]
    elif op == 'edit_eunc':
        m.V[j] = M.copy()
        if o['inplace']:
            r.elem_uncertainty[j][:] = M
        else:
            r.elem_uncertainty[j] = M.copy()
    else:
        m.U = M.copy()
        if o['inplace']:
            r.uncertainty[:] = M
        else:
            r.uncertainty = M.copy()
