"""C19: exported scenes are complete, match the instrument, or the failure is reported."""
import contextlib
import copy
import io
import json
import os
import re
import subprocess
import sys
import tempfile
import warnings
import xml.etree.ElementTree as ET
import numpy as np
from sim import lib, world, sched
from sim.core import Violation, HarnessError

with contextlib.redirect_stdout(io.StringIO()):    # the x3d package greets
    import matplotlib
    import matplotlib.pyplot
    import zipfile
    import tarfile
    import urllib.request
    from marxs.visualization import x3d, threejs, threejsjson

ID = 'C19'
TECHNIQUE = ('deterministic simulation: seeded histories of moving, recolouring and exporting nested instruments and rays in all backends (x3d, three.js, three.js json), '
             'several exporting clients switched and interrupted at source lines by a seeded scheduler, files and archives written on a simulated disk and network with injected '
             'faults and crashes; every exported shape and ray is compared with positions and outlines computed independently (the three.js output is run '
             'through the loader that marxs ships)')
RULE = 'at least one exported scene with two or more items was compared, or an export met a fault; distinct = distinct event log (operations, shapes, faults, switch trace)'
STATE_MEASURE = 'hash of (kinds of elements, operation sequence, scheduling mode, fault kinds fired)'
ASSUMPTIONS = ['elements are larger than the documented rounding of coordinates (0.1 mm)', 'outlines of circles are compared to 1.5 % (they are drawn as polygons)',
               'an element that a backend cannot draw may be left out if a MARXSVisualizationWarning says so', 'colors in three.js output are not compared']
REAL = ['marxs.visualization.x3d', 'marxs.visualization.threejs', 'marxs.visualization.threejsjson', 'marxs.visualization.utils', 'MARXSloader.js', 'ModifiedTorusBufferGeometry.js', 'x3d package', 'zipfile, tarfile']
STUB = ['three.js itself (sim/js/three_stub.js)', 'scheduler (simulated threads)', 'disk', 'network (urlopen)']
N = {'quick': 1000, 'thorough': 30000}
TIMEOUT = 150

TOL = .0600001     # mm; coordinates are documented to be rounded to 0.1 mm
LEAVES = ['det', 'det', 'lens', 'stack', 'rect', 'circ', 'cyl', 'torus', 'hidden', 'unknown', 'baffle', 'grating', 'function', 'noshape']


def gen_pos(rng):
    return {'p': [round(rng.uniform(-500, 500), 3) for _ in range(3)], 'ax': [rng.uniform(-1, 1) for _ in range(3)], 'ang': rng.choice([0., rng.uniform(-3, 3)]),
            'zoom': [round(rng.uniform(1, 5), 2), round(rng.uniform(20, 300), 2), round(rng.uniform(20, 300), 2)]}


def gen_leaf(rng):
    k = rng.choice(LEAVES)
    out = {'kind': k, 'pos': gen_pos(rng), 'half': rng.choice([None, None, '+x', '-x', '+y', '-z', 'q', '']), 'color': rng.choice([None, None, 'red', '#10a0f0', [0., .5, 1.]]),
           'opacity': rng.choice([None, None, 0., .25, 1.])}
    if k in ('rect', 'circ'):
        out.update(outer=rng.choice([None, 1.5, 4]), r_inner=rng.choice([0., 0., .3, .7]), inner=rng.choice([None, 0., .5]),
                   phi=rng.choice([None, None, [0., 1.5], [-1., 2.], [1., 5.], [3., 7.]]))
    if k == 'cyl':
        out.update(phi=rng.choice([None, [-1., 1.], [0., 3.], [-3., -1.]]))
    if k == 'torus':
        out.update(R=round(rng.uniform(100, 500), 1), r=round(rng.uniform(50, 600), 1), coo=rng.choice([None, [[1., 2., 4], [-.2, .2, 3]], [[0., 6., 9], [.5, 3., 7]]]))
    return out


def gen_node(rng, depth=0):
    if depth < 3 and rng.random() < .35:
        k = rng.choice(['seq', 'seq', 'par', 'multi'])
        if k == 'par':
            return {'kind': 'par', 'l_pos': [gen_pos(rng) for _ in range(rng.randint(1, 4))], 'of': rng.choice(['det', 'stack', 'grating']), 'unc': rng.random() < .4, 'pos': gen_pos(rng)}
        if k == 'multi':
            return {'kind': 'multi', 'l_elems': [dict(gen_leaf(rng), kind=rng.choice(['rect', 'circ']), outer=None, r_inner=.3, inner=None, phi=None) for _ in range(2)]}
        return {'kind': 'seq', 'l_elems': [gen_node(rng, depth + 1) for _ in range(rng.randint(0, 4))]}
    leaf = gen_leaf(rng)
    return leaf if leaf['kind'] != 'torus' or depth == 0 else dict(leaf, kind='det')


def gen_op(rng, moves):
    o = rng.choice(['export'] * 5 + ['rays'] * 3 + ['file'] * 2 + ['archive'] * 2 + (['move', 'color', 'again', 'combine'] if moves else []))
    return {'op': o, 'backend': rng.choice(['x3d', 'x3d', 'json', 'js']), 'target': rng.choice([None, None, rng.randrange(8)]), 'scene': rng.choice([None, 0, 1]), 'rays': rng.randrange(3),
            'scalar': rng.choice([None, 'ray', 'ray', 'int', 'nan', 'allnan', 'point', 'same']), 'k': rng.randrange(12), 'pos': gen_pos(rng), 'how': rng.choice(['elem', 'par', 'edit']),
            'color': rng.choice(['b', 'orange', [.1, .2, .3]]), 'photons': rng.random() < .4, 'impl': rng.choice(['X3DOM', 'X_ITE', 'X3DOM']), 'format': rng.choice(['zip', 'zip', 'gztar', 'tar']),
            'l_afaults': [gen_afault(rng) for _ in range(rng.choice([0, 1, 2, 4]))] if o == 'archive' else [], 'fault': gen_fault(rng), 'net': rng.choice([None, None, None, 'refused', 'short', 'reset']), 'reuse': rng.random() < .5}


def gen_fault(rng):
    if rng.random() < .4:
        return None
    op = rng.choice(['write', 'write', 'write', 'open', 'close', '*', 'mkdir'])
    return {'op': op, 'n': rng.randrange(rng.choice([1, 3, 12])), 'kind': rng.choice(['EIO', 'ENOSPC', 'torn', 'crash', 'EACCES'] if op in ('write', '*') else ['EIO', 'ENOSPC', 'EACCES', 'crash']),
            'frac': round(rng.random(), 2)}


def gen_afault(rng):
    op = rng.choice(['write', 'write', 'open', 'close', '*'])
    return {'op': op, 'n': rng.randrange(40 if op == '*' else 8), 'kind': rng.choice(['EIO', 'ENOSPC', 'ENOSPC', 'torn', 'EACCES'] if op == 'write' else ['EIO', 'ENOSPC', 'EACCES', 'crash']),
            'frac': round(rng.random(), 2)}


def gen(rng, i, tier):
    conc = rng.random() < .3
    plan = {'l_elems': [gen_node(rng) for _ in range(rng.randint(1, 5))], 'mode': 'line' if conc else 'sequential', 'l_clients': [], 'l_switches': [], 'l_aborts': [],
            'l_rays': [{'n': rng.choice([0, 1, 2, 7, 40]), 'N': rng.choice([2, 3, 6]), 'seed': rng.randrange(2**31), 'levels': rng.choice([1, 2, 5, 1000]), 'dup': rng.random() < .3} for _ in range(3)]}
    for _ in range(rng.choice([2, 3]) if conc else 1):
        ops = [gen_op(rng, not conc) for _ in range(rng.randint(1, 3) if conc else rng.randint(1, 8))]
        if conc:
            ops = [o for o in ops if o['op'] in ('export', 'rays')] or [dict(ops[0], op='export')]
        plan['l_clients'].append({'l_ops': ops})
    if conc:
        scale = rng.choice([2, 10, 50])
        plan['l_switches'] = [[1 + int(rng.expovariate(1. / scale)), rng.randrange(4)] for _ in range(rng.randint(2, 60))]
        if rng.random() < .3:
            plan['l_aborts'].append([rng.randrange(len(plan['l_clients'])), rng.randint(1, rng.choice([20, 200]))])
    return plan


# ---------------------------------------------------------------- instruments

def some_function(photons):
    return photons


def mat(p):
    from marxs.math.utils import e2h  # noqa
    m = np.eye(4)
    m[:3, :3] = lib.axmat(p['ax'], p['ang']) @ np.diag(p['zoom'])
    m[:3, 3] = p['p']
    return m


def build(node, items):
    """Build one node.  `items` collects (kind, object, node) of all leaves in order."""
    from marxs import optics, simulator
    from marxs.design import RowlandTorus
    from astropy import units as u
    k = node['kind']
    if k == 'seq':
        return simulator.Sequence(elements=[build(n, items) for n in node['l_elems']])
    if k == 'multi':
        return optics.MultiAperture(elements=[build(n, items) for n in node['l_elems']])
    if k == 'par':
        cls, args = {'det': (optics.FlatDetector, {}), 'grating': (optics.FlatGrating, {'d': 1e-3, 'order_selector': optics.OrderSelector([0, 1])}),
                     'stack': (optics.FlatStack, {'elements': [[optics.FlatDetector, optics.EnergyFilter] for _ in node['l_pos']], 'keywords': [[{}, {'filterfunc': flat}] for _ in node['l_pos']]})}[node['of']]
        if not node['l_pos']:
            return simulator.Sequence(elements=[])
        p = simulator.Parallel(elem_class=cls, elem_pos=[mat(x) for x in node['l_pos']], elem_args=args)
        if node['unc']:
            p.elem_uncertainty = [mat(dict(node['pos'], zoom=[1, 1, 1])) for _ in node['l_pos']]
            p.generate_elements()
        for e in p.elements:
            items.append(['box', e, p])
        return p
    kw = {'pos4d': mat(node['pos'])}
    if k == 'function':
        items.append(['warn', some_function, None])
        return some_function
    if k == 'det' or k in ('hidden', 'unknown', 'noshape'):
        e = optics.FlatDetector(**kw)
        kind = {'det': 'box', 'hidden': 'none', 'unknown': 'warn', 'noshape': 'warn'}[k]
        if k == 'hidden':
            e.display['shape'] = 'boxxx; None'
        if k == 'unknown':
            e.display['shape'] = 'spiral'
        if k == 'noshape':
            e.display = {'color': 'red'}
    elif k == 'lens':
        e, kind = optics.PerfectLens(focallength=100., **kw), 'box'
    elif k == 'grating':
        e, kind = optics.FlatGrating(d=1e-3, order_selector=optics.OrderSelector([0, 1]), **kw), 'box'
    elif k == 'stack':
        e, kind = optics.FlatStack(elements=[optics.FlatDetector, optics.EnergyFilter], keywords=[{}, {'filterfunc': flat}], **kw), 'box'
    elif k == 'baffle':
        e, kind = optics.Baffle(**kw), 'warn'
        if hasattr(e.geometry, 'triangulate'):
            kind = 'tri'
    elif k == 'rect':
        e, kind = optics.RectangleAperture(**kw), 'tri'
    elif k == 'circ':
        z = node['pos']['zoom']
        args = dict(kw, pos4d=mat(dict(node['pos'], zoom=[z[0], z[1], z[1]])), r_inner=node['r_inner'] * z[1])
        if node['phi']:
            args['phi'] = list(node['phi'])
        e, kind = optics.CircleAperture(**args), 'tri'
    elif k == 'cyl':
        z = node['pos']['zoom']
        args = dict(kw, pos4d=mat(dict(node['pos'], zoom=[z[1], z[1], z[2]])))
        if node['phi']:
            args['phi_lim'] = list(node['phi'])
        e, kind = optics.CircularDetector(**args), 'surf'
    elif k == 'torus':
        e, kind = RowlandTorus(node['R'], node['r'], pos4d=mat(dict(node['pos'], zoom=[1, 1, 1]))), 'torus'
        if node['coo']:
            e.display['coo1'] = np.linspace(*node['coo'][0])
            e.display['coo2'] = np.linspace(*node['coo'][1])
    if k in ('rect', 'circ'):
        for a, b in (('outer', 'outer_factor'), ('inner', 'inner_factor')):
            if node[a] is not None:
                e.display[b] = node[a]
    if node['half'] is not None and kind == 'box':
        e.display['box-half'] = node['half']
    if kind != 'none' and k != 'noshape':
        for a in ('color', 'opacity'):
            if node[a] is not None:
                e.display[a] = tuple(node[a]) if isinstance(node[a], list) else node[a]
    items.append([kind, e, None])
    return e


def flat(energy):
    return np.ones(np.shape(energy))


def mk_rays(s):
    g = np.random.Generator(np.random.PCG64(s['seed']))
    d = g.uniform(-1000, 1000, (s['n'], s['N'], 3))
    if s['dup'] and s['n'] > 1:
        d[1] = d[0]
    return {'data': d, 'ray': np.floor(g.random(s['n']) * s['levels']) / 7., 'point': np.floor(g.random((s['n'], s['N'])) * s['levels']), 'seed': s['seed']}


def scalar_of(r, kind):
    if kind is None:
        return None
    if kind == 'int':
        return (r['ray'] * 7).astype(int)
    if kind == 'nan':
        x = r['ray'].copy()
        x[::3] = np.nan
        return x
    if kind == 'allnan':
        return np.full(len(r['ray']), np.nan)
    if kind == 'same':
        return np.full(len(r['ray']), 3.)
    return r[kind].copy()


def snap(items):
    out = []
    for kind, e, par in items:
        if hasattr(e, 'display'):
            d = {k: (np.array(v).tolist() if not isinstance(v, str) else v) for k, v in e.display.items() if k != 'color'}
            out.append((d, color_of(e), e.pos4d.copy() if hasattr(e, 'pos4d') else None, e.geometry.pos4d.copy() if hasattr(e, 'geometry') else None))
        else:
            out.append(None)
    return out


def same_snap(a, b):
    for x, y in zip(a, b):
        if x is None or y is None:
            if x is not y:
                return False
            continue
        if x[0] != y[0] or not np.allclose(x[1], y[1], atol=1e-12):
            return False
        for p, q in zip(x[2:], y[2:]):
            if (p is None) != (q is None) or (p is not None and not lib.same_array(p, q)):
                return False
    return len(a) == len(b)


def color_of(e):
    from matplotlib.colors import to_rgb
    return to_rgb(e.display['color']) if 'color' in e.display else (1., 1., 1.)


# ---------------------------------------------------------------- what should be there

CORNERS = np.array([[x, y, z] for x in (-1., 1.) for y in (-1., 1.) for z in (-1., 1.)])


def h(points, m):
    return points @ m[:3, :3].T + m[:3, 3]


def expected_items(w, target, backend):
    """list of expectations and number of warnings for exporting the whole instrument or one leaf"""
    if target is None:
        its = [it for it in w['items'] if it[0] != 'torus']
    else:
        its = w['tops'][target][1]
    out, nwarn = [], 0
    for it in its:
        kind, e = it[0], it[1]
        if kind == 'none':
            continue
        if kind == 'warn' or (kind == 'surf' and backend != 'x3d'):
            nwarn += 1
            continue
        exp = {'kind': kind, 'm': e.pos4d.copy(), 'color': color_of(e), 'opacity': e.display['opacity'] if 'opacity' in e.display else 1., 'cls': type(e).__name__}
        if kind == 'box':
            c = CORNERS.copy()
            half = e.display['box-half'] if 'box-half' in e.display else ''
            if backend == 'x3d' and len(half) == 2 and half[0] in '+-' and half[1] in 'xyz':
                j = 'xyz'.index(half[1])
                c[c[:, j] == (1 if half[0] == '+' else -1), j] = 0
            exp['corners'] = h(c, exp['m'])
        elif kind == 'tri':
            exp['circ'] = type(e).__name__ == 'CircleAperture'
            exp['outer'] = e.display['outer_factor']
            exp['inner'] = e.display['inner_factor']
            exp['r_inner'] = e.geometry['r_inner'] / np.linalg.norm(exp['m'][:3, 1])
            exp['phi'] = list(e.geometry.phi) if exp['circ'] else [0, 2 * np.pi]
        elif kind == 'surf':
            exp['phi'] = np.array(e.geometry.coos_limits[0], dtype=float)
        elif kind == 'torus':
            exp.update(R=e.R, r=e.r, c1=np.array(e.display['coo1']), c2=np.array(e.display['coo2']))
        out.append(exp)
    return out, nwarn


def covered(pts, tri):
    """Which of the points (n, 2) lie in any of the triangles (m, 3, 2)?"""
    a, b, c = tri[:, 0], tri[:, 1], tri[:, 2]
    area = (b[:, 0] - a[:, 0]) * (c[:, 1] - a[:, 1]) - (b[:, 1] - a[:, 1]) * (c[:, 0] - a[:, 0])
    ok = np.abs(area) > 1e-12
    a, b, c = a[ok], b[ok], c[ok]
    out = np.zeros(len(pts), bool)
    for k, p in enumerate(pts):
        def s(u, v):
            return (v[:, 0] - u[:, 0]) * (p[1] - u[:, 1]) - (v[:, 1] - u[:, 1]) * (p[0] - u[:, 0])
        d = np.stack([s(a, b), s(b, c), s(c, a)])
        out[k] = ((d >= -1e-9).all(axis=0) | (d <= 1e-9).all(axis=0)).any()
    return out


def match(exp, shape, backend):
    """None if the exported shape shows the expected element, otherwise what is wrong"""
    P = shape['points']
    if not np.isfinite(P).all():
        return 'coordinates are not finite'
    if 'color' in shape and backend == 'x3d':
        if not np.allclose(shape['rgb'], exp['color'], atol=.011):
            return f"color {shape['rgb']} instead of {exp['color']}"
        if not np.isclose(shape['transparency'], 1 - exp['opacity'], atol=.011):
            return f"transparency {shape['transparency']} instead of {1 - exp['opacity']}"
    inv = np.linalg.inv(exp['m'])
    if exp['kind'] == 'box':
        if len(P) < 8:
            return 'fewer than 8 corners'
        d = np.abs(P[:, None, :] - exp['corners'][None]).max(axis=-1)
        if d.min(axis=1).max() > TOL or d.min(axis=0).max() > TOL:
            return f'corners off by {max(d.min(axis=1).max(), d.min(axis=0).max()):.3g} mm'
        if shape.get('faces') is not None:
            who = CORNERS[d.argmin(axis=1)]
            seen = set()
            for f in shape['faces']:
                q = who[list(f)]
                if len(f) != 4:
                    return f'face with {len(f)} corners'
                axis = [j for j in range(3) if len(set(q[:, j])) == 1]
                if len(axis) != 1:
                    return 'corners of a face are not in a plane'
                if any(np.sum(q[i] != q[(i + 1) % 4]) != 1 for i in range(4)):
                    return 'corners of a face are not in order'
                seen.add((axis[0], q[0, axis[0]]))
            if len(seen) != 6 or len(shape['faces']) != 6:
                return f'{len(seen)} different of {len(shape["faces"])} faces'
        return None
    L = h(P, inv)
    if exp['kind'] == 'tri':
        scale = np.linalg.norm(exp['m'][:3, 0])
        if np.abs(L[:, 0]).max() * scale > 2 * TOL:
            return 'points outside the plane'
        faces = np.array(shape['faces'])
        if faces.size == 0 or faces.min() < 0 or faces.max() >= len(P):
            return 'triangles refer to points that do not exist'
        tri = L[:, 1:][faces]
        g = np.random.Generator(np.random.PCG64(5))
        f = exp['outer']
        pts = np.concatenate([g.uniform(-1.2 * f, 1.2 * f, (60, 2)), g.uniform(-1.2, 1.2, (60, 2)), g.uniform(-exp['r_inner'], exp['r_inner'], (30, 2))])
        if exp['circ']:
            r = np.hypot(*pts.T)
            ph = (np.arctan2(pts[:, 1], pts[:, 0]) - exp['phi'][0]) % (2 * np.pi)
            dphi = exp['phi'][1] - exp['phi'][0]
            full = dphi > 2 * np.pi - 1e-6
            inphi = full | (ph < dphi)
            edges = [1, f, exp['r_inner'], exp['r_inner'] * exp['inner']]
            near = np.any([np.abs(r - x) < .015 * max(x, .05) + 1e-3 for x in edges], axis=0)
            if not full:
                near |= (np.abs(ph - dphi) < .1) | (ph < .1) | (2 * np.pi - ph < .1) | (r < .02)
            want = ((r > 1) & (r < f)) | ((r < 1) & ~inphi) | (inphi & (r < exp['r_inner']) & (r > exp['r_inner'] * exp['inner']))
        else:
            r = np.abs(pts).max(axis=1)
            near = np.any([np.abs(r - x) < .01 * x for x in (1, f)], axis=0)
            want = (r > 1) & (r < f)
        got = covered(pts, tri)
        bad = (got != want) & ~near
        if bad.any():
            k = np.flatnonzero(bad)[0]
            return f"the plane is {'drawn' if got[k] else 'not drawn'} at {pts[k]} (relative to the size of the opening; {bad.sum()} of {len(pts)} places)"
        return None
    if exp['kind'] == 'surf':
        sc = np.linalg.norm(exp['m'][:3, :3], axis=0)
        t = 2 * TOL / sc.min()
        if np.abs(np.hypot(L[:, 0], L[:, 1]) - 1).max() > t:
            return 'points are not on the cylinder'
        z = L[:, 2]
        if abs(z.min() + 1) > t or abs(z.max() - 1) > t:
            return f'z from {z.min()} to {z.max()} of the cylinder'
        for lim in exp['phi']:
            for zz in (-1, 1):
                p = np.array([np.cos(lim), np.sin(lim), zz])
                if np.abs(L - p).max(axis=1).min() > t:
                    return f'no point at the corner phi={lim}, z={zz}'
        ph = (np.arctan2(L[:, 1], L[:, 0]) - exp['phi'][0]) % (2 * np.pi)
        dphi = exp['phi'][1] - exp['phi'][0]
        if ((ph > dphi + 2 * t) & (ph < 2 * np.pi - 2 * t)).any():
            return 'points outside the range of phi'
        return area_of(L, shape['faces'], 2 * dphi)
    if exp['kind'] == 'torus':
        rho = np.hypot(L[:, 0], L[:, 2])
        d = np.minimum(np.abs(np.hypot(rho - exp['R'], L[:, 1]) - exp['r']), np.abs(np.hypot(rho + exp['R'], L[:, 1]) - exp['r']))
        if d.max() > 3 * TOL:
            return f'points are {d.max():.3g} mm off the torus'
        for th in (exp['c1'][0], exp['c1'][-1]):
            for ph in (exp['c2'][0], exp['c2'][-1]):
                q = exp['R'] + exp['r'] * np.cos(th)
                p = np.array([q * np.cos(ph), exp['r'] * np.sin(th), q * np.sin(ph)])
                if np.abs(L - p).max(axis=1).min() > 3 * TOL:
                    return f'no point at theta={th}, phi={ph}'
        if backend == 'x3d':
            th, ph = np.meshgrid(exp['c1'], exp['c2'])
            q = exp['R'] + exp['r'] * np.cos(th)
            G = np.stack([q * np.cos(ph), exp['r'] * np.sin(th), q * np.sin(ph)], axis=-1)
            A = 0.
            for a, b, c, e in ((G[:-1, :-1], G[1:, :-1], G[1:, 1:], G[:-1, 1:]),):
                A = .5 * (np.linalg.norm(np.cross(b - a, c - a), axis=-1) + np.linalg.norm(np.cross(c - a, e - a), axis=-1)).sum()
            return area_of(L, shape['faces'], A)
        return None
    raise HarnessError(exp['kind'])


def area_of(L, faces, want):
    A = 0.
    for f in faces:
        q = L[list(f)]
        for k in range(1, len(f) - 1):
            A += .5 * np.linalg.norm(np.cross(q[k] - q[0], q[k + 1] - q[0]))
    if abs(A - want) > .03 * want + 1e-3:
        return f'area of all faces is {A} instead of {want}'
    return None


def match_all(exps, shapes, backend, where):
    left = list(shapes)
    for exp in exps:
        why = []
        for k, s in enumerate(left):
            d = match(exp, s, backend) if s['kind'] == {'box': 'mesh', 'tri': 'mesh', 'surf': 'mesh', 'torus': 'mesh'}[exp['kind']] else 'it is a line'
            if d is None:
                del left[k]
                break
            why.append(d)
        else:
            raise Violation('element-missing', f"{where}: no shape for {exp['kind']} {exp['cls']} at {exp['m'][:3, 3]}; exported shapes differ: {why[:4]}",
                            key=f"element-missing:{exp['kind']}:{backend}")
    return left


def match_rays(r, s, shapes, backend, where):
    """shapes: polylines {'points', 'rgb'}; removes those that belong to the rays"""
    left = list(shapes)
    cmap = matplotlib.colormaps['viridis']
    col = None
    if s is None:
        pass
    elif s.ndim == 1:
        f = np.isfinite(s)
        lo, hi = (s[f].min(), s[f].max()) if f.any() else (0, 0)
        col = [cmap((x - lo) / (hi - lo) if hi > lo else 0.)[:3] if np.isfinite(x) else None for x in s]
    elif backend == 'x3d':
        lo, hi = (s[:, 0].min(), s[:, 0].max()) if len(s) else (0, 0)
        col = [cmap((x - lo) / (hi - lo) if hi > lo else 0.)[:3] for x in s[:, 0]]
    tol = TOL if backend != 'json' else 1e-3
    # rays of a known color first: a ray without a valid color may be drawn in any color
    for i in sorted(range(len(r['data'])), key=lambda i: col is not None and col[i] is None):
        ray = r['data'][i]
        why = 'number of points'
        for k, x in enumerate(left):
            if len(x['points']) != len(ray) or np.abs(x['points'] - ray).max() > tol:
                continue
            if col is not None and col[i] is not None and x['rgb'] is not None and not (np.isnan(np.asarray(s, float)).any() and backend != 'x3d'):
                if not np.allclose(np.asarray(x['rgb'])[..., :3], col[i], atol=.0501 if backend == 'js' else .0051):
                    why = f"color {x['rgb']} instead of {col[i]}"
                    continue
            del left[k]
            break
        else:
            raise Violation('ray-missing', f'{where}: ray {i} of {len(r["data"])} is not in the output ({why}; scalar {None if s is None else s[:5]})',
                            key=f'ray-missing:{backend}')
    return left


# ---------------------------------------------------------------- reading scenes

def nums(s):
    return np.array([float(x) for x in s.replace(',', ' ').split()])


def parse_x3d(root):
    """list of shapes of a <Scene> element"""
    out = []
    for sh in root.iter('Shape'):
        m = sh.find('.//Material')
        geo = [g for g in sh if g.tag != 'Appearance']
        if len(geo) != 1:
            raise Violation('invalid-scene', 'shape without geometry')
        geo = geo[0]
        pts = nums(geo.find('Coordinate').get('point', '') if geo.find('Coordinate') is not None else '')
        if len(pts) % 3:
            raise Violation('invalid-scene', 'number of coordinates')
        pts = pts.reshape(-1, 3) * 1000
        if geo.tag == 'LineSet':
            n = [int(x) for x in geo.get('vertexCount', '').split()]
            if sum(n) != len(pts):
                raise Violation('invalid-scene', f'LineSet has {len(pts)} points for {sum(n)} vertices')
            k = 0
            rgb = nums(m.get('emissiveColor', '0 0 0'))
            for x in n:
                out.append({'kind': 'line', 'points': pts[k:k + x], 'rgb': rgb})
                k += x
            continue
        sh = {'kind': 'mesh', 'points': pts, 'color': True, 'rgb': nums(m.get('diffuseColor', '0.8 0.8 0.8')), 'transparency': float(m.get('transparency', 0))}
        if geo.tag == 'IndexedTriangleSet':
            sh['faces'] = np.array([int(x) for x in geo.get('index', '').split()]).reshape(-1, 3)
        else:
            faces, cur = [], []
            for x in geo.get('coordIndex', '').split():
                if int(x) < 0:
                    faces.append(cur)
                    cur = []
                else:
                    cur.append(int(x))
            if cur:
                faces.append(cur)
            sh['faces'] = faces
        if any(max(f) >= len(pts) for f in sh['faces'] if len(f)):
            raise Violation('invalid-scene', 'face refers to a point that does not exist')
        out.append(sh)
    return out


def node(jobs):
    """Run exported data through the real loader.  jobs: list of {'kind', 'data'}"""
    if not jobs:
        return []
    import marxs.visualization
    d = os.path.join(os.path.dirname(marxs.visualization.__file__), 'threejs_files')
    stub = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'js', 'three_stub.js')
    p = subprocess.run(['node', stub, d], input=json.dumps(jobs), capture_output=True, text=True, timeout=60)
    if p.returncode:
        raise HarnessError('node: ' + p.stderr[:500])
    out = []
    for r in json.loads(p.stdout):
        if 'error' in r:
            out.append(r['error'])
            continue
        shapes = []
        for o in r['ok']:
            if o['left']:
                out.append('number of coordinates is not a multiple of 3')
                break
            pts = np.array([[np.nan if x is None else x for x in p] for p in o['points']], dtype=float).reshape(-1, 3)
            if o['type'] == 'Line':
                c = np.array([np.nan if x is None else x for x in o['color']], dtype=float).reshape(-1, 3)
                if len(c) != len(pts):
                    raise Violation('invalid-scene', f'{len(c)} colors for {len(pts)} points')
                shapes.append({'kind': 'line', 'points': pts, 'rgb': c})
            else:
                f = None if o['geometry'] == 'BoxGeometry' or o['index'] is None else np.array(o['index']).reshape(-1, 3)
                shapes.append({'kind': 'mesh', 'points': pts, 'faces': f})
        else:
            out.append(shapes)
    return out


def strict_json(text):
    def bad(x):
        raise ValueError('not valid JSON: ' + x)
    return json.loads(text, parse_constant=bad)


# ---------------------------------------------------------------- network

class FakeNet:
    """Stands in for urllib.request.urlopen"""

    def __init__(self, fault):
        self.fault = fault
        self.n = 0
        self.fired = []

    @staticmethod
    def body(url):
        return (('/* %s */' % os.path.basename(url)) * 4000).encode()

    def __call__(self, url, *a, **kw):
        import urllib.error
        url = url if isinstance(url, str) else url.full_url
        self.n += 1
        fault, self.fault = (self.fault, None) if self.n >= 1 else (None, self.fault)
        if fault == 'refused':
            self.fired.append('refused')
            raise urllib.error.URLError(ConnectionRefusedError(111, 'Connection refused'))
        return FakeResponse(self, self.body(url), fault)


class FakeResponse(io.RawIOBase):
    def __init__(self, net, data, fault):
        self.net, self.data, self.fault, self.p = net, data, fault, 0
        self.headers = {'Content-Length': str(len(data)), 'content-length': str(len(data))}
        self.status = 200

    def info(self):
        return self.headers

    def readable(self):
        return True

    def read(self, n=-1):
        if self.fault and self.p >= len(self.data) // 3:
            if self.fault == 'reset':
                self.net.fired.append('reset')
                raise ConnectionResetError(104, 'Connection reset by peer')
            self.net.fired.append('short')
            return b''
        if n is None or n < 0:
            n = len(self.data)
            if self.fault == 'short':
                n = len(self.data) // 3
        out = self.data[self.p:self.p + n]
        self.p += len(out)
        return out


# ---------------------------------------------------------------- running

def make_world(plan):
    items, tops = [], []
    for n in plan['l_elems']:
        sub = []
        tops.append((build(n, sub), sub))
        items.extend(sub)
    from marxs import simulator
    return {'root': simulator.Sequence(elements=[t[0] for t in tops if callable(t[0])]), 'items': items, 'tops': tops, 'rays': [mk_rays(s) for s in plan['l_rays']]}


def export(w, op, scene, obs):
    """Real export.  Returns the exported thing."""
    target = None if op['target'] is None or not w['tops'] else op['target'] % len(w['tops'])
    obj = w['root'] if target is None else w['tops'][target][0]
    if op['backend'] == 'x3d':
        out = x3d.plot_object(obj, scene=scene)
        if scene is not None and out is not scene:
            raise Violation('scene', 'plot_object does not return the scene it was given')
        return out
    if op['backend'] == 'json':
        out = threejsjson.plot_object(obj)
        return [] if out is None else out if isinstance(out, list) else [out]
    f = io.StringIO()
    threejs.plot_object(obj, None, f)
    return f.getvalue()


def export_rays(w, op, scene):
    r = w['rays'][op['rays'] % len(w['rays'])]
    s = scalar_of(r, op['scalar'])
    keep = (r['data'].copy(), None if s is None else s.copy())
    try:
        if op['backend'] == 'x3d':
            out = x3d.plot_rays(r['data'], s, scene=scene)
        elif op['backend'] == 'json':
            if len(r['data']) == 0:
                return [], s
            out = [threejsjson.plot_rays(r['data'], s, cmap='viridis')]
        else:
            f = io.StringIO()
            threejs.plot_rays(r['data'], f, s, cmap='viridis')
            out = f.getvalue()
    finally:
        if not lib.same_array(keep[0], r['data']) or (s is not None and not lib.same_array(keep[1], s)):
            raise Violation('rays-changed', f"plot_rays of {op['backend']} changes its input")
    return out, s


def move(w, op):
    """Change alignment of something; returns a description"""
    its = [it for it in w['items'] if it[0] in ('box', 'tri', 'surf', 'torus')]
    if not its:
        return 'nothing'
    kind, e, par = its[op['k'] % len(its)]
    if par is not None:
        u = np.eye(4)
        u[:3, :3] = lib.axmat(op['pos']['ax'], op['pos']['ang'])
        u[:3, 3] = op['pos']['p']
        par.uncertainty = u
        old = list(par.elements)
        par.generate_elements()
        for it in w['items']:
            if it[2] is par:
                it[1] = par.elements[[i for i, x in enumerate(old) if x is it[1]][0]]
        return 'parallel'
    z = np.linalg.norm(e.geometry.pos4d[:3, :3], axis=0)
    e.geometry.pos4d = mat(dict(op['pos'], zoom=[float(x) for x in z]))
    return 'element'


def run(plan, obs):
    with warnings.catch_warnings(record=True) as wrn:
        warnings.simplefilter('always')
        run_(plan, obs, wrn)


def run_(plan, obs, wrn):
    from marxs.visualization.utils import MARXSVisualizationWarning
    if not plan['l_elems'] or not plan['l_clients'] or not plan['l_rays']:
        return
    w = make_world(plan)
    wd = world.current()
    root = wd.scratch()
    jobs = []        # (kind, text, expectation list, rays list, where)
    scenes = [x3d.Scene(children=[]) for _ in range(2)]
    contents = [[], []]      # what each shared scene should show: list of ('obj', exps) / ('rays', r, s)
    nwarn = [0]
    fired = set()
    before = snap(w['items'])
    rays0 = [r['data'].copy() for r in w['rays']]
    saved = tempfile.tempdir

    def nvis():
        return sum(1 for x in wrn if issubclass(x.category, MARXSVisualizationWarning))

    def target_of(op):
        return None if op['target'] is None else op['target'] % len(w['tops'])

    def check_scene(xml, cont, where):
        try:
            tree = ET.fromstring(xml)
        except ET.ParseError as ex:
            raise Violation('invalid-scene', f'{where}: not valid XML: {ex}')
        shapes = parse_x3d(tree)
        left = shapes
        n = 0
        for c in cont:
            if c[0] == 'obj':
                left = match_all(c[1], left, 'x3d', where)
                n += len(c[1])
            else:
                left = match_rays(c[1], c[2], left, 'x3d', where)
                n += len(c[1]['data'])
        if left:
            raise Violation('extra-shape', f'{where}: {len(left)} shapes too many in the scene')
        obs.count('shapes-compared', n)
        if n > 1:
            obs.nontrivial = True

    def do(op, where, shared):
        """run one operation, record expectations"""
        if op['op'] == 'export':
            exps, nw = expected_items(w, target_of(op), op['backend'])
            sc = op['scene'] if op['backend'] == 'x3d' and shared else None
            out = export(w, op, None if sc is None else scenes[sc], obs)
            nwarn[0] += nw
            cont = [('obj', exps)]
        elif op['op'] == 'rays':
            sc = op['scene'] if op['backend'] == 'x3d' and shared else None
            out, s = export_rays(w, op, None if sc is None else scenes[sc])
            cont = [('rays', w['rays'][op['rays'] % len(w['rays'])], s)]
        obs.count(f"{op['op']}-{op['backend']}")
        if op['backend'] == 'x3d':
            if sc is not None:
                contents[sc].extend(cont)
                check_scene(out.XML(), contents[sc], where)
            else:
                check_scene(out.XML(), cont, where)
        elif op['backend'] == 'json':
            jobs.append(('json', {'elements': out}, cont, where))
        else:
            jobs.append(('js', out, cont, where))
        return out, cont

    def write_file(op, where, k):
        """json to disk, faults, retry"""
        from astropy.table import Table
        data, cont = [], []
        for o in ('export', 'rays'):
            a, b = do(dict(op, op=o, backend='json'), where, False)
            data.extend(a)
            cont.extend(b)
        path = os.path.join(root, f'scene{0 if op["reuse"] else k}.json')
        ph = Table({'energy': [1.]}, meta={'EXPOSURE': (12.5, 'exp'), 'OBSERVER': ('me', 'who')}) if op['photons'] else None
        args = data if len(data) != 1 or op['k'] % 2 else data[0]
        keep = copy.deepcopy(args)

        def body():
            try:
                with open(path, 'w') as f:
                    threejsjson.write(f, args, **({'photons': ph} if ph is not None else {}))
                return 'ok'
            except Exception as ex:  # noqa
                return repr(ex)[:300]
        for fault in ([op['fault']] if op['fault'] else []) + [None]:
            wd.fs = world.FaultFS(root, [fault] if fault else [])
            try:
                st, res = world.life(body)
                fr = list(wd.fs.fired)
            finally:
                wd.fs = None
            for f in fr:
                obs.fault(f'disk:{f[0]}:{f[1]}')
                fired.add((f[0], f[1]))
            status = 'crash' if st == 'crash' else 'ok' if res == 'ok' else 'error'
            obs.event('file', status, len(fr))
            obs.count('file-' + status)
            if fr:
                obs.nontrivial = True
            if status == 'error' and not fr:
                raise Violation('write-fails', f'{where}: writing the json file fails without a disk error: {res}')
            if status == 'ok':
                with open(path) as f:
                    text = f.read()
                try:
                    d = strict_json(text)
                except ValueError as ex:
                    raise Violation('damaged-file', f'{where}: the file was written with {fr} and no error, but it is not complete: {ex}')
                if ph is not None and 'runinfo' in d and json.loads(json.dumps(ph.meta)) != d['runinfo']:
                    raise Violation('runinfo', f"{where}: {d['runinfo']} for a photon list with {ph.meta}")
                if ph is not None and 'runinfo' not in d:
                    raise Violation('runinfo', f'{where}: no metadata of the photon list in the file')
                jobs.append(('jsontext', text, cont, where + ' from disk'))
        if repr(keep) != repr(args):
            raise Violation('data-changed', f'{where}: writing changes the exported data')

    def archive(op, where, k):
        sc = x3d.Scene(children=[])
        cont = []
        exps, nw = expected_items(w, target_of(op), 'x3d')
        export(w, dict(op, backend='x3d'), sc, obs)
        nwarn[0] += nw
        r, s = export_rays(w, dict(op, backend='x3d'), sc)
        cont = [('obj', exps), ('rays', w['rays'][op['rays'] % len(w['rays'])], s)]
        sc.set_X3D_implementation(op['impl'])
        base = os.path.join(root, f'arch{0 if op["reuse"] else k}')
        tmp = os.path.join(root, 'tmp')
        os.makedirs(tmp, exist_ok=True)
        urls = [x for x in (sc.js_source, sc.css_source) if x]
        real = urllib.request.urlopen
        net = [None]

        def body():
            tempfile.tempdir = tmp
            net[0] = FakeNet(netfault)
            urllib.request.urlopen = net[0]
            before = sorted(os.listdir(tmp))
            src = (sc.js_source, sc.css_source)
            try:
                sc.write_html_archive(base, op['format'])
                res = 'ok'
            except Exception as ex:  # noqa
                res = repr(ex)[:300]
            finally:
                urllib.request.urlopen = real
            return res, net[0].fired, (sc.js_source, sc.css_source) == src, sorted(set(os.listdir(tmp)) - set(before)), sc._repr_html_()
        for fault, netfault in ([(op['fault'], None if op['fault'] else op['net'])] if op['fault'] or op['net'] else []) + [(f, None) for f in op['l_afaults']] + [(None, None)]:
            wd.fs = world.FaultFS(root, [fault] if fault else [])
            try:
                st, res = world.life(body)
                fr = list(wd.fs.fired)
            finally:
                wd.fs = None
            for f in fr:
                obs.fault(f'disk:{f[0]}:{f[1]}')
                fired.add((f[0], f[1]))
            if st == 'crash':
                obs.count('archive-crash')
                obs.nontrivial = True
                continue
            res, nf, restored, leftover, html = res
            for f in nf:
                obs.fault('net:' + f)
                fired.add(('net', f))
            if fr or nf:
                obs.nontrivial = True
            obs.event('archive', op['format'], res == 'ok', len(fr), nf)
            obs.count('archive-ok' if res == 'ok' else 'archive-error')
            if not restored:
                raise Violation('scene-changed', f'{where}: after {fr + nf}, the scene points to other javascript sources than before')
            if leftover and not fr:
                raise Violation('leftover', f'{where}: temporary files {leftover} are left')
            if res != 'ok' and not fr and not nf:
                raise Violation('write-fails', f'{where}: writing the archive fails without any error around it: {res}')
            if res == 'ok':
                files = read_archive(base, op['format'], where, fr + nf)
                for url in urls:
                    b = os.path.basename(url)
                    if files.get(b) != FakeNet.body(url):
                        raise Violation('damaged-archive', f"{where}: archive was written with {fr + nf} and no error, but {b} is {'missing' if b not in files else 'incomplete'}")
                page = files.get('figure.html', b'').decode()
                if any(u in page for u in urls) or not all(os.path.basename(u) in page for u in urls):
                    raise Violation('damaged-archive', f'{where}: page in the archive does not refer to the local scripts')
                check_page(page, where)
                m = re.search(r'<Scene.*?</Scene>|<Scene */>', page, re.S)
                if not m:
                    raise Violation('damaged-archive', f'{where}: page without a scene')
                check_scene(m.group(0), cont, where + ' (page in archive)')
                if any(u not in html for u in urls):
                    raise Violation('scene-changed', f'{where}: page no longer refers to {urls}')

    if plan['mode'] == 'sequential':
        for k, op in enumerate(plan['l_clients'][0]['l_ops']):
            where = f"operation {k} ({op['op']})"
            if op['op'] in ('export', 'rays'):
                do(op, where, True)
            elif op['op'] == 'again':
                # the same thing twice, into scenes of their own
                if op['backend'] == 'x3d':
                    a, _ = do(dict(op, op='export', scene=None), where, False)
                    b, _ = do(dict(op, op='export', scene=None), where, False)
                    if a.XML() != b.XML():
                        raise Violation('not-repeatable', f'{where}: exported twice, with different results')
            elif op['op'] == 'move':
                obs.count('moved-' + move(w, op))
                sync(w)
                before = snap(w['items'])
            elif op['op'] == 'color':
                its = [it for it in w['items'] if it[0] in ('box', 'tri', 'surf', 'torus')]
                if its:
                    e = its[op['k'] % len(its)][1]
                    e.display['color'] = tuple(op['color']) if isinstance(op['color'], list) else op['color']
                    before = snap(w['items'])
            elif op['op'] == 'combine':
                combine(w, op, where, obs)
            elif op['op'] == 'file':
                write_file(op, where, k)
            elif op['op'] == 'archive':
                archive(op, where, k)
            obs.event(k, op['op'], op['backend'])
            if not same_snap(before, snap(w['items'])):
                raise Violation('instrument-changed', f'{where}: exporting changes elements or how they are displayed')
            if nvis() != nwarn[0]:
                raise Violation('warnings', f'{where}: {nvis()} warnings about elements that cannot be shown, {nwarn[0]} expected')
    else:
        sc = sched.Scheduler(plan['l_switches'], 'line', [(f'c{k}', at) for k, at in plan['l_aborts']])
        done = {}

        def mk(k):
            def func():
                for i, op in enumerate(plan['l_clients'][k]['l_ops']):
                    if op['op'] == 'export':
                        done[k, i] = export(w, op, None, obs)
                    else:
                        done[k, i] = export_rays(w, op, None)[0]
            return func
        for k, c in enumerate(plan['l_clients']):
            sc.spawn(f'c{k}', mk(k), k)
        sc.run()
        for t in sc.trace:
            obs.event(*t)
        obs.count('switches', sc.nswitch)
        aborted = False
        for c in sc.clients:
            if c.error is not None:
                if isinstance(c.error, sched.Abort):
                    obs.fault('interrupt')
                    aborted = True
                    continue
                raise c.error
        for k, c in enumerate(plan['l_clients']):
            for i, op in enumerate(c['l_ops']):
                where = f"client {k}, operation {i} ({op['op']})"
                if op['op'] == 'export':
                    exps, nw = expected_items(w, target_of(op), op['backend'])
                    cont = [('obj', exps)]
                    nwarn[0] += nw
                else:
                    r = w['rays'][op['rays'] % len(w['rays'])]
                    cont = [('rays', r, scalar_of(r, op['scalar']))]
                if (k, i) not in done:
                    continue
                out = done[k, i]
                if op['backend'] == 'x3d':
                    check_scene(out.XML(), cont, where)
                else:
                    jobs.append(('json', {'elements': out}, cont, where) if op['backend'] == 'json' else ('js', out, cont, where))
        if not same_snap(before, snap(w['items'])):
            raise Violation('instrument-changed', 'exporting changes elements or how they are displayed')
        if not aborted and nvis() != nwarn[0]:
            raise Violation('warnings', f'{nvis()} warnings about elements that cannot be shown, {nwarn[0]} expected')
    for a, b in zip(rays0, w['rays']):
        if not lib.same_array(a, b['data']):
            raise Violation('rays-changed', 'exporting changes the rays')
    for k, c in enumerate(contents):
        check_scene(scenes[k].XML(), c, f'scene {k} at the end')
    texts = []
    for kind, data, cont, where in jobs:
        if kind == 'json':
            try:
                texts.append({'kind': 'json', 'data': json.dumps(data)})
            except (TypeError, ValueError) as ex:
                raise Violation('invalid-json', f'{where}: {ex}')
        else:
            texts.append({'kind': 'json' if kind == 'jsontext' else kind, 'data': data})
    for (kind, data, cont, where), shapes in zip(jobs, node(texts)):
        b = 'js' if kind == 'js' else 'json'
        if isinstance(shapes, str):
            if any(c[0] == 'rays' and c[2] is not None and np.isnan(np.asarray(c[2], float)).any() for c in cont):
                obs.count('nan-refused')
                continue
            raise Violation('loader', f'{where}: the loader cannot use the output of the {b} backend: {shapes}', key=f'loader:{b}')
        left, n = shapes, 0
        for c in cont:
            if c[0] == 'obj':
                left = match_all(c[1], left, b, where)
                n += len(c[1])
            else:
                left = match_rays(c[1], c[2], left, b, where)
                n += len(c[1]['data'])
        if left:
            raise Violation('extra-shape', f'{where}: {len(left)} objects too many')
        obs.count('shapes-compared', n)
        if n > 1:
            obs.nontrivial = True
    obs.simtime += len(plan['l_clients'])
    obs.state(tuple(sorted({it[0] for it in w['items']})), tuple((o['op'], o['backend']) for c in plan['l_clients'] for o in c['l_ops']), plan['mode'], tuple(sorted(fired)))


def combine(w, op, where, obs):
    """several outlines in one triangulation show the same triangles as each of them alone"""
    from marxs.visualization.utils import combine_disjoint_triangulations, plane_with_hole
    parts = [it[1].geometry.triangulate(it[1].display) for it in w['items'] if it[0] == 'tri' and hasattr(it[1].geometry, 'triangulate')]
    g = np.random.Generator(np.random.PCG64(op['k']))
    for n in (3, 4 + op['k']):
        a = np.linspace(0, 2 * np.pi, n, endpoint=False)
        o = np.array([np.cos(a), np.sin(a), 0 * a]).T
        parts.append(plane_with_hole(o + g.random(3), o * .5))
    xyz, tri = combine_disjoint_triangulations([p[0] for p in parts], [p[1] for p in parts])
    want = np.concatenate([np.asarray(p[0])[np.asarray(p[1])] for p in parts])
    if np.max(tri) >= len(xyz) or np.min(tri) < 0 or not lib.same_array(np.asarray(xyz)[np.asarray(tri)], want):
        raise Violation('combined', f'{where}: combining triangulations of {[len(p[0]) for p in parts]} points shows other triangles')
    obs.count('combined')


def sync(w):
    """after re-generating elements of a Parallel: the lists of top-level nodes share their entries with w['items']"""
    for it in w['items']:
        if it[2] is not None and it[1] not in it[2].elements:
            raise HarnessError('element lists out of step')


def check_page(page, where):
    if not page.strip().endswith('</html>'):
        raise Violation('damaged-archive', f'{where}: page is not complete')


def read_archive(base, fmt, where, faults):
    path = base + {'zip': '.zip', 'tar': '.tar', 'gztar': '.tar.gz'}[fmt]
    try:
        if fmt == 'zip':
            with zipfile.ZipFile(path) as z:
                return {n.split('/')[-1]: z.read(n) for n in z.namelist() if not n.endswith('/')}
        with tarfile.open(path) as z:
            return {m.name.split('/')[-1]: z.extractfile(m).read() for m in z.getmembers() if m.isfile()}
    except Exception as ex:  # noqa
        raise Violation('damaged-archive', f'{where}: the archive was written with {faults} and no error, but it cannot be read: {ex!r}'[:400])
