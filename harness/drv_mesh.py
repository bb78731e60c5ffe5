"""Mesh tables, point location, facet finding and regions of the real code on integer-lattice meshes,
logged for spec/MeshTrace.tla.

  drv_mesh.py OUT coord seed nmeshes npoints
  drv_mesh.py OUT coord seed nmoves 0 GENERATED     (every point of the generated meshes, and up to nmoves moves from each)
"""
import sys, json, random, itertools
from vlib import *
import dt_pybind11_bridge          # noqa: F401
import numpy as np
import dolfin as df
import lattice
from lattice import U
import Dolfin_Module as DM
import dolfin_functions_solib as dfs

df.set_log_level(50)
NS = 4096            # scale of unit normals
TS = 16384           # scale of fractions


def lat(v, k):
    try:
        x = float(v) * k
    except Exception:
        return BIG
    if x != x or abs(x) > 1e8:
        return BIG
    r = round(x)
    return int(r) if abs(x - r) < 1e-6 * max(1.0, abs(x) / 64) else BIG


class One:
    def __init__(self, tr, coord, R, npt):
        self.tr, self.coord, self.R, self.npt = tr, coord, R, npt
        self.dim = {'cartesian_x': 1, 'spherical_r': 1, 'cartesian_xy': 2, 'cartesian_xyz': 3}[coord]
        self.H = 2.0 ** R.choice([-21, -6, -3, 0, 1, 5, 12])
        self.sph = int(coord == 'spherical_r')

    def pt(self, x):
        return [v * self.H / U for v in x]

    def make(self, given=None):
        R = self.R
        M = self.M = given or lattice.pick_mesh(self.dim, R)
        if self.sph and not given:
            off = min(v[0] for v in M.verts) - R.choice([0, 1, 2])
            M.verts = [(v[0] - off,) for v in M.verts]
        self.mesh = M.dolfin(self.H, R.randrange(1 << 30))
        cs = '1D-spherical-radial' if self.sph else 'Cartesian'
        how = R.choice(['ref', 'copy', 'file'])
        kw = dict(coordinate_system=cs, compute_dictionaries=True, compute_tree=True)
        self.ctor = R.random() < 0.5
        if self.ctor:
            kw['compute_cpp_arrays'] = True
        if how == 'ref':
            self.mm = DM.Mesh_C(Mesh=self.mesh, **kw)
        elif how == 'copy':
            self.mm = DM.Mesh_C(mesh_to_copy=self.mesh, **kw)
        else:
            df.File('mesh.xml') << self.mesh
            self.mm = DM.Mesh_C(mesh_file='mesh.xml', **kw)
            self.mesh = self.mm.mesh
            M.take(self.mesh, self.H)
        self.mm.compute_cell_entity_indices_dict('vertex')
        if not self.ctor:
            self.mm.compute_cpp_arrays()
        self.tr.put(ev='mesh', dim=self.dim, sph=self.sph, verts=M.verts, cells=M.cells, facets=M.facets)
        self.tr.flush()

    def tables(self):
        mm, M, d = self.mm, self.M, self.dim
        n = len(M.cells)
        if self.R.random() < 0.3:      # computing a table again changes nothing
            for f in (mm.compute_cell_neighbors_dict, mm.compute_cell_facet_normals_dict, mm.compute_cell_volume_dict, mm.compute_vertex_cells_dict,
                      mm.compute_cell_vertices_dict, mm.compute_cell_dict, lambda: mm.compute_cell_entity_indices_dict('facet')):
                if self.R.random() < 0.5:
                    f()
        fact = {1: 1, 2: 2, 3: 6}[d]
        vs = 3.0 / (4.0 * math.pi * self.H ** 3) if self.sph else fact / self.H ** d
        cn = [list(np.ravel(mm.mea_object.get_cell_facet_normals(c))) for c in range(n)]
        self.tr.put(ev='tab', cells=[iv(mm.cell_dict[c].index()) for c in range(n)], keys=sorted(iv(k) for k in mm.cell_dict),
                    cv=[[iv(v) for v in mm.cell_vertices_dict[c]] for c in range(n)],
                    cev=[[iv(v) for v in mm.cell_entity_indices_dict['vertex'][c]] for c in range(n)],
                    cf=[[iv(v) for v in mm.cell_entity_indices_dict['facet'][c]] for c in range(n)],
                    nb=[[iv(v) for v in mm.cell_neighbors_dict[c]] for c in range(n)],
                    vc=[sorted(iv(c) for c in mm.vertex_cells_dict[v]) for v in range(len(M.verts))],
                    nrm=[[[sc(a, NS) for a in mm.cell_facet_normals_dict[c][k]] for k in range(d + 1)] for c in range(n)],
                    vol=[lat(mm.cell_volume_dict[c], vs) for c in range(n)],
                    cnb=[[iv(v) for v in mm.mea_object.get_cell_neighbors(c)] for c in range(n)],
                    cnrm=[[sc(a, NS) for a in cn[c]] for c in range(n)])
        self.tr.flush()

    def anypoint(self, slack=U):
        bb = self.M.bbox()
        return [self.R.randint(a * U - slack, b * U + slack) for a, b in bb]

    def cellpoint(self, c):
        """A lattice point of closed cell c (or near it)."""
        R, M = self.R, self.M
        k = R.random()
        vs = [M.verts[v] for v in M.cells[c]]
        if k < 0.15:
            return [a * U for a in R.choice(vs)]
        if k < 0.35:
            a, b = R.choice(vs), R.choice(vs)
            t = R.randint(0, U)
            return [p * (U - t) + q * t for p, q in zip(a, b)]
        lo = [min(v[i] for v in vs) * U for i in range(self.dim)]
        hi = [max(v[i] for v in vs) * U for i in range(self.dim)]
        return [R.randint(a, b) for a, b in zip(lo, hi)]

    def container(self, x):
        """How a point is given to the code: coordinates by position in a list, array or particle record."""
        k = self.R.choice(['list', 'array', 'rec', 'row'])
        p = self.pt(x)
        if k == 'list':
            return p
        if k == 'array':
            return np.array(p)
        names = ['x', 'y', 'z'][:self.dim]
        dt = np.dtype({'names': names + ['weight'], 'formats': [np.float64] * (self.dim + 1)})
        a = np.zeros(3, dtype=dt)
        for i in range(self.dim):
            a[1][i] = p[i]
        return a[1] if k == 'rec' else a[1:2][0]

    def replay(self, g, nmoves):
        """Every point and move of a generated mesh."""
        R, M, d, k = self.R, self.M, self.dim, U // g['u']
        loc, inn, ff = [], [], []
        for p in g['points']:
            x = [a * k for a in p]
            try:
                r = iv(self.mm.compute_cell_index(self.container(x)))
            except SystemExit:
                r = -1
            loc.append([x, r])
            for c in range(len(M.cells)):
                inn.append([c, x, int(bool(self.mm.is_inside_cell(self.container(x), c))),
                            int(bool(dfs.is_inside_vertices(self.mesh, [int(v) for v in M.cells[c]], self.pt(x))))])
                if not all(lattice.dot(n, x) <= off * U for (_, n, off) in M.cf[c]):
                    continue
                for w in (g['moves'] if len(g['moves']) <= nmoves else R.sample(g['moves'], nmoves)):
                    self.facet(ff, c, x, [a * k for a in w])
        for ev, q in (('loc', loc), ('in', inn), ('ff', ff)):
            for j in range(0, len(q), 100):
                self.tr.put(ev=ev, q=q[j:j + 100])
        self.tr.flush()

    def facet(self, q, c, x, w):
        M, d = self.M, self.dim
        if any(lattice.dot(n, x) == off * U and lattice.dot(n, w) == 0 for (_, n, off) in M.cf[c]) and any(w):
            return          # sliding along a facet: rounding decides
        if self.R.random() < 0.5:
            r0, dr = self.pt(x), self.pt(w)
        else:
            r0, dr = np.array(self.pt(x)), np.array(self.pt(w))
        f, fr, n = self.mm.find_facet(r0, dr, c)
        ent = {'c': c, 'x': x, 'w': w, 'f': iv(f), 'fr': sc(fr, TS), 'n': [] if n is None else [sc(v, NS) for v in np.ravel(n)]}
        # the C++ version stops the process when a 1D move stays in its cell
        end = [a + b for a, b in zip(x, w)]
        if d > 1 or any(lattice.dot(n2, end) > off * U and lattice.dot(n2, w) > 0 for (_, n2, off) in M.cf[c]):
            g, gr, gn = dfs.find_facet(self.mm, [float(v) for v in r0], [float(v) for v in dr], c)
            ent['cpp'] = {'f': iv(g), 'fr': sc(gr, TS), 'n': [] if gn is None else [sc(v, NS) for v in np.ravel(gn)]}
        q.append(ent)

    def locate(self):
        q = []
        for _ in range(self.npt):
            x = self.anypoint() if self.R.random() < 0.4 else self.cellpoint(self.R.randrange(len(self.M.cells)))
            try:
                r = iv(self.mm.compute_cell_index(self.container(x)))
            except SystemExit:
                r = -1
            q.append([x, r])
        self.tr.put(ev='loc', q=q)
        q = []
        for _ in range(self.npt):
            c = self.R.randrange(len(self.M.cells))
            x = self.anypoint(4) if self.R.random() < 0.3 else self.cellpoint(self.R.randrange(len(self.M.cells)) if self.R.random() < 0.4 else c)
            a = int(bool(self.mm.is_inside_cell(self.container(x), c)))
            b = int(bool(dfs.is_inside_vertices(self.mesh, [int(v) for v in self.M.cells[c]], self.pt(x))))
            q.append([c, x, a, b])
        self.tr.put(ev='in', q=q)
        self.tr.flush()

    def facets(self):
        q = []
        R, M, d = self.R, self.M, self.dim
        for _ in range(self.npt):
            c = R.randrange(len(M.cells))
            x = self.cellpoint(c)
            if not all(lattice.dot(n, x) <= off * U for (_, n, off) in M.cf[c]):
                continue
            k = R.choice([0, 2, 8, 20, 60])
            w = [R.randint(-k, k) for _ in range(d)]
            if R.random() < 0.2:
                w = [a if R.random() < 0.5 else 0 for a in w]
            self.facet(q, c, x, w)
        self.tr.put(ev='ff', q=q)
        self.tr.flush()

    def region(self, g, ent):
        R, M, d, H = self.R, self.M, self.dim, self.H
        fact = {1: 1, 2: 2, 3: 6}[d]
        vs = 3.0 / (4.0 * math.pi * H ** 3) if self.sph else fact / H ** d
        n = int(g.ncell)
        inq = []
        for _ in range(6):
            j = R.randrange(n)
            cj = iv(g.cell_index[j])
            x = self.cellpoint(cj if R.random() < 0.6 else R.randrange(len(M.cells)))
            p = np.zeros(3)
            p[:d] = self.pt(x)
            inq.append([cj, x, int(bool(g.in_cell(p, j)))])
        self.tr.put(err=0, n=n, idx=[iv(c) for c in g.cell_index], lst=[iv(c.index()) for c in g.cell_list],
                    mid=[[lat(a, (d + 1) / H) for a in g.midpoint[j]] for j in range(n)],
                    vol=[lat(g.volume[j], vs) for j in range(n)],
                    reach=[int(all(math.sqrt(sum((float(g.midpoint[j][i]) - M.verts[v][i] * H) ** 2 for i in range(d))) <= 2 * float(g.radius[j]) + 1e-9
                                   for v in M.cells[iv(g.cell_index[j])])) for j in range(n)],
                    inq=inq, **ent)

    def regions(self):
        R, M, d, H = self.R, self.M, self.dim, self.H
        bb = M.bbox()
        made = []
        for _ in range(6):
            kind = R.choice(['rect', 'rect', 'rect', 'whole', 'sph'])
            if kind == 'sph' and d > 1:
                kind = 'rect'
            lo, hi = [], []
            for a, b in bb:
                p, q = R.randint(a * U - 4, b * U + 4), R.randint(a * U - 4, b * U + 4)
                if R.random() < 0.4:      # a bound that some midpoint may meet exactly
                    p = p // U * U
                if R.random() < 0.4:
                    q = -(-q // 8) * 8
                lo.append(min(p, q))
                hi.append(max(p, q))
            ent = dict(ev='reg', kind=kind, lo=lo, hi=hi)
            try:
                if kind == 'whole':
                    g = DM.WholeMesh_C(self.mm)
                elif kind == 'sph':
                    if (lo[0] + hi[0]) % 2:
                        hi[0] += 1
                    g = DM.SphericalRegion_C(self.mm, (lo[0] + hi[0]) / 2 * H / U, (hi[0] - lo[0]) / 2 * H / U)
                else:
                    pl, ph = self.pt(lo), self.pt(hi)
                    if d == 1:
                        pl, ph = pl[0], ph[0]
                    else:
                        pl, ph = tuple(pl), R.choice([tuple, list, np.array])(ph)
                    g = DM.RectangularRegion_C(self.mm, pl, ph)
            except RuntimeError:
                self.tr.put(err=1, **ent)
                continue
            self.region(g, ent)
            made.append((g, ent))
        for g, ent in R.sample(made, min(2, len(made))):     # regions made before others stay as they were
            self.region(g, ent)
        self.tr.flush()


def generated(tr, coord, seed, nmoves, fn):
    for k, l in enumerate(open(fn)):
        g = json.loads(l)
        o = One(tr, coord, random.Random('%s-%s-%s' % (coord, seed, k)), 0)
        if g['dim'] != o.dim:
            continue
        try:
            o.make(lattice.LMesh(g['dim'], g['verts'], g['cells']))
            o.tables()
            o.replay(g, nmoves)
        except (Exception, SystemExit) as e:
            tr.put(ev='crash', what=describe(e))
            tr.flush()


def main():
    out, coord, seed, n, npt = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
    tr = Trace(out)
    quiet_stdout()
    if len(sys.argv) > 6:
        generated(tr, coord, seed, n, sys.argv[6])
        n = 0
    for k in range(n):
        R = random.Random('%s-%s-%s' % (coord, seed, k))
        o = One(tr, coord, R, npt)
        try:
            o.make()
            o.tables()
            o.locate()
            o.facets()
            o.regions()
        except (Exception, SystemExit) as e:
            tr.put(ev='crash', what=describe(e))
            tr.flush()
    tr.close()
    done()


main()
