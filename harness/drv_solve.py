"""Poisson solves on integer-lattice meshes (mode solve) and the meshes the user classes build (mode user),
logged for spec/SolveTrace.tla.

  drv_solve.py OUT coord seed nruns mode      coord: cartesian_x | spherical_r | cartesian_xy | cartesian_xyz
"""
import sys, random
from vlib import *
import dt_pybind11_bridge          # noqa: F401
import numpy as np
import dolfin as df
import lattice
import Dolfin_Module as DM
import UserMesh_y_Fields_FE_XYZ_Module as UX
import UserMesh_y_Fields_Spherical1D_Module as US
import UserMesh_y_Fields_FE2D_Module as UC
import UserUnits_Module as UU

df.set_log_level(50)
PS = 1024
EPS = 8.854187817e-12
DIMS = {'cartesian_x': 1, 'spherical_r': 1, 'cartesian_xy': 2, 'cartesian_xyz': 3}
TOP = {'cartesian_x': ('xmin', 'xmax'), 'spherical_r': ('rmin', 'rmax'), 'cartesian_xy': ('rmin', 'rmax')}


def lat(x):
    r = round(x)
    return int(r) if abs(x - r) < 1e-5 * max(1, abs(x)) and abs(r) < BIG else BIG


class Solve:
    def __init__(self, tr, coord, R):
        self.tr, self.coord, self.R = tr, coord, R
        self.dim = DIMS[coord]
        self.sph = int(coord == 'spherical_r')

    def connected(self, M):
        seen, todo = {0}, [0]
        while todo:
            c = todo.pop()
            for o in range(len(M.cells)):
                if o not in seen and set(M.cells[o]) & set(M.cells[c]):
                    seen.add(o)
                    todo.append(o)
        return len(seen) == len(M.cells)

    def make(self):
        R = self.R
        for _ in range(100):
            M = lattice.pick_mesh(self.dim, R)
            if self.sph:
                off = min(v[0] for v in M.verts) - R.choice([0, 1, 2])
                M.verts = [(v[0] - off,) for v in M.verts]
            if self.connected(M):
                break
        else:
            return False
        # 'expr': source densities given as strings, on meshes of unit scale
        self.expr = R.random() < 0.4
        self.H = 1.0 if self.expr else 2.0 ** R.choice([-10, -3, -1, 0, 1, 4])
        self.M = M
        self.mesh = M.dolfin(self.H, R.randrange(1 << 30))
        mm = self.mm = DM.Mesh_C(Mesh=self.mesh, coordinate_system='1D-spherical-radial' if self.sph else 'Cartesian')
        self.phi = DM.Field_C(mm, 'CG', 1, 'scalar')
        self.negE = DM.Field_C(mm, 'DG', 0, 'vector') if R.random() < 0.8 else None
        self.Q = [DM.Field_C(mm, 'CG', 1, 'scalar') for _ in range(2)]
        self.vd = [int(a) for a in df.vertex_to_dof_map(self.phi.function_space)]
        ext = [f for f in range(len(M.facets)) if M.exterior(f)]
        a, b = R.sample([1, 2, 3, 7, 40], 2)
        mk = df.MeshFunction('size_t', self.mesh, self.dim - 1, 0)
        if self.dim == 1:
            R.shuffle(ext)
            A, B = ext[:1], ext[1:2]
        else:
            A = R.sample(ext, R.randint(1, max(1, len(ext) // 2)))
            va = {v for f in A for v in M.facets[f]}
            B = [f for f in ext if not va & set(M.facets[f])]
            B = R.sample(B, R.randint(0, len(B)))
        for f in A:
            mk[f] = a
        for f in B:
            mk[f] = b
        # a marked facet that neither condition refers to
        for f in ext:
            if f not in A and f not in B and R.random() < 0.3:
                mk[f] = 5
        pa, pb = R.randint(-20, 20), R.randint(-20, 20)
        lo, hi = TOP[self.coord]
        swap = R.random() < 0.5
        if swap:
            lo, hi = hi, lo
        unset = self.sph and R.random() < 0.35 and B
        bc = {lo: (a, float(pa)), hi: (b, float(pb))}
        drop = None
        if unset:
            bc['rmin'] = (bc['rmin'][0], 'unset')
            drop = bc['rmin'][0]
        D = {}
        for F, t, p in ((A, a, pa), (B, b, pb)):
            if t != drop:
                for f in F:
                    for v in M.facets[f]:
                        D[v] = p
        cls = {'cartesian_x': UX.UserPoissonSolve1D_C, 'spherical_r': US.UserPoissonSolve1DS_C, 'cartesian_xy': UC.UserPoissonSolve2DCirc_C}[self.coord]
        self.tr.put(ev='mesh', dim=self.dim, sph=self.sph, verts=M.verts, cells=M.cells, facets=M.facets, coord=self.coord, H=self.H,
                    dir=[[v, D[v]] for v in sorted(D)], E=int(self.negE is not None))
        self.tr.flush()
        self.S = cls(self.phi, R.choice([None, 'lu']), None, mk, bc, neg_electric_field=self.negE)
        df.set_log_level(50)
        return True

    def put(self, F, vals, k):
        v = np.zeros(len(vals))
        for d, x in zip(self.vd, vals):
            v[d] = x * k
        F.function.vector().set_local(v)
        F.function.vector().apply('insert')

    def get(self, F, k, s=PS):
        v = F.function.vector().get_local()
        return [sc(v[d] / k, s) for d in self.vd]

    def run(self):
        R = self.R
        if not self.make():
            return
        if self.then:
            R.seed(self.then)
        nv = len(self.M.verts)
        bu = EPS * (self.H if self.sph else self.H ** (self.dim - 2))        # unit of b
        q = [[0] * nv, [0] * nv]
        for _ in range(R.choice([2, 4, 6])):
            op = R.choice(['src', 'charge', 'solve', 'solve', 'csolve', 'csolve'])
            if op == 'src':
                if self.expr:
                    c = R.choice([[2, 0], [1, 3], [-1, 1]] if self.dim == 1 else [[2, 0, 0], [1, 3, -1], [-1, 0, 2]])
                    self.S.assemble_source_expression('%r*(%s)' % (EPS, ' + '.join(['%.1f' % c[0]] + ['%.1f*x[%d]' % (c[i + 1], i) for i in range(self.dim)])))
                else:
                    c0 = R.choice([0, 1, -2, 3])
                    c = [c0] + [0] * self.dim
                    k = EPS / self.H ** 2
                    self.S.assemble_source_expression(R.choice([None, 0, 0.0]) if c0 == 0 else c0 * k)
                self.tr.put(ev='src', c=c)
            elif op == 'charge':
                j = R.randrange(2)
                q[j] = [R.randint(-3, 3) for _ in range(nv)]
                self.put(self.Q[j], q[j], bu)
            else:
                j, fac = -1, None
                if op == 'csolve':
                    j = R.randrange(2)
                    fac = R.choice([None, None, 1.0, 0.5, 2.0, 0.0])
                    kw = {} if fac is None else {'assembled_charge_factor': fac}
                    self.S.solve_for_phi(assembled_charge=self.Q[j].F if hasattr(self.Q[j], 'F') else self.Q[j], **kw)
                else:
                    self.S.solve_for_phi()
                after = [self.get(self.Q[n], bu, 1024) for n in range(2)]
                E, al = [], 1
                if self.negE is not None:
                    v = self.negE.function.vector().get_local()
                    V = self.negE.function_space
                    subs = [V] if self.dim == 1 else [V.sub(i) for i in range(self.dim)]
                    E = [[sc(v[int(s.dofmap().cell_dofs(c)[0])] * self.H, PS) for s in subs] for c in range(len(self.M.cells))]
                    al = int((self.negE.function_values.get_local() == v).all())
                al = al and int((self.phi.function_values.get_local() == self.phi.function.vector().get_local()).all())
                self.tr.put(ev='solve', j=j, fac=2 if fac is None else int(2 * fac), Q=[[sc(x, 1024) for x in l] for l in q], after=after, phi=self.get(self.phi, 1.0), E=E, alias=int(al))
                # the charge may be left scaled by the factor
                if j >= 0 and fac is not None:
                    if after[j] != [int(x * 1024) for x in q[j]]:
                        q[j] = [a / 1024 for a in after[j]]
            self.tr.flush()


class User:
    def __init__(self, tr, coord, R):
        self.tr, self.coord, self.R = tr, coord, R
        self.dim = DIMS[coord]

    def tables(self, mm, f):
        m = mm.mesh
        d = m.topology().dim()
        m.init(d - 1)
        m.init(d - 1, 0)
        X = m.coordinates()
        verts = [f([float(a) for a in X[i]]) for i in range(X.shape[0])]
        cells = [[int(v) for v in c] for c in m.cells()]
        t = m.topology()(d - 1, 0)
        facets = [[i] for i in range(len(verts))] if d == 1 else [[int(v) for v in t(i)] for i in range(m.num_entities(d - 1))]

        def tags(name):
            mk = getattr(mm, name, None)
            return [] if mk is None else [int(mk[i]) for i in range(len(facets))]
        return dict(verts=verts, cells=cells, facets=facets, fm=tags('field_boundary_marker'), pm=tags('particle_boundary_marker'))

    def tags(self, names, p):
        if self.R.random() > p:
            return None
        return dict(zip(names, self.R.sample([1, 2, 4, 8, 16, 32, 3, 100], len(names))))

    def seq(self, d, names):
        return [] if d is None else [d[n] for n in names]

    def kw(self):
        R = self.R
        return dict(compute_dictionaries=R.random() < 0.5, compute_cpp_arrays=R.random() < 0.3, compute_tree=R.random() < 0.5)

    def run(self):
        R, d = self.R, self.dim
        kind = {'cartesian_x': 'box', 'cartesian_xyz': 'box', 'spherical_r': 'rad'}.get(self.coord) or R.choice(['box', 'circ'])
        H = 2.0 ** R.choice([-4, 0, 3])
        if kind == 'box':
            n = [R.choice([1, 2, 3, 5] if d < 3 else [1, 2, 3]) for _ in range(d)]
            st = [R.choice([1, 2, 3]) for _ in range(d)]
            lo = [R.randint(-5, 5) for _ in range(d)]
            names = [a + e for a in 'xyz'[:d] for e in ('min', 'max')]
            fd = self.tags(names[:2], 0.7) if d == 1 else None
            pd = self.tags(names, 0.8)
            i = UX.UserMeshInput_C()
            i.pmin = df.Point(*[float(a) * H for a in lo])
            i.pmax = df.Point(*[float(a + k * s) * H for a, k, s in zip(lo, n, st)])
            i.cells_on_side = tuple(n)
            diag = R.choice([None, 'left', 'right', 'left/right', 'crossed']) if d == 2 else None
            i.diagonal = diag
            i.field_boundary_dict, i.particle_boundary_dict = fd, pd
            mm = UX.UserMesh_C(i, **self.kw())
            f = lambda x: [lat(2 * a / H) for a in x]
            par = dict(lo=lo, st=st, n=n, s=1)
        else:
            nr = R.choice([1, 2, 3, 5])
            s = R.choice([1, 1, 2, 3])
            L = R.choice([1, 2])
            diag = R.choice(['left', 'right', 'left/right', 'crossed']) if kind == 'circ' else None
            rmin = R.choice([1, 2, 7] if kind == 'circ' else [0, 1, 5])
            names = ['rmin', 'rmax']
            i = UC.UserMeshInput2DCirc_C() if kind == 'circ' else US.UserMeshInput1DS_C()
            i.rmin, i.rmax = rmin * H, (rmin + L * (2 * nr) ** s) * H
            i.nr, i.stretch = nr, R.choice([s, float(s)])
            fd = self.tags(names, 0.7)
            i.field_boundary_dict = fd
            n, st, lo = [nr], [L], [rmin]
            if kind == 'circ':
                nt = R.choice([1, 2, 4])
                i.tmax, i.nt, i.diagonal = R.choice([math.pi / 2, math.pi / 8, math.pi, 1.3, 4.0]), nt, diag
                n, st, lo = n + [nt], st + [1], lo + [0]
                names = names + ['thmin', 'thmax']

                def f(x):
                    th = math.atan2(x[1], x[0])
                    if th < -1e-9:
                        th += 2 * math.pi
                    return [lat(math.hypot(x[0], x[1]) / H), lat(th / i.tmax * 2 * nt)]
            else:
                f = lambda x: [lat(x[0] / H)]
            pd = self.tags(names, 0.8)
            i.particle_boundary_dict = pd
            mm = (UC.UserMesh2DCirc_C if kind == 'circ' else US.UserMesh1DS_C)(i, **self.kw())
            par = dict(lo=lo, st=st, n=n, s=s)
        t = self.tables(mm, f)
        self.tr.put(ev='umesh', kind=kind, dim=len(n), diag=diag or 'none', fd=self.seq(fd, names[:2]), pd=self.seq(pd, names), kept=int(mm.field_boundary_dict is fd and mm.particle_boundary_dict is pd),
                    **par, **t)
        self.tr.flush()
        # the same through files
        if R.random() < 0.5:
            mf = 'm%d.xml' % R.randrange(10)
            df.File(mf) << mm.mesh
            names = {}
            for a in ('field', 'particle'):
                mk = getattr(mm, a + '_boundary_marker', None)
                if mk is not None and (kind != 'box' or a == 'field'):
                    names[a] = a + '.xml'
                    df.File(names[a]) << mk
            if kind == 'box':
                m2 = DM.Mesh_C(mesh_file=mf, coordinate_system='Cartesian', field_boundary_marker_file=names.get('field'))
                kept = 1
            else:
                j = i.__class__()
                j.mesh_file, j.field_boundary_file, j.particle_boundary_file = mf, names.get('field'), names.get('particle')
                j.field_boundary_dict, j.particle_boundary_dict = fd, pd
                m2 = (UC.UserMesh2DCirc_C if kind == 'circ' else US.UserMesh1DS_C)(j, **self.kw())
                kept = int(m2.field_boundary_dict is fd and m2.particle_boundary_dict is pd)
            self.tr.put(ev='ufile', pf=int('field' in names), pp=int('particle' in names), kept=kept, **self.tables(m2, f))


def main():
    out, coord, seed, n, mode = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4]), sys.argv[5]
    seed, then = split_seed(seed)
    tr = Trace(out)
    quiet_stdout()
    for k in range(n):
        R = random.Random('%s-%s-%s-%s' % (coord, seed, k, mode))
        try:
            o = (Solve if mode == 'solve' else User)(tr, coord, R)
            o.then = then and '%s %d' % (then, k)
            o.run()
        except (Exception, SystemExit) as e:
            import traceback
            tr.put(ev='crash', what=describe(e), tb=traceback.format_exc()[-1200:])
            tr.flush()
    tr.close()
    done()


main()
