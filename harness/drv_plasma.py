"""Runs whole simulations (particles, movers, boundary functions, trajectories, histories, sources,
output files) of the real code on integer-lattice meshes and logs them for spec/PlasmaTrace.tla.

  drv_plasma.py OUT impl coord seed nruns mode [schedules]     mode: run | sweep | uniform | limit | script
"""
import sys, os, random
from vlib import *
import dt_pybind11_bridge          # noqa: F401
import numpy as np
import dolfin as df
import lattice
from lattice import U
import Particle_Module as PM
import Dolfin_Module as DM
import DT_Module
import RecordedData_Module as RM

df.set_log_level(50)
X0S = 4096          # scale of logged non-lattice positions (per vertex unit)
TS = 16384          # scale of logged times and fractions
COORDS = {'cartesian_x': ['x'], 'spherical_r': ['r'], 'cartesian_xy': ['x', 'y'], 'cartesian_xyz': ['x', 'y', 'z']}
NAMES = ['test_electrons', 'ions', 'neutral_H', 'neutral_He']


def lat(v, k):
    """v*k if that is an integer to 1e-6, else BIG."""
    try:
        x = float(v) * k
    except Exception:
        return BIG
    if x != x or abs(x) > 1e8:
        return BIG
    r = round(x)
    return int(r) if abs(x - r) < 1e-6 else BIG


class Run:
    def __init__(self, tr, impl, coord, R, mode, mid):
        self.tr, self.impl, self.coord, self.R, self.mode = tr, impl, coord, R, mode
        self.dim = len(COORDS[coord])
        self.names = COORDS[coord]
        self.H = 2.0 ** R.choice([-21, -3, -1, 0, 1, 4, 12])
        self.dt = 2.0 ** R.choice([-20, -4, 0, 2])
        self.L = R.choice([1, 2, 3, 5, 8])
        if mode == 'sweep':
            self.L = R.choice([7, 32, 100])
        self.tk = R.choice([0, 0, 7])
        self.step = R.choice([0, 0, 3])
        self.wscale = U / self.H * self.dt           # u -> w
        self.escale = U / self.H * self.dt * self.dt  # E -> lattice units
        self.g = 1
        vary = mode in ('run', 'script', 'uniform', 'limit') and R.random() < 0.3
        self.gs = [R.choice([1, 2]) if vary else 1 for _ in range(40)]     # time units in each time step

    # ------------------------------------------------------------- set up
    def pick(self):
        R, dim = self.R, self.dim
        if self.mode == 'sweep' and dim == 2:
            M = R.choice([lattice.rect(1, 1, 'right'), lattice.rect(1, 1, 'left', ox=-1), lattice.rect(1, 1, 'crossed', 2, 2), lattice.triangle(2)])
        elif self.mode == 'sweep' and dim == 3:
            M = lattice.box(1, 1, 1, R.choice(['six', 'five']))
        else:
            M = lattice.pick_mesh(dim, R)
        if self.coord == 'spherical_r':
            off = min(v[0] for v in M.verts)
            M.verts = [(v[0] - off + R.choice([0, 1]) * 0 + self.roff,) for v in M.verts]
        self.M = M
        self.mesh = M.dolfin(self.H, R.randrange(1 << 30))

    def species(self):
        R = self.R
        both = not (self.impl == 'cpp' and self.coord != 'cartesian_xy')
        names = list(NAMES)
        R.shuffle(names)
        k = R.choice([1, 2, 3])
        if self.mode == 'script' and both:
            k = 3
            while len(set(n.startswith('neutral') for n in names[:2])) < 2:
                R.shuffle(names)
        self.sp = []
        for n in names[:k]:
            charged = not n.startswith('neutral') if self.mode == 'script' or R.random() < 0.8 else R.random() < 0.5
            if self.impl == 'cpp' and self.coord in ('cartesian_x', 'spherical_r'):
                charged = True
            if self.impl == 'cpp' and self.coord == 'cartesian_xyz':
                charged = False
            if self.mode == 'uniform':
                charged = True
            m = R.choice([1.0, 2.0, 0.5])
            qm = R.choice([1, -1, 2, -2]) if charged else 0
            self.sp.append({'name': n, 'qm': qm, 'm2': int(2 * m), 'ch': int(charged)})
        return both

    def boundaries(self):
        R, M = self.R, self.M
        ext = [f for f in range(len(M.facets)) if M.exterior(f)]
        inter = [f for f in range(len(M.facets)) if not M.exterior(f)]
        names = ['rmin', 'rmax', 'side', 'wall', 'inner']
        vals = R.sample(range(1, 12), len(names))
        self.tags = dict(zip(names, vals))
        self.mark = [0] * len(M.facets)
        skew = set()
        for f in ext:
            n = M.normal(f)
            self.mark[f] = self.tags['wall'] if sum(a * a for a in n) > 2 else self.tags[R.choice(['rmin', 'rmin', 'rmax', 'side'])]
        if self.mode == 'limit' and R.random() < 0.6:
            for f in R.sample(ext, R.randint(1, len(ext))):
                self.mark[f] = 0
        if self.impl == 'py':
            self.fns = {'default_bc': R.choice(['absorb', 'absorb', 'reflect']), 'default_bc_at_wall': 'absorb', 'default_bc_at_inner': 'pass'}
            for nm in ('rmin', 'rmax', 'side'):
                if R.random() < 0.5:
                    self.fns['default_bc_at_' + nm] = R.choice(['absorb', 'reflect'])
            for nm in ('rmin', 'rmax', 'side'):
                for s in self.sp:
                    if R.random() < 0.35:
                        self.fns['bc_at_%s_for_%s' % (nm, s['name'])] = R.choice(['absorb', 'reflect', 'reflect'])
            if R.random() < 0.3:     # a species-specific function at the inner surface
                self.fns['bc_at_inner_for_' + self.sp[0]['name']] = 'pass'
            if R.random() < 0.5:     # functions that must not be picked
                self.fns['bc_at_nowhere_for_' + self.sp[0]['name']] = 'absorb'
                self.fns['default_bc_at_other'] = 'absorb'
                self.fns['bc_at_rmin_for_somebody'] = 'absorb'
            if R.random() < 0.2:     # no function for everything
                del self.fns['default_bc']
                for nm in ('rmin', 'rmax', 'side'):
                    if 'default_bc_at_' + nm not in self.fns:
                        for s in self.sp:
                            self.fns.setdefault('bc_at_%s_for_%s' % (nm, s['name']), R.choice(['absorb', 'reflect']))
                self.tags['unused'] = 12      # a boundary without facets needs no function
            if self.mode == 'limit' and R.random() < 0.4:      # does nothing about the particle
                self.fns['default_bc_at_' + R.choice(['rmin', 'rmax', 'side'])] = 'pass'
            if inter and R.random() < 0.5:
                for f in R.sample(inter, min(len(inter), R.randint(1, 4))):
                    self.mark[f] = self.tags['inner']
        elif self.coord == 'spherical_r':
            self.fns = {'default_bc': 'absorb', 'default_bc_at_rmin': 'reflect'}
        else:
            self.fns = {'default_bc': 'absorb', 'default_bc_at_rmin': 'absorb', 'bc_at_rmin_for_test_electrons': 'reflect'}
        inv = {v: k for k, v in self.tags.items()}

        def kind(s, f):
            v = self.mark[f]
            if v == 0:
                return None
            for g in ('bc_at_%s_for_%s' % (inv[v], s), 'default_bc_at_' + inv[v], 'default_bc'):
                if g in self.fns:
                    return self.fns[g]
        self.kind = kind

    def fields(self):
        """Fields used by the run: list of records the specification evaluates."""
        R, M = self.R, self.M
        out = []
        bb = M.bbox()
        small = max(max(abs(a), abs(b)) for a, b in bb) <= 2
        for k in range(R.choice([1, 2])):
            if small and self.impl == 'py' and R.random() < 0.4:      # the C++ code is for cell-wise constant fields
                a = [R.randint(-4, 4) for _ in range(self.dim)]
                b = [[R.choice([-1, 0, 0, 1]) for _ in range(self.dim)] for _ in range(self.dim)]
                out.append({'kind': 'affine', 'a': a, 'b': b})
            else:
                out.append({'kind': 'dg0', 'v': [[R.randint(-6, 6) for _ in range(self.dim)] for _ in M.cells]})
        return out

    def evalE(self, fld, cell, x):
        if fld is None:
            return [0] * self.dim
        if fld['kind'] == 'dg0':
            return fld['v'][cell]
        return [fld['a'][i] + sum(fld['b'][i][j] * x[j] for j in range(self.dim)) for i in range(self.dim)]

    def build_field(self, fld, sign):
        F = DM.Field_C(self.mesh_M, 'DG' if fld['kind'] == 'dg0' else 'CG', 0 if fld['kind'] == 'dg0' else 1, 'vector')
        V = F.function_space
        vec = F.function.vector()
        arr = np.zeros(vec.size())
        for i in range(self.dim):
            sub = V.sub(i) if self.dim > 1 else V
            if fld['kind'] == 'dg0':
                for c in range(len(self.M.cells)):
                    arr[sub.dofmap().cell_dofs(c)[0]] = sign * fld['v'][c][i] / self.escale
            else:
                xs = V.tabulate_dof_coordinates().reshape(-1, self.dim)
                for d in sub.dofmap().dofs():
                    x = [v / self.H * U for v in xs[d]]
                    arr[d] = sign * (fld['a'][i] + sum(fld['b'][i][j] * x[j] for j in range(self.dim))) / self.escale
        vec.set_local(arr)
        vec.apply('insert')
        return F

    def plan(self):
        """The schedule of the run."""
        R = self.R
        P = []
        n = 1 if self.mode in ('sweep', 'limit') else 24 if self.mode == 'run' and R.random() < 0.05 else R.choice([2, 3, 4, 6])
        anyc = any(s['ch'] for s in self.sp)
        anyn = any(not s['ch'] for s in self.sp)
        legacy = self.impl == 'py' and self.mode in ('run', 'script') and R.random() < 0.2
        useext = self.impl == 'py' and R.random() < 0.35
        applies = {'solved': [1] * len(self.sp), 'ext': [1] * len(self.sp)}
        self.apply = 0
        if self.mode in ('run', 'script') and R.random() < 0.35:
            applies = {'solved': [R.choice([0, 1]) for _ in self.sp], 'ext': [R.choice([0, 1]) for _ in self.sp]}
            self.apply = 1
        self.applies = applies
        vary = self.apply and R.random() < 0.4         # switched on and off during the run
        self.aps = [{'solved': [R.choice([0, 1]) for _ in self.sp], 'ext': [R.choice([0, 1]) for _ in self.sp]} if vary else applies for _ in range(40)]
        if self.mode == 'script':
            k = -1
            for o in self.script:
                if o == 'T':
                    k += 1
                    P.append(('tick', k))
                elif o == 'A':
                    if anyc:
                        P.append(('adv', 'legacy' if legacy else 'charged', R.randrange(len(self.flds)), R.randrange(len(self.flds)) if useext else -1, 0, k))
                elif o == 'N':
                    if anyn:
                        P.append(('adv', 'neutral', -1, -1, 0, k))
                else:
                    P.append(({'S': 'src', 'R': 'rec', 'H': 'hist', 'W': 'write', 'C': 'close'}[o], k))
            self.steps = max(k + 1, 1)
            return P
        if self.mode == 'uniform':
            self.steps = n
            return [('adv', 'uniform', -1, [R.randint(-6, 6) for _ in range(3)], 0, k) for k in range(n)]
        for k in range(n):
            if anyc:
                f = R.randrange(len(self.flds))
                if self.impl == 'py' and R.random() < 0.15:
                    f = -1
                x = R.randrange(len(self.flds)) if useext and R.random() < 0.8 else -1
                P.append(('adv', 'legacy' if legacy else 'charged', f, x, int(self.mode == 'run' and R.random() < 0.15), k))
            if anyn:
                P.append(('adv', 'neutral', -1, -1, 0, k))
            if R.random() < 0.5 and self.mode == 'run':
                P.append(('src', k))
        self.steps = n
        return P

    def force(self, s, ev, cell, x):
        """Lattice acceleration of species s by advance event ev."""
        i = self.sp.index(s)
        E = [0] * self.dim
        if ev[2] >= 0 and self.aps[ev[-1]]['solved'][i]:
            E = [a + b for a, b in zip(E, self.evalE(self.flds[ev[2]], cell, x))]
        if ev[3] >= 0 and self.aps[ev[-1]]['ext'][i]:
            E = [a + b for a, b in zip(E, self.evalE(self.flds[ev[3]], cell, x))]
        return [s['qm'] * e for e in E]

    def survives(self, s, cell, x, w, start):
        """Is the life of this particle free of degenerate moves?"""
        for ev in self.P[start:]:
            if ev[0] != 'adv' or (ev[1] == 'neutral') == bool(s['ch']):
                continue
            a = self.force(s, ev, cell, x)
            g = self.gs[ev[-1]]
            w = tuple(p + g * q for p, q in zip(w, a))
            if g * max(abs(v) for v in w) > 100:
                return False
            if ev[4]:
                continue
            r = lattice.walk(self.M, lambda f: self.kind(s['name'], f), cell, x, w, leave=self.mode == 'limit', g=g)
            if r is None:
                return False
            alive, cell, x, w, _ = r
            if not alive:
                return True
        return True

    def sample(self, s, start=0, wmax=None):
        R, M = self.R, self.M
        if self.mode == 'uniform':
            return R.randrange(len(M.cells)), tuple(R.randint(-400, 400) for _ in range(3)), tuple(R.randint(-50, 50) for _ in range(3))
        for _ in range(400):
            c = R.randrange(len(M.cells))
            lo = [min(M.verts[v][i] for v in M.cells[c]) * U for i in range(self.dim)]
            hi = [max(M.verts[v][i] for v in M.cells[c]) * U for i in range(self.dim)]
            x = tuple(R.randint(a, b) for a, b in zip(lo, hi))
            if not M.strictly_inside(c, x):
                continue
            k = wmax or R.choice([3, 12, 20, 40])
            w = tuple(R.randint(-k, k) for _ in range(self.dim))
            if self.survives(s, c, x, w, start):
                return c, x, w
        return None

    # ---------------------------------------------------------- real objects
    def record_of(self, c, x, w, uid, flags, wt):
        X = [v * self.H / U for v in x]
        X0 = [v + self.H * 8 for v in X]          # a value the mover has to replace
        return tuple(X + X0 + [v / self.wscale for v in w] + [float(wt), flags, c, uid, 77])

    def make(self):
        R = self.R
        PM.Particle_C.SEGMENT_LENGTH = self.L
        alldicts = self.impl == 'cpp' or R.random() < 0.5
        self.mesh_M = DM.Mesh_C(Mesh=self.mesh, coordinate_system='1D-spherical-radial' if self.coord == 'spherical_r' else 'Cartesian',
                                compute_dictionaries=alldicts, compute_tree=True)
        if not alldicts:                          # the rest is made by initialize_particle_mesh()
            self.mesh_M.compute_cell_dict()
            self.mesh_M.compute_vertex_cells_dict()
        pin = PM.ParticleInput_C()
        pin.precision = np.float64
        pin.particle_species = tuple(PM.ParticleSpecies_C(s['name'], s['qm'] * s['m2'] / 2, s['m2'] / 2, 'explicit' if s['ch'] else 'neutral') for s in self.sp)
        pin.coordinate_system = self.coord
        pin.use_cpp_integrators = self.impl == 'cpp'
        pin.force_components = list(self.names)
        pin.force_precision = np.float64
        P = self.part = PM.Particle_C(pin)
        PM.Particle_C.UNIQUE_ID_COUNTER = 0
        P.initialize_particle_mesh(self.mesh_M)
        if not (self.mode == 'uniform' and self.impl == 'cpp'):
            P.initialize_particle_integration()
        mk = df.MeshFunction('size_t', self.mesh, self.dim - 1, 0)
        for f, v in enumerate(self.mark):
            mk[f] = v
        self.mesh_M.particle_boundary_marker = mk
        self.mesh_M.particle_boundary_dict = dict(self.tags)
        sn = [s['name'] for s in self.sp]
        self.calls = []
        if self.impl == 'py':
            P.pmesh_bcs = PM.ParticleMeshBoundaryConditions_C(sn, self.mesh_M, self.bc_object())
        else:
            pc = list(self.names)
            if self.coord == 'spherical_r':
                import upbfs_spherical_r_solib as ub
            elif self.coord == 'cartesian_x':
                import user_particle_boundary_functions_cartesian_x_solib as ub
            elif self.coord == 'cartesian_xyz':
                import user_particle_boundary_functions_cartesian_xyz_solib as ub
            elif R.random() < 0.5:
                import user_particle_boundary_functions_cartesian_xy_solib as ub
            else:
                import user_particle_boundary_functions_2D_e_cartesian_xy_solib as ub
            self.ub = ub.UserParticleBoundaryFunctions(pc)
            P.pmesh_bcs = P.particle_solib.ParticleMeshBoundaryConditions(sn, self.mesh_M, self.ub, False)
        c = self.ctrl = DT_Module.DTcontrol_C()
        c.title, c.author = 't', 'a'
        c.dt = self.dt
        c.n_timesteps = self.steps
        c.time, c.timeloop_count = self.tk * self.dt, self.step
        c.MAX_FACET_CROSS_COUNT = 20
        c.write_trajectory_files = False
        if self.apply:
            self.switch(self.applies)
        self.npts = 0
        if self.track:
            ti = RM.TrajectoryInput_C()
            ti.max_points = R.choice([None, None, None, 1, 2, 3, 5])
            ti.extra_points = R.choice([0, 1, 3, 30])
            full = ['step', 't'] + self.names + ['u' + a for a in self.names] + ['unique_ID']
            fmt = [int, np.float64] + [np.float64] * (2 * self.dim) + [int]
            ti.neutral_dict = {'names': list(full), 'formats': list(fmt)}
            ti.charged_dict = {'names': full + ['E' + a for a in self.names] + ['E%s_ext' % a for a in self.names],
                               'formats': fmt + [np.float64] * (2 * self.dim)}
            P.traj_T = RM.Trajectory_C(ti, c, P.charged_species, P.neutral_species, P.species_index, P.mass, P.charge)
            self.npts = int(P.traj_T.npoints)
        self.seen = {s['name']: [] for s in self.sp}
        self.hist = self.out = False
        if self.mode == 'run':
            self.hist = R.random() < 0.6
            self.out = R.random() < 0.6
        if self.mode == 'script':
            self.hist, self.out = 'H' in self.script, 'W' in self.script or 'C' in self.script
        if self.hist:
            hi = RM.ParticleHistoryInput_C()
            hi.max_points = R.choice([None, None, None, 1, 2, 3, 5])
            hi.scalar_histories = R.choice([['count', 'KE'], ['KE', 'count'], ['KE']])
            P.histories = RM.ParticleHistory_C(hi, c, P.history_function_dict, P.species_names)
        if self.out:
            at = ['species_index', 'weight', 'bitflags', 'cell_index', 'unique_ID', 'crossings'] + self.names + ['u' + a for a in self.names]
            R.shuffle(at)
            c.particle_output_attributes = at[:R.choice([2, 5, len(at)])]
            P.check_particle_output_parameters(c)
        self.pos = [self.build_field(f, 1.0) for f in self.flds]      # +E, used as an external field
        self.neg = [self.build_field(f, -1.0) for f in self.flds]     # -E, as the solver gives it
        np.random.normal = lambda loc=0.0, scale=1.0, size=None: np.ones(size or 1)

    def bc_object(self):
        import UserParticles_2D_e, UserParticles_1D
        P, me = self.part, self
        refl = [UserParticles_2D_e.UserParticleBoundaryFunctions_C(self.names, P.dx).bc_at_rmin_for_test_electrons,
                UserParticles_1D.UserParticleBoundaryFunctions_C(self.names, P.dx).default_bc_at_rmin]

        class BC(object):
            pass
        o = BC()
        for n, kind in self.fns.items():
            r = self.R.choice(refl)

            def fn(p, species_name, facet_index, dx_fraction=None, facet_normal=None, n=n, kind=kind, r=r):
                d = me.dim
                me.calls.append({'uid': iv(p['unique_ID']), 'sp': str(species_name), 'fn': n, 'f': iv(facet_index), 'fr': sc(dx_fraction, TS),
                                 'n': [sc(facet_normal[i], X0S) for i in range(d)], 'dx': [sc(P.dx[i] / me.H, X0S) for i in range(d)],
                                 'x': [lat(p[a], U / me.H) for a in me.names], 'w': [lat(p['u' + a], me.wscale) for a in me.names],
                                 'x0': [sc(p[a + '0'] / me.H, X0S) for a in me.names]})
                if kind == 'reflect':
                    r(p, species_name, facet_index, dx_fraction=dx_fraction, facet_normal=facet_normal)
                elif kind == 'absorb':
                    p['bitflags'] = p['bitflags'] | PM.Particle_C.DELETE_FLAG
            setattr(o, n, fn)
        return o

    # ---------------------------------------------------------- observations
    def items(self, s):
        sap = self.part.sap_dict[s]
        out = []
        for i in range(int(sap.get_number_of_items())):
            seg, off = sap.get_segment_and_offset(i)
            out.append(seg[off])
        return out

    def obs(self):
        a, b = [], []
        T = self.part.traj_T
        for s in self.sp:
            its = self.items(s['name'])
            a.append([[iv(p['unique_ID']), [lat(p[k], U / self.H) for k in self.names], [lat(p['u' + k], self.wscale) for k in self.names],
                       [sc(p[k + '0'] / self.H, X0S) for k in self.names], lat(p['weight'], 1), iv(p['bitflags']), iv(p['cell_index']),
                       iv(p['crossings'])] for p in its])
            tl = []
            if T is not None:
                n = s['name']
                for j in range(len(T.data_list[n])):
                    if j >= len(self.seen[n]):
                        self.seen[n].append(0)
                    ln = int(T.trajectory_length[n][j])
                    idx = int(T.particle_index_list[n][j])
                    cur = -1 if idx == -1 else (iv(its[idx]['unique_ID']) if 0 <= idx < len(its) else -2)
                    recs = [self.rec(s, T.data_list[n][j][q]) for q in range(self.seen[n][j], min(ln, self.npts))]
                    self.seen[n][j] = ln
                    tl.append({'uid': iv(T.particle_unique_id_list[n][j]), 'len': ln, 'cur': cur, 'recs': recs})
            b.append(tl)
        return {'sp': a, 'tr': b}

    def rec(self, s, d):
        out = {'s': iv(d['step']), 't': sc(float(d['t']) / self.dt - (self.tk - self.g), TS), 'ta': sc(float(d['t']) / self.dt, TS), 'x': [sc(d[k] / self.H, X0S) for k in self.names],
               'w': [lat(d['u' + k], self.wscale) for k in self.names], 'uid': iv(d['unique_ID'])}
        if s['ch']:
            out['E'] = [lat(d['E' + k], self.escale) for k in self.names]
            out['Ex'] = [lat(d['E%s_ext' % k], self.escale) for k in self.names]
        return out

    # ------------------------------------------------------------------- run
    def go(self):
        R = self.R
        self.roff = R.choice([0, 1])
        self.pick()
        self.species()
        self.boundaries()
        self.flds = self.fields()
        self.P = self.plan()
        self.track = self.mode == 'run' and R.random() < 0.8 or self.mode == 'script' and ('R' in self.script or R.random() < 0.5)
        self.make()
        if self.then:
            R.seed(self.then)
        P, ctrl = self.part, self.ctrl
        M = self.M
        self.tr.put(ev='run', dim=self.dim, verts=M.verts, cells=M.cells, facets=M.facets, impl=self.impl, coord=self.coord, L=self.L,
                    mode=self.mode, sp=[dict(s) for s in self.sp], mark=self.mark, tags=self.tags, fns=self.fns, flds=self.flds,
                    applies=self.applies, npts=self.npts, track=int(self.track), names=self.names)
        self.tr.flush()
        uid = R.choice([0, 100])
        # initial particles, from a list
        self.uid = uid
        self.listed(0, True)
        if self.mode in ('run', 'script', 'uniform') and R.random() < 0.35:
            self.listed(0)
        if self.mode in ('run', 'script') and R.random() < 0.5:
            # forget the cells and have the code find them again
            for s in self.sp:
                for p in self.items(s['name']):
                    p['cell_index'] = -1
            P.compute_mesh_cell_indices()
            self.tr.put(ev='locate', obs=self.obs())
        # sources: user functions that add lattice particles
        P.particle_source_dict = {}
        srccalls = []
        nsrc = R.choice([1, 2])
        regs = [object(), object()]
        ivals = [R.choice([1, 2, 3]) for _ in range(nsrc)]
        pend = {'k': 0}
        for k in range(nsrc):
            s = R.choice(self.sp)
            par = {'timestep_interval': ivals[k], 'species_name': s['name']}

            def fn(step, time, region, params, negE, extE, k=k, s=s, par=par):
                add = []
                for _ in range(R.choice([0, 1, 2])):
                    q = self.sample(s, start=pend['k'])
                    if q is None:
                        continue
                    rec = self.record_of(q[0], q[1], q[2], self.uid, 0, 1)
                    P.sap_dict[s['name']].push_back(rec)
                    add.append([self.uid, list(q[1]), list(q[2]), [sc(v / U + 8, X0S) for v in q[1]], 1, 0, q[0], 77])
                    self.uid += 1
                srccalls.append({'src': k, 'step': iv(step), 't': sc(float(time) / self.dt - self.tk, TS), 'reg': [i for i in range(2) if regs[i] is region][0] if region in regs else -1,
                                 'par': int(params is par), 'neg': 1 if negE is self.negarg[0] and extE is self.negarg[1] else 0, 'sp': self.sp.index(s), 'add': add})
            P.particle_source_dict['src%d' % k] = (par, fn, regs[k % 2])
        if self.mode == 'script':
            if self.out:
                self.open_out()
            for n, ev in enumerate(self.P):
                o = ev[0]
                if R.random() < 0.05:
                    self.listed(n)
                if o == 'tick':
                    self.tick(ev[-1])
                elif o == 'adv':
                    self.advance(ev)
                elif o == 'src':
                    pend['k'] = n + 1
                    del srccalls[:]
                    self.negarg = (R.choice(self.neg + [None]), R.choice(self.pos + [None]))
                    P.add_more_particles(ctrl, neg_E_field=self.negarg[0], external_E_field=self.negarg[1])
                    self.tr.put(ev='src', step=self.step, ivals=ivals, calls=list(srccalls), obs=self.obs())
                elif o == 'rec':
                    self.record(R.randrange(len(self.flds)))
                    if R.random() < 0.15:      # written early, and again later
                        self.traj_files(keep=True)
                elif o == 'hist':
                    self.record_hist()
                elif o == 'write':
                    self.write_out(False)
                else:
                    self.write_out(True)
                    self.open_out()
            if self.out:
                self.write_out(True)
            if self.track:
                self.traj_files()
            return
        if self.track and R.random() < 0.7:
            self.record(0)
        last = -1
        if self.out:
            self.open_out()
        self.outputs()
        for n, ev in enumerate(self.P):
            k = ev[-1]
            if k != last:
                if last >= 0:
                    self.after_step()
                last = k
                if self.track and R.random() < 0.1:      # recorded again before the advance
                    self.tick(k)
                    self.record(R.randrange(len(self.flds)))
                else:
                    self.tick(k)
            if self.mode == 'run' and R.random() < 0.06:     # more particles from a list, later
                self.listed(n)
            if ev[0] == 'src':
                pend['k'] = n + 1
                del srccalls[:]
                self.negarg = (R.choice(self.neg + [None]), R.choice(self.pos + [None]))
                P.add_more_particles(ctrl, neg_E_field=self.negarg[0], external_E_field=self.negarg[1])
                self.tr.put(ev='src', step=self.step, ivals=ivals, calls=list(srccalls), obs=self.obs())
            else:
                self.advance(ev)
            self.tr.flush()
        if last >= 0:
            self.after_step()
        if self.out:
            self.write_out(True)
        if self.track:
            self.traj_files()

    def listed(self, start, first=False):
        """Particles from a list, for every species; uid of the next one is self.uid."""
        R, P = self.R, self.part
        lists = {}
        for s in self.sp:
            l = []
            if self.mode == 'sweep':
                l = self.sweep(s, self.uid)
                self.uid += len(l)
            else:
                for _ in range(R.choice([0, 1, 1, 2, 4]) if self.mode == 'limit' or not first else R.choice([0, 1, self.L, self.L + 1, 2 * self.L, 3 * self.L + 1, 9])):
                    q = self.sample(s, start)
                    if q is None:
                        break
                    fl = R.choice([2, 2, 2, 6, 34]) if self.track and R.random() < 0.5 else R.choice([0, 0, 0, 4])
                    if self.mode == 'uniform':
                        fl = R.choice([0, 0, 2, 4, 1, 5] if self.impl == 'py' else [0, 2, 4])
                    l.append((q, self.uid, fl, R.choice([1, 2, 3, 5])))
                    self.uid += 1
            lists[s['name']] = l

        class Listed(object):
            pass
        lo = Listed()
        for s in self.sp:
            l = [self.record_of(q[0][0], q[0][1], q[0][2], q[1], q[2], q[3]) for q in lists[s['name']]]
            setattr(lo, s['name'], lambda type, l=l: (len(l), l))
        P.user_particles_class = lo
        for s in self.sp:
            P.create_from_list(s['name'])
        self.tr.put(ev='create', lists=[[[q[1], list(q[0][1]), list(q[0][2]), [sc(v / U + 8, X0S) for v in q[0][1]], q[3], q[2], q[0][0], 77]
                                         for q in lists[s['name']]] for s in self.sp], obs=self.obs())

    def switch(self, a):
        self.ctrl.apply_solved_electric_field = {s['name']: bool(v) for s, v in zip(self.sp, a['solved'])}
        self.ctrl.apply_random_external_electric_field = {s['name']: bool(v) for s, v in zip(self.sp, a['ext'])}

    def tick(self, k):
        """Time step k of the plan begins."""
        self.g = self.gs[k]
        self.tk += self.g
        self.step += 1
        self.ctrl.dt = self.g * self.dt
        self.ap = self.aps[k]
        if self.apply:
            self.switch(self.ap)
        self.ctrl.time, self.ctrl.timeloop_count = self.tk * self.dt, self.step

    def record(self, f):
        R = self.R
        f = -1 if R.random() < 0.1 else f
        x = R.randrange(len(self.flds)) if R.random() < 0.2 else -1
        self.part.record_trajectory_data(self.step, self.ctrl.time, neg_E_field=self.neg[f] if f >= 0 else None,
                                         external_E_field=self.pos[x] if x >= 0 else None)
        self.tr.put(ev='rec', step=self.step, g=self.g, f=f, x=x, obs=self.obs())

    def open_out(self):
        self.nfile = getattr(self, 'nfile', -1) + 1
        self.ctrl.particle_output_file = 'p%d.h5part' % self.nfile
        self.part.initialize_particle_output_file(self.ctrl)
        self.isopen = True
        self.tr.put(ev='open', obs=self.obs())

    def write_out(self, close):
        self.part.write_particles_to_file(self.ctrl, close_flag=close)
        self.tr.put(ev='write', step=self.step, tk=self.tk, obs=self.obs())
        if close:
            self.isopen = False
            self.read_out(self.ctrl.particle_output_file)
        elif self.R.random() < 0.5:
            # what is on disk now is all that is left if the process is lost here
            import shutil
            shutil.copyfile(self.ctrl.particle_output_file, 'left.h5part')
            self.read_out('left.h5part', 'h5left')

    def read_out(self, name, ev='h5'):
        import h5py, subprocess, json
        # another process reads the file, as a user would
        src = ("import h5py,json,sys\nf=h5py.File(sys.argv[1],'r')\n"
               "a={k:(v.decode() if isinstance(v,bytes) else (v if isinstance(v,str) else float(v))) for k,v in f.attrs.items()}\n"
               "g=[[n,float(f[n].attrs['TimeValue']),{d:[float(x) for x in f[n][d][:]] for d in f[n]}] for n in f]\n"
               "print(json.dumps([a,g]))\n")
        if ev == 'h5':
            r = subprocess.run([sys.executable, '-c', src, name], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            ok, res = r.returncode == 0, r.stdout
        else:                                    # a copy: nothing of it is open here
            import io, contextlib
            b = io.StringIO()
            ok, av, sys.argv = True, sys.argv, ['-', name]
            try:
                with contextlib.redirect_stdout(b):
                    exec(src, {})
            except Exception:
                ok = False
            sys.argv, res = av, b.getvalue()
        os.unlink(name)
        if not ok:
            self.tr.put(ev=ev, readable=0, groups=[], types=[], attrs=[], obs=self.obs())
            return
        a, g = json.loads(res)
        key = lambda n: int(n[5:]) if n.startswith('Step#') and n[5:].isdigit() else -1
        g.sort(key=lambda q: key(q[0]))
        groups = []
        for n, t, d in g:
            dd = {}
            for k, v in d.items():
                f = U / self.H if k in self.names else self.wscale if k[0] == 'u' and k[1:] in self.names else 1
                dd[k] = [lat(x, f) for x in v]
            groups.append({'n': key(n), 't': lat(t / self.dt, 1), 'd': dd})
        types = []
        n = lat(a.get('NumParticleTypes:', -1), 1)
        for k in range(0, len(self.sp) + 2):
            if 'particle_type_%d' % k in a:
                types.append({'i': k, 'name': a['particle_type_%d' % k], 'm2': lat(a['mass_%d' % k], 2), 'q4': lat(a['charge_%d' % k], 2)})
        self.tr.put(ev=ev, readable=1, groups=groups, types=types, attrs=list(self.ctrl.particle_output_attributes), num=n,
                    head=[str(a.get('Title:')), str(a.get('Author:'))], obs=self.obs())

    def record_hist(self):
        H = self.part.histories
        if H.counter >= H.npoints:
            return
        self.part.record_history_data(self.step, self.ctrl.time)
        D = H.data_array
        f = {'count': 1, 'KE': 4 * self.wscale ** 2}
        rows = []
        for i in range(int(H.counter)):
            rows.append({'s': iv(D['step'][i]), 't': lat(float(D['t'][i]) / self.dt, 1),
                         'v': [{'h': h, 'tot': lat(D[h][i], f[h]), 'sp': [lat(D[s['name'] + '_' + h][i], f[h]) for s in self.sp],
                                'ppp': [sc(D[s['name'] + '_ppp_' + h][i], 16 * f[h]) for s in self.sp]} for h in H.scalar_histories]})
        self.tr.put(ev='hist', step=self.step, tk=self.tk, rows=rows, num=[lat(self.part.get_species_number(s['name']), 1) for s in self.sp],
                    total=iv(self.part.get_total_particle_count()), obs=self.obs())

    def traj_files(self, keep=False):
        import h5py
        T = self.part.traj_T
        T.write_trajectories_to_files()
        out = []
        for s in self.sp:
            l = []
            for j in range(len(T.data_list[s['name']])):
                fn = 'traj-%s-uid%d.h5part' % (s['name'], T.particle_unique_id_list[s['name']][j])
                if not os.path.exists(fn):
                    l.append({'recs': [], 'names': 0, 'times': 0, 'ok': 0})
                    continue
                with h5py.File(fn, 'r') as f:
                    gs = sorted(f, key=lambda n: int(n[5:]) if n[5:].isdigit() else -1)
                    recs = [self.rec(s, {d: np.ravel(f[g][d][()])[0] for d in f[g]}) for g in gs]
                    times = int(all(float(f[g].attrs['TimeValue']) == float(np.ravel(f[g]['t'][()])[0]) for g in gs))
                    k = [a[14:] for a in f.attrs if a.startswith('particle_type_')]
                    ok = int(len(k) == 1 and f.attrs['particle_type_' + k[0]] == s['name'] and float(f.attrs['mass_' + k[0]]) == s['m2'] / 2
                             and float(f.attrs['charge_' + k[0]]) == s['qm'] * s['m2'] / 2)
                    l.append({'recs': recs, 'names': int([int(g[5:]) for g in gs] == list(range(len(gs)))), 'times': times, 'ok': ok})
                if not keep:
                    os.unlink(fn)
            out.append(l)
        self.tr.put(ev='trajfiles', files=out, obs=self.obs())

    def outputs(self):
        R = self.R
        if self.hist and R.random() < 0.8:
            self.record_hist()
        if self.out:
            if R.random() < 0.6:
                self.write_out(False)
            if R.random() < 0.2:
                self.write_out(False)
            if R.random() < 0.15:
                self.write_out(True)
                self.open_out()

    def after_step(self):
        R = self.R
        self.outputs()
        if self.track and R.random() < 0.7:
            for _ in range(R.choice([1, 1, 1, 2])):
                self.record(R.randrange(len(self.flds)))
            if R.random() < 0.15:
                self.traj_files(keep=True)

    def advance(self, ev):
        P, ctrl = self.part, self.ctrl
        _, mover, f, x, accel, _ = ev
        if self.mode == 'limit' and not self.stopping(ev):
            return
        self.advance1(ev)

    def stopping(self, ev):
        """The advance in a process of its own, with a limit on the facets crossed.  True if it completes."""
        import signal
        _, mover, f, x, accel, _ = ev
        self.ctrl.MAX_FACET_CROSS_COUNT = m = self.R.choice([0, 1, 1, 2, 3, 4, 20])
        self.tr.flush()
        pid = os.fork()
        if pid == 0:
            signal.alarm(60)
            import ctypes
            libc = ctypes.CDLL(None)
            libc.on_exit(libc._exit, None)      # exit() in the C++ code ends this copy of the process at once
            rc = 3
            try:
                self.tr = type('N', (), {'put': lambda s, **k: None, 'flush': lambda s: None})()
                self.advance1(ev)
                rc = 0
            finally:
                os._exit(rc)
        st = os.waitpid(pid, 0)[1]
        out = 'completed' if st == 0 else 'stopped' if os.WIFEXITED(st) else 'killed'
        self.tr.put(ev='limit', g=self.g, ap=self.ap, mover=mover, f=f, x=x, accel=accel, step=self.step, max=m, out=out, obs=self.obs())
        return out == 'completed'

    def advance1(self, ev):
        P, ctrl = self.part, self.ctrl
        _, mover, f, x, accel, _ = ev
        del self.calls[:]
        neg = self.neg[f] if f >= 0 else None
        ext = self.pos[x] if mover != 'uniform' and x >= 0 else None
        if mover == 'charged':
            P.advance_charged_particles_in_E_field(ctrl, neg_E_field=neg, external_E_field=ext, accel_only=bool(accel))
        elif mover == 'uniform':
            class V(object):
                pass
            ctrl.E0 = V()
            ctrl.E0.x, ctrl.E0.y, ctrl.E0.z = [v / self.escale for v in x]
            for s in self.sp:
                if self.impl == 'cpp':
                    if P.get_species_particle_count(s['name']) == 0:      # left to the caller by the C++ movers
                        continue
                    P.particle_solib.advance_charged_species_in_uniform_fields(P, s['name'], ctrl)
                else:
                    P.advance_charged_species_in_uniform_fields(s['name'], ctrl)
            self.tr.put(ev='adv', g=self.g, ap=self.ap, mover=mover, f=-1, x=-1, E0=x, accel=0, step=self.step, calls=[], logged=0, obs=self.obs())
            return
        elif mover == 'legacy':
            P.move_particles_in_electrostatic_field(ctrl, neg_E_field=neg, external_E_field=ext, accel_only=bool(accel))
        else:
            P.advance_neutral_particles(ctrl)
        self.tr.put(ev='adv', g=self.g, ap=self.ap, mover=mover, f=f, x=x, accel=accel, step=self.step, calls=list(self.calls), logged=int(self.impl == 'py'), obs=self.obs())

    def sweep(self, s, uid):
        """All starts of a coarse sub-lattice times all moves of a coarse sub-lattice."""
        import itertools
        R = self.R
        st = {1: 1, 2: 4, 3: 8}[self.dim]
        out = []
        rng = {1: range(-40, 41, 1), 2: range(-21, 22, 6), 3: range(-13, 14, 13)}[self.dim]
        lim = 700
        cand = []
        for c in range(len(self.M.cells)):
            lo = [min(self.M.verts[v][i] for v in self.M.cells[c]) * U for i in range(self.dim)]
            hi = [max(self.M.verts[v][i] for v in self.M.cells[c]) * U for i in range(self.dim)]
            off = R.randrange(st)
            for x in itertools.product(*[range(a + off, b + 1, st) for a, b in zip(lo, hi)]):
                if self.M.strictly_inside(c, x):
                    cand.append((c, x))
        prod = [(c, x, w) for c, x in cand for w in itertools.product(rng, repeat=self.dim)]
        R.shuffle(prod)
        for c, x, w in prod:
            w = tuple(a + R.randint(-2, 2) for a in w) if self.dim > 1 else w
            if self.survives(s, c, x, w, 0):
                out.append(((c, x, w), uid + len(out), 0, 1))
                if len(out) >= lim:
                    break
        return out


def main():
    out, impl, coord, seed, nruns, mode = sys.argv[1:7]
    seed, then = split_seed(seed)
    quiet_stdout()
    tr = Trace(out)
    scripts = None
    if mode == 'script':
        import json
        with open(sys.argv[7]) as f:
            scripts = random.Random('%s %s %s' % (impl, coord, seed)).sample([json.loads(l) for l in f], int(nruns))
    for k in range(int(nruns)):
        R = random.Random('%s %s %s %s %d' % (impl, coord, seed, mode, k))
        r = Run(tr, impl, coord, R, mode, k)
        r.then = then and '%s %d' % (then, k)
        r.script = scripts[k] if scripts else None
        try:
            r.go()
        except Exception as e:          # the code under test refused a legal history
            import traceback
            tr.put(ev='crash', what=describe(e), tb=traceback.format_exc()[-1500:])
        tr.flush()
    tr.close()
    done()


main()
