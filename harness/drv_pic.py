"""Self-consistent runs: deposit, solve, advance, add, over and over, with the particles anywhere in the
mesh.  Logged, scaled and rounded, for spec/PICTrace.tla.

  drv_pic.py OUT impl coord seed nruns      coord: cartesian_x | spherical_r | cartesian_xy
  drv_pic.py OUT twin coord seed nruns      every run three times (with either kind of integrator, one of
                                            them twice), for spec/TwinTrace.tla
"""
import sys, random
from vlib import *
import dt_pybind11_bridge          # noqa: F401
import numpy as np
import dolfin as df
import lattice
import Dolfin_Module as DM
import Particle_Module as PM
import DT_Module
import UserMesh_y_Fields_FE_XYZ_Module as UX
import UserMesh_y_Fields_Spherical1D_Module as US
import UserMesh_y_Fields_FE2D_Module as UC

df.set_log_level(50)
U, FS, PS, WS = 4096, 256, 16384, 8
EPS = 8.854187817e-12
COORDS = {'cartesian_x': ['x'], 'spherical_r': ['r'], 'cartesian_xy': ['x', 'y']}
SIDES = ['rmin', 'rmax', 'ymin', 'ymax']


class Stop(Exception):
    pass


class Pic:
    def __init__(self, tr, impl, coord, R, twin=False):
        self.tr, self.impl, self.coord, self.R = tr, impl, coord, R
        self.twin = twin
        self.like = 'cpp' if twin else impl                 # what the C++ integrators cannot do is left out
        self.names = COORDS[coord]
        self.dim = len(self.names)
        self.sph = int(coord == 'spherical_r')
        self.H = 2.0 ** R.choice([-12, -3, 0, 0, 3])
        self.tau = R.choice([16, 64])                       # (H/dt)**2
        self.dt = self.H / {16: 4.0, 64: 8.0}[self.tau]
        self.fd = R.choice([8, 16, 32] if not self.sph else [32, 64])
        self.bu = EPS * (self.H if self.sph else self.H ** (self.dim - 2))

    # ---------------------------------------------------------------- set up
    def mesh(self):
        R = self.R
        if self.dim == 1:
            xs = [R.randint(-3, 2) if not self.sph else R.choice([0, 0, 1, 2])]
            for _ in range(R.choice([1, 2, 3, 4])):
                xs.append(xs[-1] + (R.choice([1, 1, 2, 3]) if not self.sph else 1))
            M = lattice.interval(xs)
        else:
            k = R.choice(['right', 'left', 'mix', 'crossed'])
            o = dict(ox=R.randint(-2, 1), oy=R.randint(-2, 1))
            M = lattice.rect(R.randint(1, 2), R.randint(1, 2), k, 2, 2, **o) if k == 'crossed' else lattice.rect(R.randint(1, 3), R.randint(1, 3), k, **o)
        self.M = M
        self.dmesh = M.dolfin(self.H, R.randrange(1 << 30))
        b = self.box = M.bbox()
        side = []
        for f in range(len(M.facets)):
            s = 0
            for d in range(self.dim):
                for e in range(2):
                    if all(M.verts[v][d] == b[d][e] for v in M.facets[f]):
                        s = 1 + 2 * d + e
            side.append(s)
        self.side = side
        self.mm = DM.Mesh_C(Mesh=self.dmesh, coordinate_system='1D-spherical-radial' if self.sph else 'Cartesian', compute_dictionaries=True, compute_tree=True)

    def species(self):
        R = self.R
        names = R.sample(['test_electrons', 'ions', 'heavy', 'neutral_H'], R.choice([1, 2, 2, 3]))
        self.sp = []
        for n in names:
            ch = not n.startswith('neutral') or (self.like == 'cpp' and self.dim == 1)
            m = R.choice([1.0, 2.0, 0.5])
            self.sp.append({'name': n, 'qm': R.choice([1, -1, 2, -2, -1]) if ch else 0, 'm2': int(2 * m), 'ch': int(ch)})
        if not any(s['ch'] for s in self.sp):
            self.sp[0].update(name='ions', ch=1, qm=1)
        self.sn = [s['name'] for s in self.sp]

    def sides(self):
        """What happens at each side, per species."""
        R = self.R
        ns = 2 * self.dim
        self.fns = {}
        if self.like == 'py':
            k = {n: R.choice(['absorb', 'reflect', 'reflect']) for n in SIDES}
            for n in SIDES:
                self.fns['default_bc_at_' + n] = k[n]
            self.fns['default_bc'] = 'absorb'
            if R.random() < 0.5:
                self.fns['bc_at_rmax_for_' + self.sn[0]] = R.choice(['absorb', 'reflect'])
        elif self.sph:
            self.fns = {'default_bc': 'absorb', 'default_bc_at_rmin': 'reflect'}
        else:
            self.fns = {'default_bc': 'absorb', 'default_bc_at_rmin': 'absorb', 'bc_at_rmin_for_test_electrons': 'reflect'}

        def kind(s, n):
            for g in ('bc_at_%s_for_%s' % (n, s), 'default_bc_at_' + n, 'default_bc'):
                if g in self.fns:
                    return self.fns[g]
        # the tag each side carries: C++ user functions know rmin
        names = list(SIDES)
        if self.like == 'cpp' and not self.sph:
            names = [R.choice(['rmin', 'rmin', 'rmax']) for _ in SIDES]
        self.tagname = names[:ns]
        self.tags = {n: 3 + 2 * i for i, n in enumerate(SIDES)}
        self.kinds = [[kind(s, n) for n in self.tagname] for s in self.sn]

    def bc_object(self):
        import UserParticles_2D_e, UserParticles_1D
        P = self.P
        refl = [UserParticles_2D_e.UserParticleBoundaryFunctions_C(self.names, P.dx).bc_at_rmin_for_test_electrons,
                UserParticles_1D.UserParticleBoundaryFunctions_C(self.names, P.dx).default_bc_at_rmin]

        class BC(object):
            pass
        o = BC()
        choice = random.Random(1).choice if self.twin else self.R.choice
        for n, k in self.fns.items():
            def fn(p, species_name, facet_index, dx_fraction=None, facet_normal=None, k=k, r=choice(refl)):
                if k == 'reflect':
                    r(p, species_name, facet_index, dx_fraction=dx_fraction, facet_normal=facet_normal)
                else:
                    p['bitflags'] = p['bitflags'] | PM.Particle_C.DELETE_FLAG
            setattr(o, n, fn)
        return o

    def make(self):
        R = self.R
        self.mesh()
        self.species()
        self.sides()
        mm, M = self.mm, self.M
        PM.Particle_C.SEGMENT_LENGTH = R.choice([1, 2, 3, 8])
        pin = PM.ParticleInput_C()
        pin.precision = np.float64
        pin.particle_species = tuple(PM.ParticleSpecies_C(s['name'], s['qm'] * s['m2'] / 2, s['m2'] / 2, 'explicit' if s['ch'] else 'neutral') for s in self.sp)
        pin.coordinate_system = self.coord
        pin.use_cpp_integrators = self.impl == 'cpp'
        pin.force_components = list(self.names)
        pin.force_precision = np.float64
        P = self.P = PM.Particle_C(pin)
        PM.Particle_C.UNIQUE_ID_COUNTER = 0
        P.initialize_particle_mesh(mm)
        P.initialize_particle_integration()
        mk = df.MeshFunction('size_t', self.dmesh, self.dim - 1, 0)
        fk = df.MeshFunction('size_t', self.dmesh, self.dim - 1, 0)
        for f, s in enumerate(self.side):
            if s:
                mk[f] = self.tags[self.tagname[s - 1]]
                if s <= 2:
                    fk[f] = s
        mm.particle_boundary_marker, mm.particle_boundary_dict = mk, dict(self.tags)
        if self.impl == 'py':
            P.pmesh_bcs = PM.ParticleMeshBoundaryConditions_C(self.sn, mm, self.bc_object())
        else:
            if self.sph:
                import upbfs_spherical_r_solib as ub
            elif self.dim == 1:
                import user_particle_boundary_functions_cartesian_x_solib as ub
            else:
                import user_particle_boundary_functions_cartesian_xy_solib as ub
            self.ub = ub.UserParticleBoundaryFunctions(list(self.names))
            P.pmesh_bcs = P.particle_solib.ParticleMeshBoundaryConditions(self.sn, mm, self.ub, False)
        c = self.ctrl = DT_Module.DTcontrol_C()
        c.title, c.author, c.write_trajectory_files = 't', 'a', False
        c.dt, c.n_timesteps, c.time, c.timeloop_count = self.dt, 100, 0.0, 0
        c.MAX_FACET_CROSS_COUNT = 400
        # fields
        self.phi = DM.Field_C(mm, 'CG', 1, 'scalar')
        self.negE = DM.Field_C(mm, 'DG', 0, 'vector')
        self.Q = DM.Field_C(mm, 'CG', 1, 'scalar')
        self.nd = {s: DM.Field_C(mm, 'CG', 1, 'scalar') for s in self.sn}
        self.nc = {s: DM.Field_C(mm, 'DG', 0, 'scalar') for s in self.sn}
        self.vd = [int(a) for a in df.vertex_to_dof_map(self.phi.function_space)]
        self.cd = [int(self.nc[self.sn[0]].function_space.dofmap().cell_dofs(k)[0]) for k in range(len(M.cells))]
        V = self.negE.function_space
        subs = [V] if self.dim == 1 else [V.sub(i) for i in range(self.dim)]
        self.ed = [[int(s.dofmap().cell_dofs(k)[0]) for s in subs] for k in range(len(M.cells))]
        self.ext = None
        self.Ex = [[0] * self.dim for _ in M.cells]
        if self.like == 'py' and R.random() < 0.4:
            self.ext = DM.Field_C(mm, 'DG', 0, 'vector')
            self.Ex = [[R.randint(-8, 8) * PS // 16 for _ in range(self.dim)] for _ in M.cells]
            v = self.ext.function.vector().get_local()
            for k, l in enumerate(self.ed):
                for d, j in enumerate(l):
                    v[j] = self.Ex[k][d] / PS / self.H
            self.ext.function.vector().set_local(v)
            self.ext.function.vector().apply('insert')
        pa, pb = R.choice([(0, 0), (R.randint(-2, 2), R.randint(-2, 2))])
        lo, hi = ('xmin', 'xmax') if self.coord == 'cartesian_x' else ('rmin', 'rmax')
        bc = {lo: (1, float(pa)), hi: (2, float(pb))}
        unset = self.sph and R.random() < 0.5
        if unset:
            bc[lo] = (1, 'unset')
        D = {}
        for s, p in ((1, pa), (2, pb)):
            if not (unset and s == 1):
                for f in range(len(M.facets)):
                    if self.side[f] == s:
                        for v in M.facets[f]:
                            D[v] = p
        cls = {'cartesian_x': UX.UserPoissonSolve1D_C, 'spherical_r': US.UserPoissonSolve1DS_C, 'cartesian_xy': UC.UserPoissonSolve2DCirc_C}[self.coord]
        self.S = cls(self.phi, None, None, fk, bc, neg_electric_field=self.negE)
        df.set_log_level(50)
        if not self.twin:
            self.tr.put(ev='mesh', dim=self.dim, sph=self.sph, verts=M.verts, cells=M.cells, facets=M.facets, coord=self.coord, impl=self.impl, H=self.H, dir=[[v, D[v]] for v in sorted(D)],
                    sp=self.sp, kinds=self.kinds, box=[[a * U, b * U] for a, b in self.box], fd=self.fd, kd=2 * PS * self.tau // U, Ex=self.Ex, seg=PM.Particle_C.SEGMENT_LENGTH)

    # ---------------------------------------------------------- observations
    def items(self, s):
        sap = self.P.sap_dict[s]
        out = []
        for i in range(int(sap.get_number_of_items())):
            seg, off = sap.get_segment_and_offset(i)
            out.append(seg[off])
        return out

    def lat(self, x):
        r = round(x)
        return int(r) if abs(x - r) < 1e-6 * max(1, abs(x)) and abs(r) < BIG else BIG

    def obs(self):
        vu = self.H ** 3 * 4 * math.pi / 3 if self.sph else self.H ** self.dim / math.factorial(self.dim)
        v = self.Q.function.vector().get_local()
        p = self.phi.function.vector().get_local()
        E = self.negE.function.vector().get_local()
        out = {'sp': [[[iv(q['unique_ID']), [sc(q[k] / self.H, U) for k in self.names], [sc(q['u' + k] * self.dt / self.H, U) for k in self.names], iv(q['cell_index']),
                        self.lat(float(q['weight']) * WS), iv(q['bitflags'])] for q in self.items(s)] for s in self.sn],
               'nd': [[sc(self.nd[s].function.vector().get_local()[j], FS * WS) for j in self.vd] for s in self.sn],
               'nc': [[sc(self.nc[s].function.vector().get_local()[j] * vu, FS * WS) for j in self.cd] for s in self.sn],
               'q': [sc(v[j], 2 * FS * WS) for j in self.vd], 'phi': [sc(p[j], PS) for j in self.vd],
               'E': [[sc(E[j] * self.H, PS) for j in l] for l in self.ed]}
        self.wmax = max([abs(a) for l in out['sp'] for q in l for a in q[2]] + [0])
        return out

    def log(self, **kw):
        o = self.obs()
        if self.twin:
            P = self.P
            self.tr.put(ev='state', what=kw['ev'], id=[[[q[0], q[3], q[5]] for q in l] for l in o['sp']], near=flat([[[q[1], q[2], q[4]] for q in l] for l in o['sp']]) + flat([o[k] for k in ('nd', 'nc', 'q', 'phi', 'E')])
                        + [sc(f(s), 1024) for s in self.sn for f in (P.get_species_number, P.get_species_KE, lambda s: self.ctrl.time / self.dt)])
        else:
            self.tr.put(obs=o, **kw)
        self.tr.flush()
        if self.wmax > 2 * U:
            raise Stop()

    # ------------------------------------------------------------------- run
    def init(self):
        R, P, M = self.R, self.P, self.M

        class Listed(object):
            pass
        lo, uid = Listed(), 0
        for s in self.sn:
            l = []
            for _ in range(R.choice([0, 1, 2, 4, 7, 12])):
                c = R.randrange(len(M.cells))
                b = [R.random() + 0.02 for _ in range(self.dim + 1)]
                t = sum(b)
                x = [sum(b[k] / t * M.verts[v][d] for k, v in enumerate(M.cells[c])) * self.H for d in range(self.dim)]
                u = [R.uniform(-0.6, 0.6) * self.H / self.dt for _ in range(self.dim)]
                if self.sph and R.random() < 0.5:
                    u = [abs(a) for a in u]
                l.append(tuple(x + x + u + [float(R.choice([1, 1, 2, 0.5])), R.choice([0, 0, 2]), c, uid, 0]))
                uid += 1
            setattr(lo, s, lambda type, l=l: (len(l), l))
        P.user_particles_class = lo
        P.initial_particles_dict = {'i_' + s: ({'species_name': s, 'initial_distribution_type': 'listed'},) for s in self.sn}
        P.initialize_particles({s: False for s in self.sn})
        PM.Particle_C.UNIQUE_ID_COUNTER = 10000
        self.log(ev='init')

    def sources(self):
        R, P = self.R, self.P
        P.particle_source_dict = None
        self.src = []
        if R.random() < 0.5:
            return
        s = R.choice(self.sp)
        npc = R.choice([1, 2])
        big = self.sph and max(b for a, b in self.box) > 3
        k = 1
        if big:
            return
        dens = (3.0 if self.sph else math.factorial(self.dim)) * npc * k / 2 / self.H ** (3 if self.sph else self.dim)
        par = {'species_name': s['name'], 'initial_distribution_type': 'function_over_region', 'number_density': dens, 'timestep_interval': R.choice([1, 2, 3]),
               'thermal_speed': 0.05 * self.H / self.dt, 'velocity_coordinate_system': 'x_y_z', 'drift_velocity': tuple(R.uniform(-0.3, 0.3) * self.H / self.dt for _ in self.names), 'number_per_cell': npc}
        P.particle_source_dict = {'src': (par, P.create_maxwellian_particles, DM.WholeMesh_C(self.mm))}
        self.src = [self.sn.index(s['name']), npc, par['timestep_interval'], k]

    def field(self):
        """Densities, charge, potential: as the main programs do it."""
        R, P = self.R, self.P
        self.Q.set_values(0.0)
        for s in self.sn:
            self.nd[s].set_values(0.0)
            self.nc[s].set_values(0.0)
        self.log(ev='zero')
        for i, s in enumerate(self.sn):
            P.accumulate_number_density(s, self.nd[s], self.nc[s])
            self.log(ev='acc', s=i)
            self.Q.multiply_add(self.nd[s], multiplier=P.charge[s])
            self.log(ev='sum', s=i)
        self.S.solve_for_phi(assembled_charge=self.Q, assembled_charge_factor=self.bu / self.fd)
        self.log(ev='solve')

    def run(self):
        R, c = self.R, self.ctrl
        self.init()
        self.sources()
        self.S.solve_for_phi()
        self.log(ev='vacuum')
        if R.random() < 0.8:
            self.field()
        for step in range(R.choice([1, 2, 4, 6])):
            c.timeloop_count += 1
            c.time += c.dt
            kw = {'external_E_field': self.ext} if self.ext is not None else {}
            normal = np.random.normal                        # the external field is applied times a random number
            np.random.normal = lambda loc=0.0, scale=1.0, size=None: np.ones(size or 1)
            self.P.advance_charged_particles_in_E_field(c, neg_E_field=self.negE, **kw)
            np.random.normal = normal
            self.log(ev='adv', ch=1)
            if any(not s['ch'] for s in self.sp):
                self.P.advance_neutral_particles(c)
                self.log(ev='adv', ch=0)
            if self.P.particle_source_dict is not None:
                self.P.add_more_particles(c, neg_E_field=self.negE)
                self.log(ev='src', src=self.src, step=c.timeloop_count)
            if sum(len(self.items(s)) for s in self.sn) > 60:
                raise Stop()
            self.field()


def flat(x):
    return [a for y in x for a in flat(y)] if isinstance(x, list) else [x]


def twins(out, coord, seed, n):
    tr = Trace(out)
    quiet_stdout()
    for k in range(n):
        R = random.Random('%s-%s-%s-twin' % (coord, seed, k))
        kinds = R.choice([['py', 'cpp', 'py'], ['cpp', 'py', 'cpp'], ['py', 'py', 'cpp'], ['cpp', 'cpp', 'py']])
        runs = R.getrandbits(64)
        for j, impl in enumerate(kinds):
            np.random.seed(R.randrange(1 << 31))             # whatever was drawn before the run
            tr.put(ev='start', run=j, impl=impl, coord=coord)
            r = Pic(tr, impl, coord, random.Random(runs), twin=True)
            try:
                r.make()
                r.run()
            except Stop:
                pass
            except (Exception, SystemExit) as e:
                import traceback
                tr.put(ev='crash', what=describe(e), tb=traceback.format_exc()[-1200:])
                tr.flush()
    tr.put(ev='end')
    tr.close()
    done()


def main():
    if sys.argv[2] == 'twin':
        return twins(sys.argv[1], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]))
    out, impl, coord, seed, n = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5])
    tr = Trace(out)
    quiet_stdout()
    normal = np.random.normal
    for k in range(n):
        R = random.Random('%s-%s-%s-%s-pic' % (impl, coord, seed, k))
        np.random.normal = normal
        np.random.seed(R.randrange(1 << 31))
        r = Pic(tr, impl, coord, R)
        try:
            r.make()
            r.run()
        except Stop:
            pass
        except (Exception, SystemExit) as e:
            import traceback
            tr.put(ev='crash', what=describe(e), tb=traceback.format_exc()[-1200:])
            tr.flush()
    tr.close()
    done()


main()
