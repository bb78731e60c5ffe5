"""Fields on integer-lattice meshes: arithmetic, interpolation, deposition of particles, and creation
of particles over regions, logged for spec/FieldTrace.tla.

  drv_field.py OUT impl coord seed nruns mode        mode: field | create
"""
import sys, random
from vlib import *
import dt_pybind11_bridge          # noqa: F401
import numpy as np
import dolfin as df
import lattice
from lattice import U
import Dolfin_Module as DM
import Particle_Module as PM
import RecordedData_Module as RM
import DT_Module
import dolfin_functions_solib as dfs

df.set_log_level(50)
FS = 65536           # scale of field values
XS = 4096            # scale of non-lattice positions
COORDS = {'cartesian_x': ['x'], 'spherical_r': ['r'], 'cartesian_xy': ['x', 'y'], 'cartesian_xyz': ['x', 'y', 'z']}
KINDS = {'ds': ('DG', 0, 'scalar'), 'cs': ('CG', 1, 'scalar'), 'dv': ('DG', 0, 'vector'), 'cv': ('CG', 1, 'vector')}


class Fld:
    """A Field_C and, from DOLFIN itself, where each cell/vertex value is stored."""
    def __init__(self, o, kind):
        self.kind = kind
        t, d, s = KINDS[kind]
        self.F = DM.Field_C(o.mm, t, d, s)
        V = self.F.function_space
        n = 1 if s == 'scalar' else o.dim
        M = o.M
        if t == 'CG':
            m = df.vertex_to_dof_map(V)
            self.dof = [int(a) for a in m]
        else:
            subs = [V] if n == 1 else [V.sub(i) for i in range(n)]
            self.dof = [int(q.dofmap().cell_dofs(c)[0]) for c in range(len(M.cells)) for q in subs]
        self.n = n

    def get(self):
        v = self.F.function.vector().get_local()
        return [sc(v[d], FS) for d in self.dof]

    def alias(self):
        """function_values and function.vector() are the same numbers"""
        a, b = self.F.function.vector().get_local(), self.F.function_values.get_local()
        return int(len(a) == len(b) and all(a == b))

    def put(self, vals):
        v = np.zeros(len(self.dof))
        for d, x in zip(self.dof, vals):
            v[d] = x
        self.F.function.vector().set_local(v)
        self.F.function.vector().apply('insert')


class Run:
    def __init__(self, tr, impl, coord, R, mode):
        self.tr, self.impl, self.coord, self.R, self.mode = tr, impl, coord, R, mode
        self.names = COORDS[coord]
        self.dim = len(self.names)
        self.H = 2.0 ** R.choice([-21, -6, -3, 0, 1, 5, 12] if mode == 'create' else [-1, 0, 1])
        self.sph = int(coord == 'spherical_r')
        self.L = R.choice([1, 2, 3, 5, 8])

    def pt(self, x):
        return [v * self.H / U for v in x]

    def make(self):
        R = self.R
        M = self.M = lattice.pick_mesh(self.dim, R)
        if self.sph:
            off = min(v[0] for v in M.verts) - R.choice([0, 1, 2])
            M.verts = [(v[0] - off,) for v in M.verts]
        self.mesh = M.dolfin(self.H, R.randrange(1 << 30))
        self.mm = DM.Mesh_C(Mesh=self.mesh, coordinate_system='1D-spherical-radial' if self.sph else 'Cartesian',
                            compute_dictionaries=True, compute_tree=True)
        self.tr.put(ev='mesh', dim=self.dim, sph=self.sph, verts=M.verts, cells=M.cells, facets=M.facets, mode=self.mode, coord=self.coord, impl=self.impl)
        self.tr.flush()
        PM.Particle_C.SEGMENT_LENGTH = self.L
        names = ['elec', 'ion', 'atom']
        R.shuffle(names)
        self.sp = names[:R.choice([1, 2, 3])]
        qs = [-1, 1, 2, 0, 3]
        if self.impl == 'cpp' and self.mode == 'create':      # the C++ integrators that exist
            qs = {'cartesian_x': [-1, 1, 2], 'spherical_r': [-1, 1, 2], 'cartesian_xyz': [0]}.get(self.coord, qs)
        self.q = {s: R.choice(qs) for s in self.sp}
        pin = PM.ParticleInput_C()
        pin.precision = np.float64
        pin.particle_species = tuple(PM.ParticleSpecies_C(s, float(self.q[s]), 1.0, 'neutral' if self.q[s] == 0 else 'explicit') for s in self.sp)
        pin.coordinate_system = self.coord
        pin.use_cpp_integrators = self.impl == 'cpp'
        pin.force_components = list(self.names)
        pin.force_precision = np.float64
        self.P = PM.Particle_C(pin)
        self.P.initialize_particle_mesh(self.mm)
        if self.mode == 'create':
            self.P.initialize_particle_integration()

    # ------------------------------------------------------------- particles
    def inner(self, c, closed=False):
        R, M = self.R, self.M
        for _ in range(500):
            vs = [M.verts[v] for v in M.cells[c]]
            if closed and R.random() < 0.3:
                return tuple(a * U for a in R.choice(vs))
            lo = [min(v[i] for v in vs) * U for i in range(self.dim)]
            hi = [max(v[i] for v in vs) * U for i in range(self.dim)]
            x = tuple(R.randint(a, b) for a, b in zip(lo, hi))
            if (all(lattice.dot(n, x) <= off * U for (_, n, off) in M.cf[c])) if closed else M.strictly_inside(c, x):
                return x

    def fill(self):
        R = self.R
        uid = 0
        for s in self.sp:
            for _ in range(R.choice([0, 1, self.L, self.L + 1, 2 * self.L, 11])):
                c = R.randrange(len(self.M.cells))
                x = self.inner(c, closed=True)
                X = self.pt(x)
                self.P.sap_dict[s].push_back(tuple(X + X + [0.0] * self.dim + [float(R.choice([1, 2, 3, 5])), 0, c, uid, 0]))
                uid += 1

    def items(self, s):
        sap = self.P.sap_dict[s]
        out = []
        for i in range(int(sap.get_number_of_items())):
            seg, off = sap.get_segment_and_offset(i)
            out.append(seg[off])
        return out

    def plist(self, s):
        return [[iv(p['cell_index']), [iv(round(float(p[k]) * U / self.H)) for k in self.names], sc(p['weight'], 1), iv(p['unique_ID'])] for p in self.items(s)]

    # ---------------------------------------------------------------- fields
    def obs(self):
        return [f.get() for f in self.F]

    def log(self, **kw):
        self.tr.put(obs=self.obs(), alias=int(all(f.alias() for f in self.F)), **kw)
        self.tr.flush()

    def region(self):
        R, M = self.R, self.M
        for _ in range(50):
            lo, hi = [], []
            for a, b in M.bbox():
                p, q = sorted([R.randint(a * U - 4, b * U + 4), R.randint(a * U - 4, b * U + 4)])
                lo.append(p)
                hi.append(q)
            try:
                g = DM.RectangularRegion_C(self.mm, *( (self.pt(lo)[0], self.pt(hi)[0]) if self.dim == 1 else (tuple(self.pt(lo)), tuple(self.pt(hi)))))
            except RuntimeError:
                continue
            return g, lo, hi
        return DM.WholeMesh_C(self.mm), None, None

    def fields(self):
        R = self.R
        ks = ['ds', 'cs', 'dv', 'cv', 'cs', 'ds', 'cs', 'dv']
        R.shuffle(ks)
        ks = ['cs', 'cs', 'ds'] + ks[:R.choice([1, 3])]
        self.F = [Fld(self, k) for k in ks]
        for f in self.F:
            if R.random() < 0.7:
                f.put([R.randint(-9, 9) for _ in f.dof])
        self.log(ev='fields', kinds=ks)
        self.fill()
        for _ in range(R.choice([8, 14])):
            op = R.choice(['set', 'set', 'mul', 'mul', 'madd', 'madd', 'setg', 'mulg', 'dep', 'dep', 'dep', 'charge', 'delta', 'delta', 'addw', 'div', 'interp', 'interp', 'interp', 'rinterp'])
            k = R.randrange(len(self.F))
            f = self.F[k]
            big = max([abs(v) for v in f.get()] + [0]) > 300 * FS
            if big and op in ('mul', 'madd', 'dep', 'charge', 'delta', 'addw'):
                op = 'set'
            getattr(self, 'op_' + op)(k, f)

    def sub(self, p=0.5):
        if self.R.random() < p:
            g, lo, hi = self.region()
            if lo is not None:
                return g, [iv(c.index()) for c in g.cell_list]
        return None, []

    def op_set(self, k, f):
        v = self.R.choice([0, 1, -3, 7, 0.5, 12])
        g, cells = self.sub()
        if g is None:
            f.F.set_values(v)
        else:
            f.F.set_values(v, subdomain=g)
        self.log(ev='set', k=k, v=int(v * 2), sub=int(g is not None), cells=cells)

    def op_mul(self, k, f):
        v = self.R.choice([0, 1, -1, 2, 3, 0.5])
        g, cells = self.sub() if f.kind[0] == 'd' else (None, [])
        if g is None:
            f.F.multiply_values(v)
        else:
            f.F.multiply_values(v, subdomain=g)
        self.log(ev='mul', k=k, v=int(v * 2), sub=int(g is not None), cells=cells)

    def op_setg(self, k, f):
        sd = self.R.choice([0.0, 1.0, 4.0])
        g, cells = self.sub(0.7) if f.kind[0] == 'd' else (None, [])     # vertex values are documented as unfinished
        f.F.set_gaussian_values(sd, subdomain=g)
        self.log(ev='setg', k=k, v=int(sd), sub=int(g is not None), cells=cells)

    def op_mulg(self, k, f):
        sd = self.R.choice([0.0, 1.0, 2.0])
        f.F.multiply_values(sd, gaussian=True)
        self.log(ev='mulg', k=k, v=int(sd))

    def op_madd(self, k, f):
        js = [j for j, g in enumerate(self.F) if g.kind == f.kind]
        j = self.R.choice(js)
        v = self.R.choice([None, 1, -1, 2, 0, -3])
        if v is None:
            f.F.multiply_add(self.F[j].F)
        else:
            f.F.multiply_add(self.F[j].F, v if self.R.random() < 0.5 else float(v))
        self.log(ev='madd', k=k, j=j, v=1 if v is None else v)

    def op_dep(self, k, f):
        s = self.R.choice(self.sp)
        dk = self.R.choice([j for j, g in enumerate(self.F) if g.kind == 'cs'])
        ck = self.R.choice([j for j, g in enumerate(self.F) if g.kind == 'ds'])
        which = self.R.choice(['d', 'c', 'dc', 'dc'])
        self.P.accumulate_number_density(s, self.F[dk].F if 'd' in which else None, self.F[ck].F if 'c' in which else None)
        self.log(ev='dep', dk=dk if 'd' in which else -1, ck=ck if 'c' in which else -1, parts=self.plist(s), cellv=self.cellv(ck) if 'c' in which else [])

    def vunit(self):
        fact = {1: 1, 2: 2, 3: 6}[self.dim]
        return 4.0 * math.pi / 3.0 * self.H ** 3 if self.sph else self.H ** self.dim / fact

    def cellv(self, k):
        """Cell values times the unit of volume"""
        f = self.F[k]
        v = f.F.function.vector().get_local()
        return [sc(v[d] * self.vunit(), FS) for d in f.dof]

    def op_charge(self, k, f):
        cs = [j for j, g in enumerate(self.F) if g.kind == 'cs']
        tgt = self.R.choice(cs)
        src = [self.R.choice([j for j in cs if j != tgt]) for _ in self.sp]
        self.P.accumulate_charge_density_from_particles({s: self.F[j].F for s, j in zip(self.sp, src)}, self.F[tgt].F)
        self.log(ev='charge', k=tgt, src=src, q=[self.q[s] for s in self.sp])

    def part(self, closed=True):
        c = self.R.randrange(len(self.M.cells))
        x = self.inner(c, closed=closed)
        w = self.R.choice([1, 2, 5])
        d = np.dtype({'names': self.names + ['weight', 'cell_index'], 'formats': [np.float64] * self.dim + [np.float64, np.int32]})
        a = np.zeros(1, dtype=d)
        for i in range(self.dim):
            a[0][i] = self.pt(x)[i]
        a[0]['weight'], a[0]['cell_index'] = w, c
        return a[0], [c, list(x), w, 0]

    def op_delta(self, k, f):
        k = self.R.choice([j for j, g in enumerate(self.F) if g.kind == 'cs'])
        p, q = self.part()
        if self.R.random() < 0.5:
            self.F[k].F.interpolate_delta_function_to_dofs(p)
        else:
            self.F[k].F.integrate_delta_function(p)
        self.log(ev='dep', dk=k, ck=-1, parts=[q], cellv=[])

    def op_addw(self, k, f):
        k = self.R.choice([j for j, g in enumerate(self.F) if g.kind == 'ds'])
        p, q = self.part()
        self.F[k].F.add_weight_to_cell(p)
        self.log(ev='addw', k=k, part=q)

    def op_div(self, k, f):
        k = self.R.choice([j for j, g in enumerate(self.F) if g.kind == 'ds'])
        self.F[k].F.divide_by_cell_volumes()
        self.log(ev='div', k=k, cellv=self.cellv(k))

    def op_interp(self, k, f, rnd=False):
        ks = [j for j, g in enumerate(self.F) if g.n == (1 if self.dim == 1 else self.dim) and (g.kind[1] == 'v')]
        if not ks:
            ks = [j for j, g in enumerate(self.F) if g.kind[1] == 's']
        k = self.R.choice(ks)
        f = self.F[k]
        n = self.R.choice([0, 1, 3, 6])
        pts = []
        P = np.zeros(n + 2, dtype=self.P.particle_dtype)
        for i in range(n):
            c = self.R.randrange(len(self.M.cells))
            x = self.inner(c, closed=f.kind[0] == 'c')
            for j, nm in enumerate(self.names):
                P[i][nm] = self.pt(x)[j]
            P[i]['cell_index'] = c
            pts.append([c, list(x)])
        cpp = (not rnd) and f.kind == 'dv' and self.coord != 'spherical_r' and self.impl == 'cpp' and self.R.random() < 0.6
        if cpp:
            out = np.full((n + 2, f.n), 77.0)
            getattr(dfs, 'interpolate_field_to_points_' + self.coord)(f.F, P, n, out)
            res = [[sc(v, FS) for v in out[i]] for i in range(n + 2)]
        else:
            # the same call with an array, or with the first part of one
            nm = ['E' + a for a in ['x', 'y', 'z'][:f.n]]
            out = np.zeros(n + 2, dtype={'names': nm, 'formats': [np.float64] * f.n})
            for i in range(n + 2):
                for j in range(f.n):
                    out[i][j] = 77.0
            (f.F.interpolate_random_field_to_points if rnd else f.F.interpolate_field_to_points)(P[0:n], out)
            res = [[sc(v, FS) for v in out[i]] for i in range(n + 2)]
        self.log(ev='rinterp' if rnd else 'interp', k=k, pts=pts, res=res)

    def op_rinterp(self, k, f):
        self.op_interp(k, f, rnd=True)

    # -------------------------------------------------------------- creation
    def creation(self):
        R, P, d = self.R, self.P, self.dim
        ctrl = DT_Module.DTcontrol_C()
        ctrl.title, ctrl.author, ctrl.write_trajectory_files = 't', 'a', False
        ctrl.dt, ctrl.n_timesteps, ctrl.time, ctrl.timeloop_count = 1.0, 100, 0.0, 0
        track = R.random() < 0.6
        if track:
            ti = RM.TrajectoryInput_C()
            ti.max_points = None
            ti.extra_points = 1
            full = ['step', 't'] + self.names + ['u' + a for a in self.names] + ['unique_ID']
            fmt = [int, np.float64] + [np.float64] * (2 * d) + [int]
            ti.neutral_dict = {'names': list(full), 'formats': list(fmt)}
            ti.charged_dict = {'names': full + ['E' + a for a in self.names] + ['E%s_ext' % a for a in self.names], 'formats': fmt + [np.float64] * (2 * d)}
            P.traj_T = RM.Trajectory_C(ti, ctrl, P.charged_species, P.neutral_species, P.species_index, P.mass, P.charge)
        self.F = [Fld(self, 'dv'), Fld(self, 'dv')]
        for f in self.F:
            f.put([R.randint(-9, 9) for _ in f.dof])
        self.tr.put(ev='cfields', obs=self.obs())
        PM.Particle_C.UNIQUE_ID_COUNTER = R.choice([0, 480, 495, 1000])
        self.fill()
        step = 0
        for _ in range(R.choice([1, 2, 3])):
            s = R.choice(self.sp)
            if R.random() < 0.25:
                g, lo, hi = DM.WholeMesh_C(self.mm), None, None
            else:
                g, lo, hi = self.region()
            npc = R.choice([1, 1, 2, 4])
            dens = R.choice([1, 3, 16]) / self.vunit()
            T = R.choice([0.0, 0.0, 0.25, 4.0])
            if T:
                npc = R.choice([2, 30])
            dr = [R.randint(-3, 3) for _ in range(d)]
            par = {'species_name': s, 'initial_distribution_type': 'function_over_region', 'number_density': dens, 'thermal_speed': T, 'timestep_interval': 1,
                   'velocity_coordinate_system': 'x_y_z', 'drift_velocity': R.choice([tuple, np.array, list])([float(v) for v in dr]), 'number_per_cell': npc}
            before = {t: [self.raw(p) for p in self.items(t)] for t in self.sp}
            uid0 = int(PM.Particle_C.UNIQUE_ID_COUNTER)
            tl0 = self.trajs()
            step += R.choice([0, 1, 5])
            neg = R.choice([-1, 0])
            ext = R.choice([-1, 1])
            P.create_maxwellian_particles(step, step * 0.5, g, par, neg_E_field=self.F[0].F if neg == 0 else None, external_E_field=self.F[1].F if ext == 1 else None)
            tl1 = self.trajs()
            frame = int(all([self.raw(p) for p in self.items(t)][:len(before[t])] == before[t] and (t == s or len(self.items(t)) == len(before[t])) for t in self.sp))
            new = self.items(s)[len(before[s]):]
            # weight of one particle in units of density times the volume unit; Cartesian weights fill the
            # volume, spherical ones are per steradian
            wu = dens * self.vunit() / (4.0 * math.pi if self.sph else 1.0)
            self.tr.put(ev='maxw', cells=[iv(c) for c in g.cell_index], npc=npc, uid0=uid0, uid1=int(PM.Particle_C.UNIQUE_ID_COUNTER), dr=dr, T4=int(T * 4), frame=frame, track=int(track),
                        step=step, neg=neg, ext=ext, charged=int(self.q[s] != 0), obs=self.obs(),
                        new=[{'c': iv(p['cell_index']), 'x': [sc(float(p[k]) / self.H, XS) for k in self.names], 'm': [self.lat(float(p[k]) / self.H * (d + 1)) for k in self.names],
                              'x0': [sc(float(p[k + '0']) / self.H, XS) for k in self.names], 'u': [sc(p['u' + k], XS) for k in self.names],
                              'w': self.lat(float(p['weight']) / wu * npc), 'fl': iv(p['bitflags']), 'uid': iv(p['unique_ID']), 'n': iv(p['crossings'])} for p in new],
                        traj=self.newtrajs(tl0, tl1, s))
            self.tr.flush()

    def lat(self, x):
        r = round(x)
        return int(r) if abs(x - r) < 1e-6 * max(1, abs(x)) else BIG

    def raw(self, p):
        return [float(p[n]) for n in p.dtype.names]

    def trajs(self):
        T = self.P.traj_T
        if T is None:
            return {t: [] for t in self.sp}
        return {t: [int(n) for n in T.trajectory_length[t]] for t in self.sp}

    def newtrajs(self, a, b, s):
        """Trajectories that appeared: [uid, particle index's uid, length, first record]"""
        T = self.P.traj_T
        out = []
        for t in self.sp:
            if b[t][:len(a[t])] != a[t] or (t != s and len(b[t]) != len(a[t])):
                return [{'uid': -9, 'cur': -9, 'len': -9, 's': -9, 't2': -9, 'x': [], 'u': [], 'E': [], 'Ex': []}]
        its = self.items(s)
        for j in range(len(a[s]), len(b[s])):
            r = T.data_list[s][j][0]
            idx = int(T.particle_index_list[s][j])
            out.append({'uid': iv(T.particle_unique_id_list[s][j]), 'cur': iv(its[idx]['unique_ID']) if 0 <= idx < len(its) else -2, 'len': b[s][j],
                        's': iv(r['step']), 't2': sc(r['t'], 2), 'x': [sc(float(r[k]) / self.H, XS) for k in self.names], 'u': [sc(r['u' + k], XS) for k in self.names],
                        'E': [sc(r['E' + k], FS) for k in self.names] if self.q[s] else [], 'Ex': [sc(r['E%s_ext' % k], FS) for k in self.names] if self.q[s] else []})
        return out

    def dispatch(self):
        """initialize_particles(): each entry once, in order."""
        R, P = self.R, self.P
        calls = []
        P.initial_particles_dict = {}
        want = []
        negE = object()
        regs = [object() for _ in range(4)]

        class Listed(object):
            pass
        lo = Listed()
        for s in self.sp:
            setattr(lo, s, lambda type, s=s: (calls.append({'k': 'list', 's': self.sp.index(s), 'ok': 1}), (0, []))[1])
        P.user_particles_class = lo
        for n in range(R.choice([0, 1, 2, 4])):
            s = R.choice(self.sp)
            kind = R.choice(['listed', 'function_over_region', 'function_over_region', 'function_over_region'])
            if R.random() < 0.08:
                kind = 'functional_over_region'
            par = {'species_name': s, 'initial_distribution_type': kind}
            if kind == 'listed':
                P.initial_particles_dict['e%d' % n] = (par,)
                want.append(['list', self.sp.index(s)])
            else:
                def fn(step, time, region, params, negEa=None, extE=None, n=n, par=par):
                    calls.append({'k': 'fn', 's': n, 'ok': int(step == 0 and time == 0.0 and region is regs[n] and params is par and negEa is negE and extE is None)})
                P.initial_particles_dict['e%d' % n] = (par, fn, regs[n])
                want.append(['fn' if kind == 'function_over_region' else 'bad', n])
        err = 0
        try:
            P.initialize_particles({s: False for s in self.sp}, neg_E_field=negE)
        except RuntimeError:
            err = 1
        self.tr.put(ev='init', want=want, calls=calls, err=err)


def main():
    out, impl, coord, seed, n, mode = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4], int(sys.argv[5]), sys.argv[6]
    seed, then = split_seed(seed)
    tr = Trace(out)
    quiet_stdout()
    for k in range(n):
        R = random.Random('%s-%s-%s-%s-%s' % (impl, coord, seed, k, mode))
        np.random.seed(R.randrange(1 << 31))
        r = Run(tr, impl, coord, R, mode)
        try:
            r.make()
            if then:
                R.seed('%s %d' % (then, k))
            if mode == 'field':
                r.fields()
            else:
                r.creation()
                r.dispatch()
        except (Exception, SystemExit) as e:
            import traceback
            tr.put(ev='crash', what=describe(e), tb=traceback.format_exc()[-1200:])
            tr.flush()
    tr.close()
    done()


main()
