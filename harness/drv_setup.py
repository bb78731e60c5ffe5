"""drv_setup.py OUT COORD SEED N: set-ups of simulations from random inputs, valid or not."""
import sys, os, random
from vlib import *
import dt_pybind11_bridge
import numpy as np
import dolfin as df
df.set_log_level(50)
import DT_Module, Particle_Module as PM, RecordedData_Module as RM, Dolfin_Module as DM

KNOWN = ['cartesian_x', 'spherical_r', 'cartesian_xy', 'cartesian_xyz']
COMPS = {'cartesian_x': ['x'], 'spherical_r': ['r'], 'cartesian_xy': ['x', 'y'], 'cartesian_xyz': ['x', 'y', 'z']}
NAMES = ['electrons', 'ions', 'neutral_H', 'He_plus', 'He', 'test_electrons', 'a', 'ab', 'b', 'species', 'trajelectrons']


def lat(v, k):
    """v*k, which has to be an integer"""
    x = float(v) * k
    return int(round(x)) if abs(x) < 1e8 and abs(x - round(x)) < 1e-6 else BIG


def s(v):
    return '<none>' if v is None else str(v)


def attempt(f):
    try:
        return 'accepted', f()
    except (Exception, SystemExit):
        return 'refused', None


def species(R):
    out = []
    for n in R.sample(NAMES, R.choice([1, 1, 2, 3, 5])):
        q4 = R.choice([0, 0, 4, -4, 8, 1, -3])
        out.append((n, q4, R.choice([1, 2, 8, 16]), R.choice(['explicit', 'charged', 'implicit', 'neutral'])))
    return out


def inp(R, coord, cpp, sp, prec=np.float64):
    p = PM.ParticleInput_C()
    p.precision = prec
    p.particle_species = tuple(PM.ParticleSpecies_C(n, q / 4, m / 8, d) for n, q, m, d in sp)
    p.coordinate_system = coord
    p.use_cpp_integrators = cpp
    p.force_components = COMPS.get(coord, ['x'])
    p.force_precision = np.float64
    return p


def kind(t):
    return 'float' if np.issubdtype(t, np.floating) else 'int' if np.issubdtype(t, np.integer) else 'other'


def setup(tr, R, coord):
    sp = species(R)
    cpp = R.random() < 0.5
    pr = np.float64 if cpp else R.choice([np.float64, np.float32])
    PM.Particle_C.SEGMENT_LENGTH = L = R.choice([1, 2, 5, 100])
    P = PM.Particle_C(inp(R, coord, cpp, sp, pr))
    count0 = [iv(P.get_species_particle_count(n)) for n in P.species_names]
    tot0 = iv(P.get_total_particle_count())
    # a record with a different value in every attribute, written and read by name
    names = list(P.particle_dtype.names)
    who = R.choice(list(P.species_names))
    sap = P.sap_dict[who]
    sap.push_back(tuple(float(k + 1) if kind(P.particle_dtype[a]) == 'float' else k + 1 for k, a in enumerate(names)))
    seg, off = sap.get_segment_and_offset(0)
    stored = [{'a': a, 'v': lat(seg[off][a], 1)} for a in seg.dtype.names]
    tr.put(ev='setup', coord=coord, impl='cpp' if cpp else 'py', L=L, sp=[{'name': n, 'q4': q, 'm8': m, 'dyn': d} for n, q, m, d in sp], who=who,
           names=list(P.species_names), nsp=iv(P.number_of_species), idx=[iv(P.species_index[n]) for n in P.species_names],
           charged=list(P.charged_species), neutral=list(P.neutral_species), charge=[lat(P.charge[n[0]], 4) for n in sp], mass=[lat(P.mass[n[0]], 8) for n in sp],
           qom=[lat(P.qom[n[0]] * n[2], 2) for n in sp], attrs=names, kinds=[kind(P.particle_dtype[a]) for a in names], pos=list(P.position_coordinates),
           dim=iv(P.particle_dimension), count0=count0, tot0=tot0, stored=stored, count1=[iv(P.get_species_particle_count(n)) for n in P.species_names],
           tot1=iv(P.get_total_particle_count()))


def caps(tr, R, coord):
    c = DT_Module.DTcontrol_C()
    c.title, c.author, c.write_trajectory_files = 't', 'a', False
    c.n_timesteps = n = R.choice([1, 2, 3, 5, 7, 10, 12, 40, 97, 100, 1000, R.randint(1, 3000), R.randint(1, 60)])
    m = R.choice([None, 1, 2, 3, 4, 5, 9, 10, 11, 50, 100, 1000, 1001, n, n + 1, max(1, n - 1), max(1, n // 2), R.randint(1, n + 3)])
    ti = RM.TrajectoryInput_C()
    ti.max_points, ti.extra_points = m, R.choice([0, 1, 2, 7])
    ti.charged_dict = {'names': ['step', 't', 'x'], 'formats': [int, np.float64, np.float64]}
    ti.neutral_dict = dict(ti.charged_dict)
    T = RM.Trajectory_C(ti, c, ['e'], ['n'], {'e': 1, 'n': 2}, {'e': 1.0, 'n': 1.0}, {'e': 1.0, 'n': 0.0})
    sizes = []
    for sn, dyn in (('e', 'charged'), ('n', 'neutral')):
        for u in range(R.choice([0, 1, 2])):
            T.create_trajectory(sn, u, dyn, unique_id_int=u)
            sizes.append(len(T.data_list[sn][-1]))
    hi = RM.ParticleHistoryInput_C()
    hi.max_points, hi.scalar_histories = m, ['count']
    H = RM.ParticleHistory_C(hi, c, {}, ['e', 'n'])
    tr.put(ev='cap', n=n, max=-1 if m is None else m, extra=ti.extra_points, tskip=iv(T.skip), tpts=iv(T.npoints), sizes=sizes,
           hskip=iv(H.skip), hpts=iv(H.npoints), hlen=len(H.data_array), hcount=iv(H.counter))


def refusals(tr, R, coord):
    sp = species(R)
    case = R.choice(['system', 'attributes', 'outfile', 'writetraj', 'trajtype', 'meshsystem', 'nomesh', 'chargemesh'])
    a = {'case': case, 'coord': coord}
    ctrl = DT_Module.DTcontrol_C()
    ctrl.title, ctrl.author, ctrl.write_trajectory_files, ctrl.n_timesteps = 't', 'a', True, 3
    PM.Particle_C.SEGMENT_LENGTH = 3
    mk = lambda: PM.Particle_C(inp(R, coord, False, sp))
    mesh = {1: lambda: df.IntervalMesh(3, 0.0, 3.0), 2: lambda: df.RectangleMesh(df.Point(0, 0), df.Point(2, 2), 2, 2), 3: lambda: df.BoxMesh(df.Point(0, 0, 0), df.Point(1, 1, 1), 1, 1, 1)}
    dim = len(COMPS[coord])
    if case == 'system':
        cs = R.choice(KNOWN + [None, 'cartesian', 'cartesian_yz', 'Cartesian_x', 'spherical', 'cartesian_xyzt', ''])
        cpp = R.choice([True, False, False, None])
        out = attempt(lambda: PM.Particle_C(inp(R, cs, cpp, sp)))[0]
        a.update(cs=s(cs), cpp=s(cpp))
    elif case == 'attributes':
        P = mk()
        l = R.sample(list(P.particle_dtype.names) + ['species_index'], R.randint(0, 5))
        if R.random() < 0.5:
            l.insert(R.randint(0, len(l)), R.choice(['energy', 'X', 'u' + 'xyzr'[R.randrange(4)], 'z', 'r', 'y0', '', 'x00', 'Weight', 'species']))
        ctrl.particle_output_attributes = l
        out = attempt(lambda: P.check_particle_output_parameters(ctrl))[0]
        a.update(list=l)
    elif case == 'outfile':
        P = mk()
        f = R.choice([None, 'o.h5part'])
        ctrl.particle_output_file = f

        def go():
            P.initialize_particle_output_file(ctrl)
            P.particle_output_handle.close()
        out = attempt(go)[0]
        a.update(file=s(f))
        if os.path.exists('o.h5part'):
            os.unlink('o.h5part')
    elif case == 'writetraj':
        w = ctrl.write_trajectory_files = R.choice([None, True, False])
        ti = RM.TrajectoryInput_C()
        ti.extra_points = 1
        out = attempt(lambda: RM.Trajectory_C(ti, ctrl, ['e'], [], {'e': 1}, {'e': 1.0}, {'e': 1.0}))[0]
        a.update(w=s(w))
    elif case == 'trajtype':
        ti = RM.TrajectoryInput_C()
        ti.extra_points = 1
        ti.charged_dict = {'names': ['step', 't'], 'formats': [int, np.float64]}
        ti.neutral_dict = dict(ti.charged_dict)
        T = RM.Trajectory_C(ti, ctrl, ['e'], [], {'e': 1}, {'e': 1.0}, {'e': 1.0})
        t = R.choice(['charged', 'neutral', 'implicit', 'explicit', 'Charged', '', None])
        out = attempt(lambda: T.create_trajectory('e', 0, t, unique_id_int=0))[0]
        a.update(type=s(t))
    elif case == 'meshsystem':
        cs = R.choice([None, 'Cartesian', '1D-spherical-radial', 'spherical', 'cartesian', '1D-spherical-radius', 'Cylindrical'])
        M = mesh[1]() if cs == '1D-spherical-radial' else mesh[dim]()

        def go():
            q = DM.Mesh_C(Mesh=M, coordinate_system=cs, compute_dictionaries=R.random() < 0.5)
            q.compute_cell_volume_dict()
        out = attempt(go)[0]
        a.update(cs=s(cs))
    elif case == 'nomesh':
        P = mk()
        m = R.choice([None, 1])
        out = attempt(lambda: P.initialize_particle_mesh(None if m is None else DM.Mesh_C(Mesh=mesh[dim](), coordinate_system='Cartesian' if coord != 'spherical_r' else '1D-spherical-radial',
                                                                                          compute_dictionaries=R.random() < 0.5)))[0]
        a.update(mesh=int(m is not None))
    else:
        P = mk()
        M = DM.Mesh_C(Mesh=mesh[dim](), coordinate_system='Cartesian' if coord != 'spherical_r' else '1D-spherical-radial', compute_dictionaries=True)
        m = R.choice([0, 1])
        if m:
            P.initialize_particle_mesh(M)
        F = DM.Field_C(M, 'CG', 1, 'scalar')
        D = {x[0]: DM.Field_C(M, 'CG', 1, 'scalar') for x in sp}
        out = attempt(lambda: P.accumulate_charge_density_from_particles(D, F))[0]
        a.update(mesh=m)
    tr.put(ev='try', out=out, **a)


def main():
    out, coord, seed, n = sys.argv[1:5]
    quiet_stdout()
    tr = Trace(out)
    for k in range(int(n)):
        R = random.Random('setup %s %s %d' % (coord, seed, k))
        try:
            setup(tr, R, coord)
            for _ in range(2):
                caps(tr, R, coord)
            for _ in range(4):
                refusals(tr, R, coord)
        except Exception as e:
            import traceback
            tr.put(ev='crash', what=describe(e), tb=traceback.format_exc()[-1500:])
        tr.flush()
    tr.close()
    done()


main()
