"""Mesh geometry, fields on meshes and creation of particles over regions:
Geometry / MeshTrace (drv_mesh), FieldTrace (drv_field), SolveTrace (drv_solve)."""
COORDS = ['cartesian_x', 'spherical_r', 'cartesian_xy', 'cartesian_xyz']
MODE = {'G01': 'mesh', 'G02': 'mesh', 'G03': 'mesh', 'R01': 'mesh', 'F02': 'field', 'D01': 'field', 'C03': 'create', 'C04': 'create', 'F01': 'solve', 'G04': 'user'}


def models(c, mode):
    q = c.quick
    if mode in ('solve', 'user'):
        if q:
            return [lambda: c.model('SolveMC', c.cfg('SolveMC.cfg', Meshes='{1, 2, 3, 4, 7}'), 'the equations: symmetry, uniqueness, linear potentials, total charge', workers=2)] if mode == 'solve' else []
        return [lambda: c.model('SolveMC', c.cfg('SolveMC.cfg', VMax=2, Meshes='{1, 2, 3, 4, 5, 7}'), 'the equations: symmetry, uniqueness, linear potentials, total charge', workers=4),
                lambda: c.model('SolveMC', c.cfg('SolveMC.cfg', CMax=1, Meshes='{6, 8, 9}'), 'the equations: 3D', workers=2)] if mode == 'solve' else []
    if q:
        return [lambda: c.model('MeshMC', c.cfg('MeshMC.cfg', Meshes='{1, 2, 7}' if mode == 'mesh' else '{1, 3}', WStep=3), 'tiling, shape functions, moves, regions, deposits on small meshes', workers=2)]
    return [lambda: c.model('MeshMC', c.cfg('MeshMC.cfg', Meshes='{1, 2, 3, 4, 5, 7}', WMax=8), 'tiling, shape functions, moves, regions, deposits: 1D, 2D', workers=4),
            lambda: c.model('MeshMC', c.cfg('MeshMC.cfg', Meshes='{8}', WMax=6, WStep=3, NParts=1), 'the same: an irregular mesh', workers=2),
            lambda: c.model('MeshMC', c.cfg('MeshMC.cfg', Meshes='{6, 9}', WMax=6, WStep=6, NParts=1), 'the same: 3D', workers=2)]


def replay(c, coord, seed, nmoves, gen):
    tr = c.path('meshgen-%s-%s.ndjson' % (coord, seed))
    rc, err = c.driver('drv_mesh', [tr, coord, seed, nmoves, 0, gen])
    c.validate('MeshTrace', tr, 'the points and moves of the generated meshes in %s, numbering %s' % (coord, seed), cfg='MeshTrace.cfg', died=err if rc else None)


def mesh(c, coord, seed, n, pts):
    tr = c.path('mesh-%s-%s.ndjson' % (coord, seed))
    rc, err = c.driver('drv_mesh', [tr, coord, seed, n, pts])
    c.validate('MeshTrace', tr, 'mesh queries in %s, seed %s' % (coord, seed), cfg='MeshTrace.cfg', died=err if rc else None)


def field(c, impl, coord, seed, n, mode):
    tr = c.path('%s-%s-%s-%s.ndjson' % (mode, impl, coord, seed))
    rc, err = c.driver('drv_field', [tr, impl, coord, seed, n, mode])
    c.validate('FieldTrace', tr, '%s operations, %s in %s, seed %s' % (mode, impl, coord, seed), cfg='MeshTrace.cfg', died=err if rc else None)


def solve(c, coord, seed, n, mode):
    tr = c.path('%s-%s-%s.ndjson' % (mode, coord, seed))
    rc, err = c.driver('drv_solve', [tr, coord, seed, n, mode])
    c.validate('SolveTrace', tr, '%s runs in %s, seed %s' % (mode, coord, seed), cfg='MeshTrace.cfg', died=err if rc else None)


def together(c, impl, coord, mode):
    q, s = c.quick, c.seed + 5000
    if mode == 'mesh':
        a, b = [['OUT', coord, s + j, 60 if q else 300, 60] for j in (0, 1)]
        c.duo('drv_mesh', 'MeshTrace', 'mesh queries in %s' % coord, a, b, cfg='MeshTrace.cfg')
    elif mode in ('solve', 'user'):
        a, b = [['OUT', coord, s + j, 50 if q else 250, mode] for j in (0, 1)]
        c.duo('drv_solve', 'SolveTrace', '%s runs in %s' % (mode, coord), a, b, cfg='MeshTrace.cfg')
    else:
        a, b = [['OUT', impl, coord, s + j, 60 if q else 300, mode] for j in (0, 1)]
        c.duo('drv_field', 'FieldTrace', '%s operations, %s in %s' % (mode, impl, coord), a, b, cfg='MeshTrace.cfg')


def run(c):
    c.build()
    mode = MODE[c.pid]
    jobs = models(c, mode)
    if mode == 'mesh':
        gen = c.path('meshes.ndjson')
        c.generate('MeshGen', c.cfg('MeshGen.cfg') if c.quick else c.cfg('MeshGen.cfg', WMax=9), gen)
        for k in range(1 if c.quick else 8):
            for coord in reversed(COORDS):
                jobs.append(lambda coord=coord, k=k: replay(c, coord, c.seed + k, 25 if c.quick else 100, gen))
    for coord in reversed(COORDS):
        if (mode, coord) != ('solve', 'cartesian_xyz'):
            jobs += [lambda coord=coord, i=i: together(c, i, coord, mode) for i in (('py', 'cpp') if mode in ('field', 'create') else ('',))]
    for k in range(3 if c.quick else 16):
        for coord in reversed(COORDS):
            s = c.seed + 100 * k
            if mode == 'mesh':
                jobs.append(lambda coord=coord, s=s: mesh(c, coord, s, 120 if c.quick else 300, 60 if c.quick else 120))
            elif mode in ('solve', 'user'):
                if (mode, coord) != ('solve', 'cartesian_xyz'):
                    jobs.append(lambda coord=coord, s=s: solve(c, coord, s, 100 if c.quick else 250, mode))
            else:
                for impl in ('py', 'cpp'):
                    jobs.append(lambda impl=impl, coord=coord, s=s: field(c, impl, coord, s, 120 if c.quick else 300, mode))
    c.par(jobs)
