"""Whole simulations: Geometry / Mover / PlasmaTrace (drv_plasma)."""
COORDS = ['cartesian_x', 'spherical_r', 'cartesian_xy', 'cartesian_xyz']


# properties about one step of one particle / about whole histories
STEP = ('M02', 'M03', 'M04', 'M05', 'M07')


def record(c, impl, coord, seed, n, mode, scripts=None):
    tr = c.path('plasma-%s-%s-%s-%s.ndjson' % (mode, impl, coord, seed))
    rc, err = c.driver('drv_plasma', [tr, impl, coord, seed, n, mode] + ([scripts] if scripts else []))
    c.validate('PlasmaTrace', tr, '%s simulations, %s in %s, seed %s' % (mode, impl, coord, seed), cfg='PlasmaTrace.cfg', died=err if rc else None)


def together(c, i, j, coord):
    mode, n = ('limit', 40) if c.pid == 'M07' else ('run', 12 if c.quick else 80)
    a, b = [['OUT', x, coord, c.seed + s, n, mode] for x, s in ((i, 5000), (j, 5001))]
    c.duo('drv_plasma', 'PlasmaTrace', '%s simulations, %s and %s in %s' % (mode, i, j, coord), a, b, cfg='PlasmaTrace.cfg')


def models(c):
    q = c.quick
    if c.pid in STEP:
        if q:
            return [lambda: c.model('MoverMC', c.cfg('MoverMC.cfg'), 'a step in a box is the folded straight path, in every mesh of the box', workers=2)]
        return [lambda: c.model('MoverMC', c.cfg('MoverMC.cfg', WMax=16, WStep=1, Meshes='{1, 2, 3, 5}'), 'a step in a box is the folded straight path (1D, 2D)', workers=4),
                lambda: c.model('MoverMC', c.cfg('MoverMC.cfg', WMax=24, WStep=3, Meshes='{4}'), 'a step in a box is the folded straight path (crossed mesh)', workers=2),
                lambda: c.model('MoverMC', c.cfg('MoverMC.cfg', U=8, WMax=14, WStep=7, Meshes='{6}'), 'a step in a box is the folded straight path (3D)', workers=2)]
    return [lambda: c.model('PlasmaMC', c.cfg('PlasmaMC.cfg', Depth=4 if q else 6), 'histories of a simulation', workers=2 if q else 6)]


def run(c):
    c.build()
    q = c.quick
    jobs = models(c)
    for coord in reversed(COORDS):
        for i, j in (('py', 'cpp'), ('cpp', 'cpp')) if coord in ('cartesian_x', 'cartesian_xyz') else (('cpp', 'py'), ('py', 'py')):
            jobs.append(lambda i=i, j=j, coord=coord: together(c, i, j, coord))
    if c.pid == 'M07':
        for k in range(2 if q else 12):
            for coord in reversed(COORDS):
                for impl in ('py', 'cpp'):
                    jobs.append(lambda impl=impl, coord=coord, k=k: record(c, impl, coord, c.seed + k, 120 if q else 250, 'limit'))
        c.par(jobs)
        return
    scripts = None
    if c.pid not in STEP:
        scripts = c.path('schedules.ndjson')
        c.generate('PlasmaGen', c.cfg('PlasmaGen.cfg', Depth=6), scripts)
    for k in range(1 if q else 8):
        for coord in reversed(COORDS):
            for impl in ('py', 'cpp'):
                jobs.append(lambda impl=impl, coord=coord, k=k: record(c, impl, coord, c.seed + k, 70 if q else 80, 'run'))
                if scripts:
                    jobs.append(lambda impl=impl, coord=coord, k=k: record(c, impl, coord, c.seed + k, 40 if q else 150, 'script', scripts))
                if not scripts or c.pid in ('M01', 'M06'):
                    jobs.append(lambda impl=impl, coord=coord, k=k: record(c, impl, coord, c.seed + k, 2 if q else 4, 'sweep'))
        for impl in ('py', 'cpp'):
            jobs.append(lambda impl=impl, k=k: record(c, impl, 'cartesian_xyz', c.seed + k, 12, 'uniform'))
    c.par(jobs)
