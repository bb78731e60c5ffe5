"""Building simulations from inputs, valid or not: SetupTrace (drv_setup)."""
COORDS = ['cartesian_x', 'spherical_r', 'cartesian_xy', 'cartesian_xyz']


def record(c, coord, seed, n):
    tr = c.path('setup-%s-%s.ndjson' % (coord, seed))
    rc, err = c.driver('drv_setup', [tr, coord, seed, n])
    c.validate('SetupTrace', tr, 'set-ups in %s, seed %s' % (coord, seed), died=err if rc else None)


def run(c):
    c.build()
    jobs = [lambda coord=coord, k=k: record(c, coord, c.seed + 100 * k, 400 if c.quick else 500) for k in range(2 if c.quick else 8) for coord in COORDS]
    for coord in COORDS:
        a, b = [['OUT', coord, c.seed + s, 100] for s in (5000, 5001)]
        jobs.append(lambda coord=coord, a=a, b=b: c.duo('drv_setup', 'SetupTrace', 'set-ups in %s' % coord, a, b))
    if c.pid == 'H02':
        jobs.append(lambda: c.model('CapMC', c.cfg('CapMC.cfg', NMax=14 if c.quick else 30, EMax=1 if c.quick else 2), 'recording a run in the room reserved for it', workers=2))
    c.par(jobs)
