"""Self-consistent runs: PIC / PICTrace, and runs repeated: Twin / TwinTrace (drv_pic)."""
COORDS = ['cartesian_x', 'spherical_r', 'cartesian_xy']


def record(c, impl, coord, seed, n):
    tr = c.path('pic-%s-%s-%s.ndjson' % (impl, coord, seed))
    rc, err = c.driver('drv_pic', [tr, impl, coord, seed, n])
    c.validate('PICTrace', tr, 'self-consistent runs, %s in %s, seed %s' % (impl, coord, seed), cfg='PICTrace.cfg', died=err if rc else None)


def twin(c, coord, seed, n):
    tr = c.path('twin-%s-%s.ndjson' % (coord, seed))
    rc, err = c.driver('drv_pic', [tr, 'twin', coord, seed, n])
    c.validate('TwinTrace', tr, 'runs made three times, with Python and C++ integrators, in %s, seed %s' % (coord, seed), cfg='Trace.cfg', died=err if rc else None)


def run(c):
    c.build()
    q = c.quick
    if c.pid == 'N01':
        jobs = [lambda: c.model('TwinMC', c.cfg('TwinMC.cfg', **({} if q else {'Steps': 8, 'Runs': 4})), 'repeated runs that draw random numbers', workers=1)]
        for k in range(1 if q else 12):
            for coord in reversed(COORDS):
                jobs.append(lambda coord=coord, k=k: twin(c, coord, c.seed + 100 * k, 60 if q else 200))
        return c.par(jobs)
    what = 'the cycle: symmetries, Gauss, sums over whole histories'
    jobs = [lambda: c.model('PICMC', c.cfg('PICMC.cfg', WMax=1), what, workers=2)] if q else \
           [lambda: c.model('PICMC', c.cfg('PICMC.cfg', WMax=2, Steps=5), what, workers=3),
            lambda: c.model('PICMC', c.cfg('PICMC.cfg', WMax=1, NCells=4, Steps=5), what, workers=3)]
    for k in range(2 if q else 16):
        for coord in reversed(COORDS):
            for impl in ('py', 'cpp'):
                jobs.append(lambda impl=impl, coord=coord, k=k: record(c, impl, coord, c.seed + 100 * k, 80 if q else 400))
    c.par(jobs)
