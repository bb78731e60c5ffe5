"""Particle storage: SAPSeq / SAP / SAPGen / SAPTrace."""
import json, os

KINDS = ['py', 'cartesian_x', 'cartesian_xy', 'cartesian_xyz', 'spherical_r']


def replay(c, hist, kind, L):
    out = c.path('sap-%s-%d.json' % (kind, L))
    rc, err = c.driver('drv_sap', ['replay', hist, out, kind, L])
    src = 'histories of SAPGen (L=%d) replayed into %s' % (L, kind)
    if rc:
        c.fail('crash', src, err, hist)
        return
    r = json.load(open(out))
    for f in r['fail']:
        c.fail(f['clause'], src, f, hist)
    with c.lock:
        c.traces += r['histories']
        c.events += r['ops']
        c.parts.append({'replay': src, 'histories': r['histories'], 'ops': r['ops']})


def record(c, kind, L, seed, nruns, nops):
    tr = c.path('sap-%s-%d-%s.ndjson' % (kind, L, seed))
    rc, err = c.driver('drv_sap', ['random', tr, kind, L, seed, nruns, nops])
    c.validate('SAPTrace', tr, 'random clients of %s, segment length %d, seed %s' % (kind, L, seed), died=err if rc else None)


def run(c):
    c.build()
    q = c.quick
    hist = c.path('hist2.ndjson')
    jobs = [lambda: c.model('SAP', c.cfg('SAPMC.cfg', MaxItems=4 if q else 6), 'API-grain storage implements one sequence', workers=2 if q else 6)]
    for i, k in enumerate(KINDS):
        for L in ((1, 3, 7) if q else (1, 2, 3, 4, 5, 7, 16)):
            jobs.append(lambda k=k, L=L: record(c, k, L, c.seed, 25 if q else 40, 40 if q else 60))

    for k in KINDS:
        a, b = [['random', 'OUT', k, 3, c.seed + s, 8 if q else 40, 40] for s in (5000, 5001)]
        jobs.append(lambda k=k, a=a, b=b: c.duo('drv_sap', 'SAPTrace', 'random clients of %s' % k, a, b))

    def gen():
        n = c.generate('SAPGen', c.cfg('SAPGen.cfg', Depth=3 if q else 4, MaxFill=5), hist)
        c.samples.append({'history': json.loads(open(hist).readline())})
    gen()
    jobs += [lambda k=k: replay(c, hist, k, 2) for k in KINDS]
    if not q:
        h3 = c.path('hist3.ndjson')
        c.generate('SAPGen', c.cfg('SAPGen.cfg', L=3, Depth=3, MaxFill=7), h3)
        jobs += [lambda k=k: replay(c, h3, k, 3) for k in KINDS]
    c.par(jobs)
