"""Two sessions in one process against each of them alone: Duo / DuoTrace (duo.py over the other drivers)."""
import json
COORDS = ['cartesian_x', 'spherical_r', 'cartesian_xy', 'cartesian_xyz']


def flat(e):
    """An event as its shape and its numbers."""
    out = []

    def go(x):
        if isinstance(x, bool) or x is None or isinstance(x, str):
            return repr(x)
        if isinstance(x, dict):
            return '{' + ','.join(k + ':' + go(x[k]) for k in sorted(x)) + '}'
        if isinstance(x, list):
            if all(type(y) is int for y in x):
                out.extend(x)
                return 'i%d' % len(x)
            return '[' + ','.join(map(go, x)) + ']'
        if isinstance(x, int):
            out.append(x)
            return 'i'
        return repr(round(x, 6))
    e.pop('tb', None)
    return go(e), out


def pair(c, name, what, a, b):
    key = '%s-%s' % (name, '-'.join(str(x) for x in a + b if x != 'OUT'))
    alone, joint = [], []
    for s, v in enumerate((a, b)):
        o, d = c.path('alone%d-%s.ndjson' % (s, key)), c.path('joint%d-%s.ndjson' % (s, key))
        rc, err = c.driver(name, [o if x == 'OUT' else x for x in v])
        if rc:
            return c.fail('N02.crash', what, 'alone: ' + err[:600])
        alone.append(o)
        joint.append(d)
    order = c.path('order-%s' % key)
    va, vb = [[o if x == 'OUT' else x for x in v] for o, v in zip(joint, (a, b))]
    rc, err = c.driver('duo', [c.seed, name, len(va)] + va + vb, env={'VERIF_ORDER': order})
    if rc:
        return c.fail('N02.crash', what, 'together: ' + err[:600])
    ls = [[[json.loads(l) for l in open(f)] for f in q] for q in (joint, alone)]
    at = [0, 0]
    tr = c.path('duo-%s.ndjson' % key)
    with open(tr, 'w') as f:
        for s in map(int, open(order).read().split()):
            k = at[s]
            at[s] += 1
            sh, v = flat(ls[0][s][k])
            sa, va = flat(ls[1][s][k]) if k < len(ls[1][s]) else ('none', [])
            f.write(json.dumps({'ev': 'step', 's': s + 1, 'k': k + 1, 'shape': sh, 'salone': sa, 'v': v, 'alone': va}) + '\n')
        f.write(json.dumps({'ev': 'end', 'len': [len(x) for x in ls[1]]}) + '\n')
    c.validate('DuoTrace', tr, what)


def run(c):
    c.build()
    q = c.quick
    jobs = [lambda: c.model('DuoMC', c.cfg('DuoMC.cfg', Length=3 if q else 4), 'two sessions that share nothing', workers=2)]

    def add(name, what, a, b):
        jobs.append(lambda: pair(c, name, '%s, two sessions in one process and each alone' % what, a, b))
    for k in range(1 if q else 10):
        s = c.seed + 500 + 10 * k
        for x in reversed(COORDS):
            n = 1 if q else 3
            for i, j in (('py', 'py'), ('cpp', 'cpp'), ('py', 'cpp')):
                add('drv_plasma', 'simulations, %s/%s in %s' % (i, j, x), ['OUT', i, x, s, 6 * n, 'run'], ['OUT', j, x, s + 1, 6 * n, 'run'])
                if (i, j) != ('py', 'cpp'):
                    add('drv_field', 'fields, %s in %s' % (i, x), ['OUT', i, x, s, 15 * n, 'field'], ['OUT', j, x, s + 1, 15 * n, 'field'])
                    add('drv_field', 'creation, %s in %s' % (i, x), ['OUT', i, x, s, 15 * n, 'create'], ['OUT', j, x, s + 1, 15 * n, 'create'])
            for i in ('py', 'cpp'):       # the same set-up, other particles and operations
                add('drv_plasma', 'like simulations, %s in %s' % (i, x), ['OUT', i, x, '%d.1' % s, 10 * n, 'run'], ['OUT', i, x, '%d.2' % s, 10 * n, 'run'])
                add('drv_field', 'like fields, %s in %s' % (i, x), ['OUT', i, x, '%d.1' % s, 15 * n, 'field'], ['OUT', i, x, '%d.2' % s, 15 * n, 'field'])
            if x != 'cartesian_xyz':
                add('drv_solve', 'like solves in %s' % x, ['OUT', x, '%d.1' % s, 20 * n, 'solve'], ['OUT', x, '%d.2' % s, 20 * n, 'solve'])
            add('drv_mesh', 'mesh queries in %s' % x, ['OUT', x, s, 20 * n, 20], ['OUT', x, s + 1, 20 * n, 20])
            add('drv_setup', 'set-ups in %s' % x, ['OUT', x, s, 40 * n], ['OUT', x, s + 1, 40 * n])
            if x != 'cartesian_xyz':
                add('drv_solve', 'solves in %s' % x, ['OUT', x, s, 20 * n, 'solve'], ['OUT', x, s + 1, 20 * n, 'solve'])
            add('drv_solve', 'user meshes in %s' % x, ['OUT', x, s, 20 * n, 'user'], ['OUT', x, s + 1, 20 * n, 'user'])
        for x in ['py'] + COORDS:
            add('drv_sap', 'storage, %s' % x, ['random', 'OUT', x, 3, s, 6 * n, 30], ['random', 'OUT', x, 3, s + 1, 6 * n, 30])
    c.par(jobs)
