"""Integer-lattice meshes and a filter for degenerate moves.

Vertices have integer coordinates; particle positions are multiples of 1/U of the vertex unit.  The
walk below is used only to choose inputs for which the exact path is not degenerate (no end point
on a facet, no two facets met at the same instant); the expected results come from the TLA+ modules.
"""
from fractions import Fraction as Fr
from math import gcd
import random

U = 16


class LMesh:
    def __init__(self, dim, verts, cells):
        self.dim, self.verts, self.cells = dim, [tuple(v) for v in verts], [tuple(c) for c in cells]
        self.facets = None

    def dolfin(self, H, editor_seed=0):
        """The dolfin mesh (scaled by H).  Renumbers self to dolfin's numbering."""
        import dolfin as df
        R = random.Random(editor_seed)
        vs = list(range(len(self.verts)))
        R.shuffle(vs)
        pos = {v: i for i, v in enumerate(vs)}
        cs = [[pos[v] for v in c] for c in self.cells]
        R.shuffle(cs)
        m = df.Mesh()
        ed = df.MeshEditor()
        kind = {1: 'interval', 2: 'triangle', 3: 'tetrahedron'}[self.dim]
        ed.open(m, kind, self.dim, self.dim)
        ed.init_vertices(len(vs))
        ed.init_cells(len(cs))
        import numpy as np
        for i, v in enumerate(vs):
            ed.add_vertex(i, np.array([float(a) * H for a in self.verts[v]]))
        for i, c in enumerate(cs):
            ed.add_cell(i, np.array(sorted(c), dtype=np.uintp))
        ed.close()
        m.order()
        self.take(m, H)
        return m

    def take(self, m, H):
        """Numbering, vertices, cells and facets as the dolfin mesh has them."""
        d = self.dim
        X = m.coordinates()
        self.verts = [tuple(int(round(float(a) / H)) for a in X[i]) for i in range(X.shape[0])]
        self.cells = [tuple(int(v) for v in c) for c in m.cells()]
        if d == 1:
            self.facets = [(i,) for i in range(len(self.verts))]
        else:
            m.init(d - 1)
            m.init(d - 1, 0)
            t = m.topology()(d - 1, 0)
            self.facets = [tuple(int(v) for v in t(i)) for i in range(m.num_entities(d - 1))]
        self.prepare()

    def prepare(self):
        d = self.dim
        byset = {frozenset(f): i for i, f in enumerate(self.facets)}
        self.fcells = [[] for _ in self.facets]
        self.cf = []       # per cell: list of (facet, n, c)
        for ci, c in enumerate(self.cells):
            lst = []
            for k in range(d + 1):
                fv = [v for j, v in enumerate(c) if j != k]
                fi = byset[frozenset(fv)]
                n, off = plane([self.verts[v] for v in fv], self.verts[c[k]])
                lst.append((fi, n, off))
                self.fcells[fi].append(ci)
            self.cf.append(lst)

    def exterior(self, f):
        return len(self.fcells[f]) == 1

    def normal(self, f):
        c = self.fcells[f][0]
        return [n for (fi, n, o) in self.cf[c] if fi == f][0]

    def neighbor(self, c, f):
        o = [x for x in self.fcells[f] if x != c]
        return o[0] if o else -1

    def strictly_inside(self, c, x):
        return all(sum(a * b for a, b in zip(n, x)) < off * U for (_, n, off) in self.cf[c])

    def locate(self, x):
        for c in range(len(self.cells)):
            if self.strictly_inside(c, x):
                return c
        return None

    def bbox(self):
        return [(min(v[i] for v in self.verts), max(v[i] for v in self.verts)) for i in range(self.dim)]


def plane(fv, opp):
    """Primitive integer normal pointing away from opp, and offset n.v of the plane through fv."""
    d = len(opp)
    if d == 1:
        n = [1 if fv[0][0] > opp[0] else -1]
    elif d == 2:
        a, b = fv
        n = [b[1] - a[1], -(b[0] - a[0])]
    else:
        a, b, c = fv
        p = [b[i] - a[i] for i in range(3)]
        q = [c[i] - a[i] for i in range(3)]
        n = [p[1] * q[2] - p[2] * q[1], p[2] * q[0] - p[0] * q[2], p[0] * q[1] - p[1] * q[0]]
    g = 0
    for a in n:
        g = gcd(g, abs(a))
    n = [a // g for a in n]
    if sum(n[i] * (fv[0][i] - opp[i]) for i in range(d)) < 0:
        n = [-a for a in n]
    return tuple(n), sum(n[i] * fv[0][i] for i in range(d))


# ------------------------------------------------------------------ families
def interval(xs):
    return LMesh(1, [(x,) for x in xs], [(i, i + 1) for i in range(len(xs) - 1)])


def rect(nx, ny, diag, sx=1, sy=1, ox=0, oy=0, skip=()):
    vs, idx, cells = [], {}, []

    def v(x, y):
        if (x, y) not in idx:
            idx[(x, y)] = len(vs)
            vs.append((x, y))
        return idx[(x, y)]
    for j in range(ny):
        for i in range(nx):
            if (i, j) in skip:
                continue
            x, y = ox + i * sx, oy + j * sy
            a, b, c, e = v(x, y), v(x + sx, y), v(x + sx, y + sy), v(x, y + sy)
            k = diag if diag != 'mix' else ('right' if (i + j) % 2 == 0 else 'left')
            if k == 'right':
                cells += [(a, b, c), (a, e, c)]
            elif k == 'left':
                cells += [(a, b, e), (b, c, e)]
            else:     # crossed: sx, sy even
                m = v(x + sx // 2, y + sy // 2)
                cells += [(a, b, m), (b, c, m), (c, e, m), (e, a, m)]
    return LMesh(2, vs, cells)


def triangle(n, ox=0, oy=0):
    """The triangle (0,0),(n,0),(0,n) cut into unit triangles."""
    vs, idx, cells = [], {}, []

    def v(x, y):
        if (x, y) not in idx:
            idx[(x, y)] = len(vs)
            vs.append((x + ox, y + oy))
        return idx[(x, y)]
    for j in range(n):
        for i in range(n - j):
            cells.append((v(i, j), v(i + 1, j), v(i, j + 1)))
            if i + j < n - 1:
                cells.append((v(i + 1, j), v(i + 1, j + 1), v(i, j + 1)))
    return LMesh(2, vs, cells)


def box(nx, ny, nz, kind='six', ox=0, oy=0, oz=0):
    vs, idx, cells = [], {}, []

    def v(p):
        if p not in idx:
            idx[p] = len(vs)
            vs.append((p[0] + ox, p[1] + oy, p[2] + oz))
        return idx[p]
    import itertools
    for i, j, k in itertools.product(range(nx), range(ny), range(nz)):
        if kind == 'six':
            for perm in itertools.permutations(range(3)):
                p = [i, j, k]
                t = [v(tuple(p))]
                for a in perm:
                    p[a] += 1
                    t.append(v(tuple(p)))
                cells.append(tuple(t))
        else:           # five tetrahedra, alternating so that faces match
            def q(a, b, c):
                if (i + j + k) % 2:
                    a = 1 - a
                return v((i + a, j + b, k + c))
            for t in (((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)), ((1, 1, 0), (1, 0, 0), (0, 1, 0), (1, 1, 1)),
                      ((1, 0, 1), (1, 0, 0), (0, 0, 1), (1, 1, 1)), ((0, 1, 1), (0, 1, 0), (0, 0, 1), (1, 1, 1)),
                      ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1))):
                cells.append(tuple(q(*p) for p in t))
    return LMesh(3, vs, cells)


def pick_mesh(dim, R, small=False):
    if dim == 1:
        n = R.choice([1, 2, 3, 4, 5])
        xs = [R.randint(-3, 2)]
        for _ in range(n):
            xs.append(xs[-1] + R.choice([1, 1, 2, 3]))
        return interval(xs)
    if dim == 2:
        k = R.choice(['rect', 'rect', 'crossed', 'tri', 'ell'])
        ox, oy = R.randint(-2, 1), R.randint(-2, 1)
        if k == 'rect':
            return rect(R.randint(1, 3), R.randint(1, 3), R.choice(['right', 'left', 'mix']), ox=ox, oy=oy)
        if k == 'crossed':
            return rect(R.randint(1, 2), R.randint(1, 2), 'crossed', 2, 2, ox=ox, oy=oy)
        if k == 'tri':
            return triangle(R.randint(1, 3), ox, oy)
        return rect(3, 3, R.choice(['right', 'left']), ox=ox, oy=oy, skip=[(2, 2), (1, 2)])
    k = R.choice(['six', 'five'])
    return box(R.randint(1, 2), R.randint(1, 2), R.choice([1, 1, 2]), k, R.randint(-1, 1), R.randint(-1, 1), R.randint(-1, 1))


# -------------------------------------------------------------------- filter
def dot(a, b):
    return sum(p * q for p, q in zip(a, b))


def walk(M, kindof, cell, x, w, maxcross=12, leave=False, g=1):
    """One exact move of x (units 1/U) by w from cell.  kindof(facet): None, 'absorb', 'reflect',
    'pass'.  Returns (alive, cell, x, w, crossings) or None when the move is degenerate.
    leave: a move through an exterior facet that nothing treats is returned, not degenerate."""
    P = tuple(a + g * b for a, b in zip(x, w))
    V, W = tuple(g * b for b in w), tuple(w)
    tp = Fr(0)
    n = 0
    while True:
        best = None
        for (f, nn, off) in M.cf[cell]:
            s = dot(nn, P) - off * U
            if s == 0:
                return None
            if s > 0:
                nv = dot(nn, V)
                if nv <= 0:
                    return None
                t = 1 - Fr(s, nv)
                if t <= tp:
                    return None
                if best is None or t < best[0]:
                    best, tie = (t, f, nn, off), False
                elif t == best[0]:
                    tie = True
        if best is None:
            return (True, cell, P, W, n)
        if tie:
            return None
        # the crossing point must be inside the facet, away from the other facets of the cell
        t, f, nn, off = best
        for (f2, n2, o2) in M.cf[cell]:
            if f2 != f:
                v = dot(n2, P) + (t - 1) * dot(n2, V) - o2 * U
                if v == 0:
                    return None
        n += 1
        if n > maxcross:
            return None
        k = kindof(f)
        if k == 'absorb':
            return (False, -1, P, W, n)
        if k == 'reflect':
            N2 = dot(nn, nn)
            s = dot(nn, P) - off * U
            if (2 * s) % N2 or (2 * dot(nn, V)) % N2 or (2 * dot(nn, W)) % N2:
                return None
            P = tuple(p - 2 * s // N2 * a for p, a in zip(P, nn))
            v2, w2 = 2 * dot(nn, V) // N2, 2 * dot(nn, W) // N2
            V = tuple(p - v2 * a for p, a in zip(V, nn))
            W = tuple(p - w2 * a for p, a in zip(W, nn))
        nb = M.neighbor(cell, f)
        if nb == -1:
            if k != 'reflect':
                return (False, -2, P, W, n) if leave else None
        else:
            if k == 'reflect':
                return None
            cell = nb
        tp = t
