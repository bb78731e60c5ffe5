------------------------------ MODULE MeshState ------------------------------
(***************************************************************************)
(* What a mesh is asked: which cell holds a point, which facet a move      *)
(* meets first, which cells a box selects, the shape functions of a cell   *)
(* and what particles add to a field through them.  The mesh m and its     *)
(* geometry geo = Geo(m) are state.  Used by the design model MeshMC and   *)
(* by the trace specifications MeshTrace, FieldTrace, SolveTrace.          *)
(***************************************************************************)
EXTENDS Geometry

VARIABLES m, geo

NC == Len(m.cells)
NV == Len(m.verts)

SumOver(n, f(_)) == LET RECURSIVE G(_) G(j) == IF j = 0 THEN 0 ELSE f(j) + G(j - 1) IN G(n)

(* The code numbers the facets of a cell as DOLFIN does: facet k lies       *)
(* opposite vertex k, except that in 1D facet k is vertex k.               *)
K(k) == IF m.dim = 1 THEN 3 - k ELSE k
FK(c, k) == geo[c + 1][K(k)]

(* Volume of a cell: dim! times it, or in spherical geometry 3/(4 pi) of it *)
Cube(a) == a * a * a
CellVol(c) == IF m.sph = 1
              THEN AbsG(Cube(m.verts[m.cells[c][2] + 1][1]) - Cube(m.verts[m.cells[c][1] + 1][1]))
              ELSE Vol(m, c)

(* the cells that hold point x (several when it lies on a facet)           *)
Holders(x) == {c \in 0..(NC - 1) : Inside(geo, c, x)}

(* ------------------------------------------------------ facet found ----- *)
(* The path x + t w, 0 <= t <= 1, starts in the closed cell c.  Facet k is  *)
(* met at t = ToGo/Rate.                                                   *)
ToGo(c, k, x) == FK(c, k).c - Dot(FK(c, k).n, x)
Rate(c, k, w) == Dot(FK(c, k).n, w)
MetAt(c, x, w) == {k \in 1..(m.dim + 1) : Rate(c, k, w) > 0 /\ ToGo(c, k, x) <= Rate(c, k, w)}
PassedAt(c, x, w) == {k \in MetAt(c, x, w) : ToGo(c, k, x) < Rate(c, k, w)}
FirstMet(c, x, w) == {k \in MetAt(c, x, w) : \A j \in MetAt(c, x, w) : ToGo(c, k, x) * Rate(c, j, w) <= ToGo(c, j, x) * Rate(c, k, w)}

(* ---------------------------------------------------------- regions ----- *)
Mid(c) == [d \in 1..m.dim |-> SumOver(m.dim + 1, LAMBDA k : m.verts[m.cells[c + 1][k] + 1][d])]       \* (dim+1) times the midpoint
InBox(lo, hi, c) == LET mid == Mid(c) IN
                    \A d \in 1..m.dim : /\ (m.dim + 1) * lo[d] <= U * mid[d]
                                        /\ U * mid[d] <= (m.dim + 1) * hi[d]

(* -------------------------------------------------- shape functions ----- *)
(* Value at x of the shape function of vertex number k of cell c (1-based    *)
(* here), as a rational: the distance to the opposite facet over that of    *)
(* the vertex                                                              *)
ShNum(c, k, x) == geo[c + 1][k].c - Dot(geo[c + 1][k].n, x)
ShDen(c, k)    == geo[c + 1][k].c - U * Dot(geo[c + 1][k].n, m.verts[m.cells[c + 1][k] + 1])
VNum(c, v)     == CHOOSE k \in 1..(m.dim + 1) : m.cells[c + 1][k] = v

(* What particles <<cell, position, weight>> add at vertex v, in units of    *)
(* 1/FS, each share rounded down (exact when FS is a multiple of all ShDen) *)
Share(FS, c, k, x, w) == (FS * w * ShNum(c, k, x)) \div ShDen(c, k)
Deposit(FS, parts, v) ==
    SumOver(Len(parts), LAMBDA j : LET p == parts[j] IN
        IF v \in SetOf(m.cells[p[1] + 1]) THEN Share(FS, p[1], VNum(p[1], v), p[2], p[3]) ELSE 0)
Weight(parts, c) == SumOver(Len(parts), LAMBDA j : IF parts[j][1] = c THEN parts[j][3] ELSE 0)
TotalW(parts) == SumOver(Len(parts), LAMBDA j : parts[j][3])

(* Value at x in cell c of the piecewise-linear function with the values     *)
(* f[v + 1] at the vertices                                                *)
AtLinear(f, c, x) ==
    SumOver(m.dim + 1, LAMBDA n :
       LET val == f[m.cells[c + 1][n] + 1]
           den == ShDen(c, n)
       IN (val \div den) * ShNum(c, n, x) + ((val % den) * ShNum(c, n, x)) \div den)
=============================================================================
