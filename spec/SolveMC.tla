------------------------------- MODULE SolveMC -------------------------------
(***************************************************************************)
(* What the equations of Poisson have to achieve, on small meshes of a box  *)
(* and for every potential with small integer values at the vertices:       *)
(*  - the matrix is symmetric and its rows add up to zero (the charge seen  *)
(*    is conserved);                                                       *)
(*  - the energy is not negative, and zero only for a constant potential:   *)
(*    with a value given somewhere, the solution is unique;                *)
(*  - a potential linear in the coordinates satisfies the equations of all  *)
(*    vertices off the boundary without charge, and its gradient is exact;  *)
(*  - the source terms add up to the integral of the source density;        *)
(*  - in 1D the potential of a point charge is exact at the vertices.       *)
(***************************************************************************)
EXTENDS Poisson, SmallMeshes

CONSTANTS Meshes, SphMeshes, VMax, CMax
VARIABLES ph, phi, s, unit         \* unit: common denominator of all coefficients
vars == <<m, geo, ph, phi, s, unit>>

Lcm(a, b) == (a \div Gcd(a, b)) * b
RECURSIVE LcmSet(_)
LcmSet(S) == IF S = {} THEN 1 ELSE LET y == CHOOSE z \in S : TRUE IN Lcm(y, LcmSet(S \ {y}))
CommonDen == LcmSet({ADen(c, k, j) : c \in 1..NC, k \in 1..(m.dim + 1), j \in 1..(m.dim + 1)}
               \cup {BDen(<<>>, c, 1) : c \in 1..NC} \cup {D(c, k) : c \in 1..NC, k \in 1..(m.dim + 1)})
Init == /\ \/ m \in {WithFacets(Mesh(i)) : i \in Meshes}
           \/ m \in {[WithFacets(Mesh(i)) EXCEPT !.sph = 1] : i \in SphMeshes}
        /\ geo = Geo(m) /\ unit = CommonDen /\ ph = "mesh" /\ phi = <<>> /\ s = <<>>
Pot == ph = "mesh" /\ ph' = "potential" /\ phi' \in [1..NV -> (-VMax)..VMax] /\ UNCHANGED <<m, geo, s, unit>>
Lin == ph = "mesh" /\ ph' = "linear" /\ s' \in [1..(m.dim + 1) -> (-CMax)..CMax] /\ UNCHANGED <<m, geo, phi, unit>>
Next == Pot \/ Lin
Spec == Init /\ [][Next]_vars

One(v) == [u \in 1..NV |-> IF u = v + 1 THEN unit ELSE 0]
A(v, u) == Lhs(One(u), v)                   \* matrix entry, in 1/unit
Const == \A u \in 1..NV : phi[u] = phi[1]
OnBoundary(v) == \E c \in 1..NC : \E k \in 1..(m.dim + 1) : geo[c][k].nb = -1 /\ v \in SetOf(m.facets[geo[c][k].f + 1])
MeshOK == /\ \A v, u \in 0..(NV - 1) : A(v, u) = A(u, v)
          /\ \A v \in 0..(NV - 1) : SumOver(NV, LAMBDA u : A(v, u - 1)) = 0 /\ A(v, v) > 0
Scaled(f) == [u \in 1..NV |-> unit * f[u]]
PotOK == LET L == Scaled(phi)
             energy == SumOver(NV, LAMBDA v : phi[v] * Lhs(L, v - 1))
         IN /\ energy >= 0
            /\ (energy = 0) = Const
            /\ SumOver(NV, LAMBDA v : Lhs(L, v - 1)) = 0
            (* adding a constant changes neither the equations nor the field *)
            /\ \A v \in 0..(NV - 1) : Lhs([u \in 1..NV |-> L[u] + unit], v) = Lhs(L, v)
(* s as a potential, and as a source density                               *)
Size == CASE m.dim = 1 -> m.hi[1] [] m.dim = 2 -> m.hi[1] * m.hi[2] [] OTHER -> m.hi[1] * m.hi[2] * m.hi[3]
LinOK == LET L == Scaled([u \in 1..NV |-> Dens(s, u - 1)]) IN
         /\ m.sph = 0 => \A v \in 0..(NV - 1) : OnBoundary(v) \/ Lhs(L, v) = 0
         /\ \A c \in 1..NC : \A d \in 1..m.dim : Grad(L, c, d) = unit * s[d + 1]
         /\ LET tot == SumOver(NV, LAMBDA v : Source(unit, s, v - 1)) IN
            IF m.sph = 1 THEN 12 * tot = unit * (4 * s[1] * Pow(m.hi[1], 3) + 3 * s[2] * Pow(m.hi[1], 4))
            ELSE 2 * tot = unit * Size * (2 * s[1] + SumOver(m.dim, LAMBDA d : s[d + 1] * m.hi[d]))
GreenOK == (m.dim = 1 /\ m.sph = 0) =>
    \A q \in 0..(NV - 1) :
       LET y == m.verts[q + 1][1] h == m.hi[1]
           g == Scaled([u \in 1..NV |-> LET z == m.verts[u][1] IN IF z <= y THEN z * (h - y) ELSE y * (h - z)])
       IN \A v \in 0..(NV - 1) : OnBoundary(v) \/ Lhs(g, v) = (IF v = q THEN unit * h ELSE 0)
Judge == CASE ph = "mesh" -> MeshOK /\ GreenOK [] ph = "potential" -> PotOK [] OTHER -> LinOK
Holds == Judge \/ (PrintT(<<ph, m.cells, m.sph, phi, s>>) /\ FALSE)
=============================================================================
