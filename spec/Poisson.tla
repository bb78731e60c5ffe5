------------------------------- MODULE Poisson -------------------------------
(***************************************************************************)
(* The finite-element equations of -Laplace(phi) = rho on a simplex mesh    *)
(* with integer vertices, Cartesian or spherically symmetric (4 pi taken    *)
(* out): rational coefficients computed from the vertices.                  *)
(***************************************************************************)
EXTENDS MeshState

(* v*a/b, b > 0, rounded down, without large intermediate products          *)
MulDiv(v, a, b) == (v \div b) * a + ((v % b) * a) \div b
Fact == CASE m.dim = 1 -> 1 [] m.dim = 2 -> 2 [] OTHER -> 6

(* shape function k of cell c decreases towards its facet: gradient -n/D   *)
N(c, k) == geo[c][k].n
D(c, k) == (geo[c][k].c \div U) - Dot(N(c, k), m.verts[m.cells[c][k] + 1])

Lo(c) == m.verts[m.cells[c][1] + 1][1]
Hi(c) == m.verts[m.cells[c][2] + 1][1]
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b

(* coefficient of the equation of vertex number k of cell c for vertex j   *)
ANum(c, k, j) == IF m.sph = 1
                 THEN LET a == Mn(Lo(c), Hi(c)) b == Mx(Lo(c), Hi(c)) IN (IF k = j THEN 1 ELSE -1) * (Pow(b, 3) - Pow(a, 3))
                 ELSE Vol(m, c) * Dot(N(c, k), N(c, j))
ADen(c, k, j) == IF m.sph = 1 THEN 3 * (Hi(c) - Lo(c)) * (Hi(c) - Lo(c)) ELSE Fact * D(c, k) * D(c, j)

(* what the source density s[1] + s[2] x + ... contributes to vertex number  *)
(* k of cell c, as numerator and denominator                                *)
Dens(s, v) == s[1] + SumOver(m.dim, LAMBDA d : s[d + 1] * m.verts[v + 1][d])
BNum(s, c, k) ==
    IF m.sph = 1
    THEN LET a == Mn(Lo(c), Hi(c))
             b == Mx(Lo(c), Hi(c))
             P(n) == Pow(b, n) - Pow(a, n)
             here == m.verts[m.cells[c][k] + 1][1]
         IN IF here = a THEN s[1] * (20 * b * P(3) - 15 * P(4)) + s[2] * (15 * b * P(4) - 12 * P(5))
                        ELSE s[1] * (15 * P(4) - 20 * a * P(3)) + s[2] * (12 * P(5) - 15 * a * P(4))
    ELSE LET f(n) == Dens(s, m.cells[c][n])
         IN (SumOver(m.dim + 1, f) + f(k)) * Vol(m, c)
BDen(s, c, k) == IF m.sph = 1 THEN 60 * AbsG(Hi(c) - Lo(c)) ELSE Fact * (m.dim + 1) * (m.dim + 2)

At(v) == {<<c, k>> \in (1..NC) \X (1..(m.dim + 1)) : m.cells[c][k] = v}
SumSet(S, f(_)) == LET RECURSIVE G(_) G(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE y \in T : TRUE IN f(x) + G(T \ {x}) IN G(S)

(* left side of the equation of vertex v; source term; both per unit of phi *)
(* or, with unit PS, of 1/PS, each term rounded down                       *)
Lhs(phi, v) == SumSet(At(v), LAMBDA p : SumOver(m.dim + 1, LAMBDA j :
                 MulDiv(phi[m.cells[p[1]][j] + 1], ANum(p[1], p[2], j), ADen(p[1], p[2], j))))
Source(PS, s, v) == SumSet(At(v), LAMBDA p : MulDiv(BNum(s, p[1], p[2]), PS, BDen(s, p[1], p[2])))
(* gradient of phi in cell c (1-based), component d; the field is called neg_E *)
Grad(phi, c, d) == SumOver(m.dim + 1, LAMBDA k : MulDiv(phi[m.cells[c][k] + 1], -N(c, k)[d], D(c, k)))
=============================================================================
