------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* Simplex meshes with integer vertices.  A mesh is a record               *)
(*   dim, verts (sequence of integer points), cells (sequence of vertex    *)
(*   index tuples), facets (sequence of vertex index tuples)               *)
(* Indices stored in tuples are 0-based, as the code numbers them.         *)
(* Positions of particles are integers in units of 1/U of the vertex unit. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT U

Dot(a, b) == CASE Len(a) = 1 -> a[1] * b[1]
               [] Len(a) = 2 -> a[1] * b[1] + a[2] * b[2]
               [] OTHER      -> a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
VAdd(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
VSub(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
VScale(k, a) == [i \in 1..Len(a) |-> k * a[i]]
SetOf(t) == {t[i] : i \in 1..Len(t)}
AbsG(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN AbsG(a) ELSE Gcd(b, a % AbsG(b))
GcdSeq(s) == CASE Len(s) = 1 -> AbsG(s[1])
               [] Len(s) = 2 -> Gcd(s[1], s[2])
               [] OTHER      -> Gcd(s[1], Gcd(s[2], s[3]))

(* Any vector normal to the plane through the points fv                    *)
Cross(p, q) == <<p[2] * q[3] - p[3] * q[2], p[3] * q[1] - p[1] * q[3], p[1] * q[2] - p[2] * q[1]>>
AnyNormal(fv) == CASE Len(fv) = 1 -> <<1>>
                   [] Len(fv) = 2 -> <<fv[2][2] - fv[1][2], fv[1][1] - fv[2][1]>>
                   [] OTHER       -> Cross(VSub(fv[2], fv[1]), VSub(fv[3], fv[1]))
(* The primitive integer normal that points away from opp                  *)
OutwardNormal(fv, opp) ==
    LET n0 == AnyNormal(fv)
        g  == GcdSeq(n0)
        n  == [i \in 1..Len(n0) |-> n0[i] \div g]
    IN IF Dot(n, VSub(fv[1], opp)) > 0 THEN n ELSE VScale(-1, n)

(* The tuple c without its k-th entry                                      *)
Without(c, k) == SubSeq(c, 1, k - 1) \o SubSeq(c, k + 1, Len(c))

(* Geometry of every cell: for each of its facets the mesh facet index,    *)
(* outward normal n and offset c (n.x <= c inside), and the neighbor cell  *)
(* (-1: none).                                                             *)
Geo(m) ==
  LET fs    == [i \in 1..Len(m.facets) |-> SetOf(m.facets[i])]
      FIdx(s) == CHOOSE i \in 1..Len(fs) : fs[i] = s
      cellsets == [c \in 1..Len(m.cells) |-> SetOf(m.cells[c])]
      Other(c, s) == {o \in 1..Len(m.cells) : o # c /\ s \subseteq cellsets[o]}
      Facet(c, k) ==
        LET fvi == Without(m.cells[c], k)
            s   == SetOf(fvi)
            fv  == [i \in 1..Len(fvi) |-> m.verts[fvi[i] + 1]]
            n   == OutwardNormal(fv, m.verts[m.cells[c][k] + 1])
            o   == Other(c, s)
        IN [f |-> FIdx(s) - 1, n |-> n, c |-> U * Dot(n, fv[1]),
            nb |-> IF o = {} THEN -1 ELSE (CHOOSE x \in o : TRUE) - 1]
  IN [c \in 1..Len(m.cells) |-> [k \in 1..(m.dim + 1) |-> Facet(c, k)]]

(* geo is a value Geo(m); c a 0-based cell index; x a position             *)
Inside(geo, c, x)  == c \in 0..(Len(geo) - 1) /\ \A k \in DOMAIN geo[c + 1] : Dot(geo[c + 1][k].n, x) <= geo[c + 1][k].c
StrictlyInside(geo, c, x) == \A k \in DOMAIN geo[c + 1] : Dot(geo[c + 1][k].n, x) < geo[c + 1][k].c

(* Signed volume times dim! of cell c, in vertex units                     *)
Vol(m, c) == LET p == [i \in 1..(m.dim + 1) |-> m.verts[m.cells[c][i] + 1]]
             IN CASE m.dim = 1 -> AbsG(p[2][1] - p[1][1])
                  [] m.dim = 2 -> LET a == VSub(p[2], p[1]) b == VSub(p[3], p[1])
                                  IN AbsG(a[1] * b[2] - a[2] * b[1])
                  [] OTHER -> AbsG(Dot(VSub(p[4], p[1]), Cross(VSub(p[2], p[1]), VSub(p[3], p[1]))))
=============================================================================
