------------------------------- MODULE MeshMC -------------------------------
(***************************************************************************)
(* What the definitions of MeshState have to achieve, on small meshes of a  *)
(* box, for every lattice point and every move of a grid:                  *)
(*  - the cells tile the box: a point of it lies in some cell, strictly     *)
(*    inside at most one, outside the box in none; volumes add up;         *)
(*  - neighbours are mutual, the rest of the facets are the sides of the box;*)
(*  - the shape functions of a cell are not negative inside it, add up to   *)
(*    one, and reproduce the position; on a facet they do not depend on the *)
(*    cell they are taken from;                                            *)
(*  - a move leaves a cell exactly once: at a point of the facet found, with*)
(*    everything before it inside the cell, the point belonging to the      *)
(*    neighbour, or to the side of the box;                                *)
(*  - a box cut in two selects each cell exactly once;                     *)
(*  - what particles add to a field sums to their weight, does not depend on*)
(*    their order, and pairs with interpolation (summation by parts).      *)
(***************************************************************************)
EXTENDS MeshState, SmallMeshes

CONSTANTS Meshes, WMax, WStep, Slack, NParts
VARIABLES ph, c, x, w, parts
vars == <<m, geo, ph, c, x, w, parts>>

Vecs(d, S) == [1..d -> S]
Hi(a) == m.hi[a] * U
D == m.dim
Moves == Vecs(D, {k \in (-WMax)..WMax : k % WStep = 0})
Points == {v \in Vecs(D, (-Slack)..(4 * U + Slack)) : \A a \in 1..D : v[a] <= Hi(a) + Slack}
InTheBox(v) == \A a \in 1..D : 0 <= v[a] /\ v[a] <= Hi(a)

Init == /\ m \in {WithFacets(Mesh(i)) : i \in Meshes} /\ geo = Geo(m)
        /\ ph = "mesh" /\ c = -1 /\ x = <<>> /\ w = <<>> /\ parts = <<>>
Locate == ph = "mesh" /\ ph' = "point" /\ x' \in Points /\ UNCHANGED <<m, geo, c, w, parts>>
Move == ph = "point" /\ ph' = "move" /\ c' \in Holders(x) /\ w' \in Moves /\ UNCHANGED <<m, geo, x, parts>>
(* cut a box [x, x + |w|] at a plane c *)
Cut == ph = "point" /\ ph' = "cut" /\ (\A a \in 1..D : x[a] % 2 = 0) /\ w' \in {v \in Vecs(D, {2, U, 2 * U + 1}) : TRUE} /\ c' \in 1..D
       /\ UNCHANGED <<m, geo, x, parts>>
Add == /\ ph \in {"mesh", "parts"} /\ Len(parts) < NParts /\ ph' = "parts"
       /\ \E q \in 0..(NC - 1) : \E v \in Points :
            /\ \A a \in 1..D : v[a] % (U \div 4) = 1 % (U \div 4)
            /\ Inside(geo, q, v)
            /\ \E wt \in {1, 3} : parts' = Append(parts, <<q, v, wt>>)
       /\ UNCHANGED <<m, geo, c, x, w>>
Next == Locate \/ Move \/ Cut \/ Add
Spec == Init /\ [][Next]_vars

Fact(d) == CASE d = 1 -> 1 [] d = 2 -> 2 [] OTHER -> 6
BoxVol == CASE D = 1 -> m.hi[1] [] D = 2 -> m.hi[1] * m.hi[2] [] OTHER -> m.hi[1] * m.hi[2] * m.hi[3]

(* ------------------------------------------------------------ the mesh -- *)
Volumes == SumOver(NC, LAMBDA q : Vol(m, q)) = Fact(D) * BoxVol
Mutual == \A q \in 1..NC : \A k \in 1..(D + 1) :
             LET f == geo[q][k] IN
             IF f.nb = -1 THEN SideOf(m, f.f + 1) # 0
             ELSE /\ SideOf(m, f.f + 1) = 0
                  /\ Cardinality({j \in 1..(D + 1) : geo[f.nb + 1][j].f = f.f}) = 1
                  /\ \E j \in 1..(D + 1) : LET g == geo[f.nb + 1][j] IN g.f = f.f /\ g.nb = q - 1 /\ g.n = VScale(-1, f.n) /\ g.c = -f.c
MeshOK == Volumes /\ Mutual

(* ----------------------------------------------------------- a point ---- *)
Lcm(a, b) == (a \div Gcd(a, b)) * b
DenAll(q) == CASE D = 1 -> Lcm(ShDen(q, 1), ShDen(q, 2))
               [] D = 2 -> Lcm(Lcm(ShDen(q, 1), ShDen(q, 2)), ShDen(q, 3))
               [] OTHER -> Lcm(Lcm(ShDen(q, 1), ShDen(q, 2)), Lcm(ShDen(q, 3), ShDen(q, 4)))
Sh(q, k) == ShNum(q, k, x) * (DenAll(q) \div ShDen(q, k))        \* in units of 1/DenAll(q)
Tiling == LET h == Holders(x) IN
          /\ (h # {}) = InTheBox(x)
          /\ Cardinality({q \in h : StrictlyInside(geo, q, x)}) <= 1
          /\ (\E q \in h : StrictlyInside(geo, q, x)) => Cardinality(h) = 1
Shapes == \A q \in Holders(x) :
             /\ \A k \in 1..(D + 1) : ShDen(q, k) > 0 /\ Sh(q, k) >= 0
             /\ SumOver(D + 1, LAMBDA k : Sh(q, k)) = DenAll(q)
             /\ \A a \in 1..D : SumOver(D + 1, LAMBDA k : Sh(q, k) * m.verts[m.cells[q + 1][k] + 1][a]) * U = x[a] * DenAll(q)
             (* from another cell: the same, and nothing for vertices not shared *)
             /\ \A r \in Holders(x) : \A k \in 1..(D + 1) :
                  LET v == m.cells[q + 1][k] IN
                  IF v \in SetOf(m.cells[r + 1]) THEN Sh(q, k) * DenAll(r) = Sh(r, VNum(r, v)) * DenAll(q) ELSE Sh(q, k) = 0
PointOK == Tiling /\ Shapes

(* ------------------------------------------------------------ a move ---- *)
(* q-th point of the path, times den *)
Reaches(k) == ToGo(c, k, x)
MoveOK ==
    LET met == MetAt(c, x, w) fst == FirstMet(c, x, w) IN
    /\ (PassedAt(c, x, w) # {}) = ~Inside(geo, c, VAdd(x, w))
    /\ (met = {}) = (fst = {})
    /\ \A k \in fst :
         LET t == ToGo(c, k, x) r == Rate(c, k, w)                     \* meets facet k at t/r
             X == [a \in 1..D |-> x[a] * r + t * w[a]]                 \* r times the point
         IN /\ 0 <= t /\ t <= r
            /\ \A j \in 1..(D + 1) : Dot(FK(c, j).n, X) <= FK(c, j).c * r              \* in the closed cell
            /\ Dot(FK(c, k).n, X) = FK(c, k).c * r                                     \* on the facet
            /\ IF FK(c, k).nb = -1
               THEN LET s == SideOf(m, FK(c, k).f + 1) a == (s + 1) \div 2 IN X[a] = IF s % 2 = 1 THEN 0 ELSE Hi(a) * r
               ELSE \A j \in 1..(D + 1) : LET g == geo[FK(c, k).nb + 1][j] IN Dot(g.n, X) <= g.c * r
            (* a facet met first by a path from inside is left for good *)
            /\ \A j \in 1..(D + 1) : (Rate(c, j, w) > 0 /\ ToGo(c, j, x) * r < t * Rate(c, j, w)) => FALSE

(* ----------------------------------------------------------- regions ---- *)
CutOK ==
    LET a == c
        hi == [d \in 1..D |-> x[d] + w[d]]
        mid2 == x[a] + 1                               \* a cut between lattice values of (dim+1) times midpoints
        all == {q \in 0..(NC - 1) : InBox(x, hi, q)}
        left == {q \in 0..(NC - 1) : InBox(x, [hi EXCEPT ![a] = mid2], q)}
        right == {q \in 0..(NC - 1) : InBox([x EXCEPT ![a] = mid2], hi, q)}
    IN /\ all = left \cup right
       /\ \A q \in left \cap right : (D + 1) * mid2 = U * Mid(q)[a]
       /\ \A q \in all : StrictlyInside(geo, q, [d \in 1..D |-> (U * Mid(q)[d]) \div (D + 1)]) \/ (U * Mid(q)[1]) % (D + 1) # 0 \/ D > 1

(* -------------------------------------------------------- deposition ---- *)
RECURSIVE LcmUpTo(_)
LcmUpTo(q) == IF q < 0 THEN 1 ELSE Lcm(DenAll(q), LcmUpTo(q - 1))
Rev(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]
TestF == [v \in 1..NV |-> ((v * v + 3 * v) % 7) - 3]              \* some values at the vertices
DepOK ==
    LET FS == LcmUpTo(NC - 1)
        dep == [v \in 1..NV |-> Deposit(FS, parts, v - 1)]
        rev == [v \in 1..NV |-> Deposit(FS, Rev(parts), v - 1)]
        fF == [v \in 1..NV |-> FS * TestF[v]]
    IN /\ \A v \in 1..NV : dep[v] >= 0
       /\ SumOver(NV, LAMBDA v : dep[v]) = FS * TotalW(parts)
       /\ SumOver(NC, LAMBDA q : Weight(parts, q - 1)) = TotalW(parts)
       /\ dep = rev
       (* sum over vertices of deposit times f = sum over particles of weight times f there *)
       /\ SumOver(NV, LAMBDA v : dep[v] * TestF[v]) = SumOver(Len(parts), LAMBDA j : parts[j][3] * AtLinear(fF, parts[j][1], parts[j][2]))
       (* first moments: the deposit has the particles' centre *)
       /\ \A a \in 1..D : U * SumOver(NV, LAMBDA v : dep[v] * m.verts[v][a]) = FS * SumOver(Len(parts), LAMBDA j : parts[j][3] * parts[j][2][a])
       (* only vertices of cells that hold a particle get anything *)
       /\ \A v \in 1..NV : dep[v] > 0 => \E j \in 1..Len(parts) : (v - 1) \in SetOf(m.cells[parts[j][1] + 1])

Judge == CASE ph = "mesh" -> MeshOK [] ph = "point" -> PointOK [] ph = "move" -> MoveOK [] ph = "cut" -> CutOK [] OTHER -> DepOK
Holds == Judge \/ (PrintT(<<ph, m.cells, c, x, w, parts>>) /\ FALSE)
=============================================================================
