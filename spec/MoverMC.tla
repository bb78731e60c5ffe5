------------------------------ MODULE MoverMC ------------------------------
(***************************************************************************)
(* Exhaustive check of the design of one particle step (Mover, Geometry):  *)
(* every start strictly inside a cell of some small meshes, every move of  *)
(* a grid, every choice of what the sides of the domain do.  What the step *)
(* has to achieve is stated independently of how Walk proceeds from facet  *)
(* to facet:                                                               *)
(*  - in a box whose sides reflect, the image of the straight path folded  *)
(*    into the box, whatever the mesh inside the box (Unfolding);          *)
(*  - a side is called as often as the unfolded path passes its images;    *)
(*  - a particle disappears iff its path passes an absorbing side first;   *)
(*  - speed is kept, moves can be reversed, the calls are in time order at *)
(*    points of the side they are for.                                     *)
(***************************************************************************)
EXTENDS Mover, SmallMeshes

CONSTANTS Meshes,      \* which of the meshes of SmallMeshes
          WMax,        \* moves up to WMax/U per component
          WStep

VARIABLES m, geo, sides, c, x, w, sb      \* mesh, its geometry, sides of its facets, cell, start, move, behaviour of the sides
vars == <<m, geo, sides, c, x, w, sb>>

BC == [f \in 1..Len(m.facets) |-> IF sides[f] = 0 THEN <<"none", "">>
                                      ELSE <<sb[sides[f]], "side">>]
D == m.dim
Hi(a) == m.hi[a] * U

Vecs(d, S) == [1..d -> S]
Init == /\ m \in {WithFacets(Mesh(i)) : i \in Meshes}
        /\ geo = Geo(m)
        /\ sides = [f \in 1..Len(m.facets) |-> SideOf(m, f)]
        /\ c \in 0..(Len(m.cells) - 1)
        /\ x \in {v \in Vecs(m.dim, 0..(3 * U)) : StrictlyInside(geo, c, v)}
        /\ w = <<>> /\ sb = <<>>
Next == /\ w = <<>>
        /\ w' \in Vecs(D, {k \in (-WMax)..WMax : k % WStep = 0})
        /\ sb' \in IF D = 3 THEN {[s \in 1..6 |-> "reflect"], [s \in 1..6 |-> IF s \in {1, 4, 6} THEN "absorb" ELSE "reflect"]}
                   ELSE [1..(2 * D) -> {"absorb", "reflect"}]
        /\ UNCHANGED <<m, geo, sides, c, x>>
Spec == Init /\ [][Next]_vars

Reflected == \A s \in DOMAIN sb : sb[s] = "reflect"

(* unfolding: number of images of the side at 0 (even multiples of hi) and at hi (odd) passed by the unfolded path *)
FloorDiv(p, q) == IF p >= 0 THEN p \div q ELSE -((-p + q - 1) \div q)
Passed(a, odd) == LET u == x[a] v == x[a] + w[a] h == Hi(a)
                      In(k) == (u < k * h /\ v > k * h) \/ (u > k * h /\ v < k * h)
                  IN Cardinality({k \in -40..40 : (k % 2 = 1) = odd /\ In(k)})
Fold(a) == LET h == Hi(a) v == (x[a] + w[a]) % (2 * h) IN IF v <= h THEN v ELSE 2 * h - v
Parity(a) == (Passed(a, TRUE) + Passed(a, FALSE)) % 2
AtSide(R, s) == Cardinality({j \in 1..Len(R.calls) : sides[R.calls[j].f + 1] = s})

Ends(R)     == R.status \in {"alive", "absorbed"}
Labelled(R) == R.status = "alive" => Inside(geo, R.cell, R.P)
Speed(R)    == Dot(R.W, R.W) = Dot(w, w)
Unfolding(R) ==
             Reflected => /\ R.status = "alive"
                          /\ \A a \in 1..D : R.P[a] = Fold(a)
                          /\ \A a \in 1..D : R.W[a] = IF Parity(a) = 0 THEN w[a] ELSE -w[a]
                          /\ \A a \in 1..D : AtSide(R, 2 * a - 1) = Passed(a, FALSE) /\ AtSide(R, 2 * a) = Passed(a, TRUE)
Absorbs(R) ==
           R.status = "absorbed" <=> \E a \in 1..D : \/ (sb[2 * a - 1] = "absorb" /\ Passed(a, FALSE) > 0)
                                                      \/ (sb[2 * a] = "absorb" /\ Passed(a, TRUE) > 0)
(* every call but the last is a reflection; times never go back; the point of the call is on its side *)
InOrder(R) == LET Calls == R.calls IN \A j \in 1..Len(Calls) :
             /\ (Calls[j].kind = "absorb" <=> (R.status = "absorbed" /\ j = Len(Calls)))
             /\ Calls[j].tn >= 0 /\ Calls[j].tn <= Calls[j].td
             /\ j > 1 => Calls[j - 1].tn * Calls[j].td <= Calls[j].tn * Calls[j - 1].td
             /\ LET s == sides[Calls[j].f + 1] a == (s + 1) \div 2
                IN Calls[j].x0n[a] = (IF s % 2 = 1 THEN 0 ELSE Hi(a)) * Calls[j].x0d
                   /\ Calls[j].n[a] = (IF s % 2 = 1 THEN -1 ELSE 1)
                   /\ \A b \in 1..D : Calls[j].x0n[b] >= 0 /\ Calls[j].x0n[b] <= Hi(b) * Calls[j].x0d
(* run backwards, the particle returns to where it came from *)
Reversible(R) == Reflected => LET B == Walk(geo, BC, R.cell, R.P, VScale(-1, R.W))
                           IN B.status = "alive" /\ B.P = x /\ B.W = VScale(-1, w) /\ Inside(geo, c, B.P)

(* TRUE, or the name of what does not hold *)
Judge == LET r == Walk(geo, BC, c, x, w) IN
   CASE ~Ends(r) -> "Ends" [] ~Labelled(r) -> "Labelled" [] ~Speed(r) -> "Speed" [] ~Unfolding(r) -> "Unfolding"
     [] ~Absorbs(r) -> "Absorbs" [] ~InOrder(r) -> "InOrder" [] ~Reversible(r) -> "Reversible" [] OTHER -> "ok"
Holds == w = <<>> \/ Judge = "ok" \/ (PrintT(<<Judge, m.cells, c, x, w, sb>>) /\ FALSE)
=============================================================================
