-------------------------------- MODULE PICMC --------------------------------
(***************************************************************************)
(* Design model of the self-consistent cycle (PIC): two particles between   *)
(* grounded walls, the field exact on a uniform 1D mesh.  All starts and    *)
(* charges are enumerated and the cycle run Steps times, for the system     *)
(* and for variants of it:                                                 *)
(*   - mirrored: stays the mirror image of the original;                   *)
(*   - all charges reversed: the field reverses, the motion is the same;   *)
(*   - a neutral particle added: nothing changes for the others.           *)
(* In every state the density adds up to the weight, the potential solves  *)
(* the equation, and the field jumps by the charge at each vertex (Gauss). *)
(***************************************************************************)
EXTENDS PIC

CONSTANTS NCells, WMax, Steps

VARIABLES sys,       \* the variants: records [parts, qm, q, phi, E]
          sides, n, stop
vars == <<m, geo, sys, sides, n, stop>>

Box == [dim |-> 1, sph |-> 0, verts |-> [v \in 1..(NCells + 1) |-> <<v - 1>>], cells |-> [c \in 1..NCells |-> <<c - 1, c>>], facets |-> [v \in 1..(NCells + 1) |-> <<v - 1>>]]
L == NCells * U

(* charge per vertex, 1/U per unit of charge                                *)
Charge(s) == [v \in 1..(NCells + 1) |-> SumOver(Len(s.parts), LAMBDA j : s.qm[j] * Deposit(U, <<<<s.parts[j][4], s.parts[j][2], s.parts[j][5]>>>>, v - 1))]
(* potential by the Green's function, in units of 1/(NCells U)              *)
G(a, b) == (IF a < b THEN a ELSE b) * (NCells - (IF a < b THEN b ELSE a))
Potential(q) == [v \in 1..(NCells + 1) |-> SumOver(NCells + 1, LAMBDA k : G(v - 1, k - 1) * q[k])]
Solved(s) == LET q == Charge(s) p == Potential(q) IN
             [s EXCEPT !.q = q, !.phi = p, !.E = [c \in 1..NCells |-> <<Grad(p, c, 1)>>]]

Where(x) == CHOOSE c \in 0..(NCells - 1) : Inside(geo, c, x)
Start(x1, w1, x2, w2, q1, q2) == Solved([parts |-> <<<<1, <<x1>>, <<w1>>, Where(<<x1>>), 1, 0>>, <<2, <<x2>>, <<w2>>, Where(<<x2>>), 2, 0>>>>,
                                         qm |-> <<q1, q2>>, q |-> <<>>, phi |-> <<>>, E |-> <<>>])
MirrorOf(s) == Solved([s EXCEPT !.parts = [j \in 1..Len(@) |-> [@[j] EXCEPT ![2] = <<L - @[1]>>, ![3] = <<-@[1]>>, ![4] = NCells - 1 - @]]])
Conj(s)   == Solved([s EXCEPT !.qm = [j \in 1..Len(@) |-> -@[j]]])
Extra(s)  == Solved([s EXCEPT !.parts = Append(@, <<3, <<U + 1>>, <<1>>, Where(<<U + 1>>), 1, 0>>), !.qm = Append(@, 0)])

(* The time step is such that a field of 1 in the units used adds 1/U per   *)
(* step to the velocity of a particle with qm = 1.                          *)
Push(s, p, qm, kinds) == Moved(p[2], VAdd(p[3], VScale(-qm, s.E[p[4] + 1])), <<<<0, L>>>>, kinds, 0)
Pushed(s, kinds) == [j \in 1..Len(s.parts) |-> Push(s, s.parts[j], s.qm[j], kinds)]
OnVertex(r) == r.st = "in" /\ r.x[1] % U = 0
Degenerate(s, kinds) == \E j \in 1..Len(s.parts) : LET r == Pushed(s, kinds)[j] IN r.st = "near" \/ OnVertex(r)
Kept(l, keep) == LET RECURSIVE F(_) F(j) == IF j = 0 THEN <<>> ELSE IF keep[j] THEN Append(F(j - 1), l[j]) ELSE F(j - 1) IN F(Len(l))
Cycle(s, kinds) ==
    LET r == Pushed(s, kinds)
        stay == [j \in 1..Len(r) |-> r[j].st = "in"]
    IN Solved([s EXCEPT !.parts = Kept([j \in 1..Len(r) |-> [s.parts[j] EXCEPT ![2] = r[j].x, ![3] = r[j].w, ![4] = IF stay[j] THEN Where(r[j].x) ELSE -1]], stay),
                        !.qm = Kept(s.qm, stay)])
Swap(k) == <<k[2], k[1]>>
KindsOf(v) == IF v = 2 THEN Swap(sides) ELSE sides

Init == /\ m = Box /\ geo = Geo(m) /\ n = 0 /\ stop = FALSE
        /\ sides \in [1..2 -> {"absorb", "reflect"}]
        /\ \E x1, x2 \in {x \in 1..(L - 1) : x % U # 0}, w1, w2 \in (-WMax)..WMax, q1 \in {1}, q2 \in {-1, 1, 2} :
             LET s == Start(x1, w1, x2, w2, q1, q2) IN sys = <<s, MirrorOf(s), Conj(s), Extra(s)>>
Next == /\ n < Steps /\ ~stop
        /\ n' = n + 1
        /\ stop' = \E v \in 1..4 : Degenerate(sys[v], KindsOf(v))
        /\ sys' = IF stop' THEN sys ELSE [v \in 1..4 |-> Cycle(sys[v], KindsOf(v))]
        /\ UNCHANGED <<m, geo, sides>>
Spec == Init /\ [][Next]_vars

S == sys[1]
Without3(s) == SelectSeq(s.parts, LAMBDA p : p[1] # 3)
Mirrored  == sys[2] = MirrorOf(S)
Reversed  == sys[3].parts = S.parts /\ sys[3].phi = [v \in 1..NV |-> -S.phi[v]]
Neutral   == Without3(sys[4]) = S.parts /\ sys[4].phi = S.phi /\ sys[4].E = S.E
Labelled  == \A v \in 1..4 : \A j \in 1..Len(sys[v].parts) : Inside(geo, sys[v].parts[j][4], sys[v].parts[j][2])
Sums      == SumOver(NV, LAMBDA v : S.q[v]) = U * SumOver(Len(S.parts), LAMBDA j : S.qm[j] * S.parts[j][5])
Equation  == \A v \in 1..(NCells - 1) : Lhs(S.phi, v) = NCells * S.q[v + 1]
Gauss     == \A c \in 1..(NCells - 1) : S.E[c][1] - S.E[c + 1][1] = NCells * S.q[c + 1]
Grounded  == S.phi[1] = 0 /\ S.phi[NV] = 0 /\ SumOver(NCells, LAMBDA c : S.E[c][1]) = 0
=============================================================================
