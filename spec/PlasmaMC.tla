------------------------------ MODULE PlasmaMC ------------------------------
(***************************************************************************)
(* Exhaustive exploration of the simulation machine (Plasma) on a small    *)
(* mesh: every order of a bounded number of operations, from every choice  *)
(* of initial particles, boundary functions, trajectory capacity.          *)
(* The invariants are what a user relies on, stated over the whole history *)
(* of the simulation and not over one operation.                           *)
(***************************************************************************)
EXTENDS Plasma

CONSTANTS Depth, Starts, Capacities, Sources

VARIABLES step, n, dead, moved, isopen, old,
          early     \* a record was asked for at a step before an advance of that step
mvars == <<run, geo, bcs, st, tr, last, full, hrows, snaps, lastw, step, n, dead, moved, isopen, old, early>>

Mesh1 == [dim |-> 1, verts |-> <<<<0>>, <<1>>, <<3>>>>, cells |-> <<<<0, 1>>, <<1, 2>>>>, facets |-> <<<<0>>, <<1>>, <<2>>>>]
Species == <<[name |-> "e", qm |-> 1, m2 |-> 2, ch |-> 1], [name |-> "h", qm |-> 0, m2 |-> 4, ch |-> 0]>>
Fns == {[default_bc |-> "absorb"],
        [default_bc |-> "absorb", default_bc_at_lo |-> "reflect"],
        [default_bc |-> "reflect", bc_at_hi_for_h |-> "absorb", default_bc_at_mid |-> "pass"],
        [default_bc |-> "absorb", bc_at_lo_for_e |-> "reflect", bc_at_hi_for_e |-> "reflect", default_bc_at_mid |-> "pass"]}
RunOf(fns, npts) == [sp |-> Species, mark |-> IF "default_bc_at_mid" \in DOMAIN fns THEN <<1, 2, 3>> ELSE <<1, 0, 3>>,
                     tags |-> [lo |-> 1, mid |-> 2, hi |-> 3], fns |-> fns, applies |-> [solved |-> <<1, 1>>, ext |-> <<1, 0>>],
                     flds |-> <<[kind |-> "dg0", v |-> <<<<1>>, <<-2>>>>], [kind |-> "affine", a |-> <<-1>>, b |-> <<<<1>>>>]>>,
                     npts |-> npts, track |-> 1]
P(u, x, w, fl) == <<u, <<x>>, <<w>>, <<0>>, 1, fl, IF x < U THEN 0 ELSE 1, 0>>
Initial(s) == CASE s = 1 -> <<<<P(1, 1, 3, 2)>>, <<P(2, 6, -3, 2)>>>>
                [] s = 2 -> <<<<P(1, 3, -7, 2), P(2, 7, 5, 0), P(3, 9, 1, 2)>>, <<>>>>
                [] s = 3 -> <<<<P(1, 5, 9, 2)>>, <<P(2, 1, -2, 0), P(3, 10, 7, 2), P(4, 5, 0, 2)>>>>
                [] OTHER -> <<<<>>, <<>>>>

Init == /\ run \in {RunOf(f, c) : f \in Fns, c \in Capacities}
        /\ geo = Geo(Mesh1)
        /\ bcs = [k \in 1..2 |-> BCOf(run, Species[k].name)]
        /\ st \in {Initial(s) : s \in Starts}
        /\ tr = [k \in 1..2 |-> NewTr(st[k])]
        /\ last = -1 /\ hrows = <<>> /\ snaps = <<>> /\ lastw = -1
        /\ full = [k \in 1..2 |-> [j \in 1..Len(tr[k]) |-> <<>>]]
        /\ step = 0 /\ n = 0 /\ dead = {} /\ moved = {} /\ isopen = FALSE /\ old = <<>> /\ early = FALSE

Uids == {p[1] : p \in UNION {SetOf(st[k]) : k \in 1..NSp}}
More == n < Depth /\ n' = n + 1
Tick == More /\ step' = step + 1 /\ moved' = {} /\ UNCHANGED <<run, geo, bcs, st, tr, last, full, hrows, snaps, lastw, dead, isopen, old, early>>
Adv == \E mv \in {"charged", "neutral"} : \E f \in {-1, 0, 1} : \E x \in {-1, 0} :
         LET e == [mover |-> mv, f |-> f, x |-> x, accel |-> 0, step |-> step] IN
         /\ More /\ mv \notin moved /\ step > 0          \* each species once a step
         /\ mv = "neutral" => f = -1 /\ x = -1
         /\ st' = AdvSt(e) /\ tr' = AdvTr(e) /\ full' = FullWith(AdvTr(e)) /\ moved' = moved \cup {mv}
         /\ dead' = dead \cup (Uids \ {p[1] : p \in UNION {SetOf(AdvSt(e)[k]) : k \in 1..NSp}})
         /\ UNCHANGED <<run, geo, bcs, last, hrows, snaps, lastw, step, isopen, old>>
         /\ early' = (early \/ last = step)
Rec == \E f \in {-1, 1} :
         LET e == [step |-> step, f |-> f, x |-> -1] IN
         /\ More
         /\ tr' = RecTr(e) /\ full' = FullWith(RecTr(e)) /\ last' = step
         /\ UNCHANGED <<run, geo, bcs, st, hrows, snaps, lastw, step, dead, moved, isopen, old, early>>
Src == /\ More /\ Sources
       /\ LET due == Due([step |-> step, ivals |-> <<2>>]) u == 100 + n
          IN st' = IF due = <<>> THEN st ELSE [st EXCEPT ![1] = Append(@, P(u, 2, 4, 0))]
       /\ tr' = [k \in 1..NSp |-> [j \in 1..Len(tr[k]) |-> [tr[k][j] EXCEPT !.recs = <<>>]]]
       /\ UNCHANGED <<run, geo, bcs, last, full, hrows, snaps, lastw, step, dead, moved, isopen, old, early>>
Hist == /\ More /\ hrows' = Append(hrows, HistRow([step |-> step, tk |-> step]))
        /\ UNCHANGED <<run, geo, bcs, st, tr, last, full, snaps, lastw, step, dead, moved, isopen, old, early>>
Open == /\ More /\ ~isopen /\ isopen' = TRUE /\ snaps' = <<>> /\ lastw' = -1
        /\ UNCHANGED <<run, geo, bcs, st, tr, last, full, hrows, step, dead, moved, old, early>>
Write == /\ More /\ isopen /\ snaps' = SnapsAfter([step |-> step, tk |-> step]) /\ lastw' = step
         /\ isopen' \in {TRUE, FALSE}
         /\ old' = IF isopen' THEN old ELSE Append(old, snaps')
         /\ UNCHANGED <<run, geo, bcs, st, tr, last, full, hrows, step, dead, moved, early>>
Next == Tick \/ Adv \/ Rec \/ Src \/ Hist \/ Open \/ Write
Spec == Init /\ [][Next]_mvars

(* --------------------------------------------------------- invariants --- *)
All == UNION {SetOf(st[k]) : k \in 1..NSp}
Count == LET RECURSIVE F(_) F(k) == IF k = 0 THEN 0 ELSE Len(st[k]) + F(k - 1) IN F(NSp)
(* every particle is stored once; the dead do not come back *)
Once == Cardinality(Uids) = Count /\ Uids \cap dead = {}
(* and is in the cell it is labelled with *)
Placed == \A p \in All : Inside(geo, p[7], p[2])
(* a trajectory follows the particle it was made for while that particle is there *)
Follows == \A k \in 1..NSp : \A j \in 1..Len(tr[k]) : LET t == tr[k][j] IN
             /\ t.cur = IF t.uid \in dead THEN -1 ELSE t.uid
             /\ t.len = Len(full[k][j]) /\ t.len <= run.npts
             /\ \A q \in SetOf(full[k][j]) : q.uid = t.uid
(* time of a record: step - 1 + tn/td *)
Later(a, b) == ((b.s - 1) * b.td + b.tn) * a.td >= ((a.s - 1) * a.td + a.tn) * b.td
InTimeOrder == early \/ \A k \in 1..NSp : \A j \in 1..Len(full[k]) : LET q == full[k][j] IN
                  \A a \in 1..(Len(q) - 1) : q[a].s <= q[a + 1].s /\ Later(q[a], q[a + 1])
(* a trajectory that was not cut short ends at the place where its particle ended *)
Complete == \A k \in 1..NSp : \A j \in 1..Len(tr[k]) : LET t == tr[k][j] q == full[k][j] IN
               (t.uid \in dead /\ t.len < run.npts) => q # <<>> /\ LET z == q[Len(q)] IN
                   \E f \in {0, 3 * U} : (f = 0 /\ z.xn[1] < 0) \/ (f > 0 /\ z.xn[1] > f * z.xd)
OrderlySnaps == \A a \in 1..(Len(snaps) - 1) : snaps[a].tk < snaps[a + 1].tk
RowsKept == Len(hrows) <= n

(* what is recorded or written never changes afterwards *)
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Frozen == [][/\ Prefix(hrows, hrows')
             /\ (isopen => Prefix(snaps, snaps'))
             /\ Prefix(old, old')
             /\ \A k \in 1..NSp : \A j \in 1..Len(full[k]) : Prefix(full[k][j], full'[k][j])]_mvars
(* between advances only sources change the particles, and only by adding *)
OnlyAdds == [][(moved' = moved) => \A k \in 1..NSp : Prefix(st[k], st'[k])]_mvars
(* an advance changes only the species it is for *)
Frame == [][\A k \in 1..NSp : (moved' # moved /\ moved' # {} /\ moved' \ moved # {IF run.sp[k].ch = 1 THEN "charged" ELSE "neutral"}) => st'[k] = st[k]]_mvars
=============================================================================
