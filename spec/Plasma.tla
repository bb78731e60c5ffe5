------------------------------- MODULE Plasma -------------------------------
(***************************************************************************)
(* A simulation.  Species are sequences of particles; each user-visible    *)
(* operation of the code is a function from the state before it to the     *)
(* state after it:                                                         *)
(*   create    particles from a list, trajectories for the tracked ones    *)
(*   advance   every particle of the advanced species along its exact path *)
(*             (Mover!Walk), boundary functions called at the marked       *)
(*             facets, absorbed particles removed, crossings and ends of   *)
(*             tracked particles recorded                                  *)
(*   record    one point for every tracked particle                        *)
(*   source    particles appended                                          *)
(*   history   a row of totals appended                                    *)
(*   open, write, close   snapshots in the particle file                   *)
(* PlasmaMC explores this machine exhaustively on small meshes; PlasmaTrace*)
(* checks runs of the real code against it; PlasmaGen generates schedules. *)
(*                                                                         *)
(* A particle: <<uid, x, w, x0, weight, flags, cell, crossings>>.          *)
(* x is in lattice units (1/U), w = velocity in these per unit of time,    *)
(* a time step is a small number of units that may differ from step to step*)
(* x0 and other non-lattice positions are scaled by X0S per vertex unit,   *)
(* times and fractions by TS.                                              *)
(***************************************************************************)
EXTENDS Mover

VARIABLES run, geo, bcs, st, tr, last,
          full,     \* everything recorded so far in each trajectory
          hrows,    \* rows recorded in the history
          snaps,    \* snapshots in the open output file
          lastw     \* step of the last snapshot
pvars == <<run, geo, bcs, st, tr, last, full, hrows, snaps, lastw>>

X0S == 4096
TS  == 16384

NSp == Len(run.sp)
MaxOf(a, b) == IF a >= b THEN a ELSE b
MinOf(a, b) == IF a <= b THEN a ELSE b

(* ------------------------------------------------ boundary functions --- *)
(* The name of the function that treats species s at a boundary: the most  *)
(* specific one defined.                                                   *)
FnName(fns, s, b) ==
    CASE ("bc_at_" \o b \o "_for_" \o s) \in DOMAIN fns -> "bc_at_" \o b \o "_for_" \o s
      [] ("default_bc_at_" \o b) \in DOMAIN fns         -> "default_bc_at_" \o b
      [] OTHER                                          -> "default_bc"
(* bc[facet + 1] = <<kind, name>> for species s                            *)
BCOf(r, s) ==
    [f \in 1..Len(r.mark) |->
        IF r.mark[f] = 0 THEN <<"none", "">>
        ELSE LET b == CHOOSE n \in DOMAIN r.tags : r.tags[n] = r.mark[f]
                 g == FnName(r.fns, s, b)
             IN <<r.fns[g], g>>]

(* ------------------------------------------------------------ fields --- *)
EvalF(fld, c, x) ==
    IF fld.kind = "dg0" THEN fld.v[c + 1]
    ELSE [k \in 1..Len(x) |-> fld.a[k] + Dot(fld.b[k], x)]
Zero(x) == [k \in 1..Len(x) |-> 0]
Ap(e) == IF "ap" \in DOMAIN e THEN e.ap ELSE run.applies     \* which fields act on which species
SolvedE(e, k, c, x) == IF e.f >= 0 /\ Ap(e).solved[k] = 1 THEN EvalF(run.flds[e.f + 1], c, x) ELSE Zero(x)
ExtE(e, k, c, x)    == IF e.x >= 0 /\ Ap(e).ext[k] = 1 THEN EvalF(run.flds[e.x + 1], c, x) ELSE Zero(x)

(* ------------------------------------------------------- one particle --- *)
G(e) == IF "g" \in DOMAIN e THEN e.g ELSE 1     \* units of time in the time step
(* Result of advancing particle p of species k by event e                  *)
UStep(e, k, p) ==
    LET w1 == VAdd(p[3], VScale(G(e) * run.sp[k].qm, e.E0)) IN
    [p |-> p, E |-> e.E0, accel |-> FALSE, uni |-> TRUE,
     r |-> [cell |-> p[7], P |-> VAdd(p[2], VScale(G(e), w1)), V |-> VScale(G(e), w1), W |-> w1, tn |-> 0, td |-> 1, n |-> p[8],
            x0n |-> p[2], x0d |-> 1, calls |-> <<>>, refl |-> FALSE, status |-> IF p[6] % 2 = 1 THEN "absorbed" ELSE "alive"]]

Step(e, k, p) ==
    IF e.mover = "uniform" THEN UStep(e, k, p) ELSE
    LET E  == IF e.mover = "neutral" THEN Zero(p[2]) ELSE VAdd(SolvedE(e, k, p[7], p[2]), ExtE(e, k, p[7], p[2]))
        w1 == VAdd(p[3], VScale(G(e) * run.sp[k].qm, E))
        rest == [cell |-> p[7], P |-> p[2], V |-> Zero(p[2]), W |-> w1, tn |-> 0, td |-> 1, n |-> 0,
                 x0n |-> Zero(p[2]), x0d |-> 1, calls |-> <<>>, refl |-> FALSE, status |-> "alive"]
    IN [p |-> p, E |-> E, accel |-> e.accel = 1, uni |-> FALSE,
        r |-> IF e.accel = 1 THEN rest ELSE WalkFor(geo, bcs[k], p[7], p[2], w1, G(e))]

(* ------------------------------------------------------ the advance ----- *)
Moved(e, k) == IF e.mover = "neutral" THEN run.sp[k].ch = 0 ELSE run.sp[k].ch = 1

UidPos(seq, u) == {j \in 1..Len(seq) : seq[j][1] = u}

(* the particle after the step *)
After(s) ==
    IF s.accel THEN [s.p EXCEPT ![3] = s.r.W, ![8] = 0]
    ELSE IF s.uni THEN [s.p EXCEPT ![2] = s.r.P, ![3] = s.r.W]
    ELSE <<s.p[1], s.r.P, s.r.W, [j \in 1..Len(s.r.P) |-> (s.r.x0n[j] * X0S) \div (s.r.x0d * U)], s.p[5], s.p[6], s.r.cell, s.r.n>>
Steps(e, k) == [j \in 1..Len(st[k]) |-> Step(e, k, st[k][j])]
Survivors(S) == LET alive == SelectSeq(S, LAMBDA s : s.r.status = "alive") IN [j \in 1..Len(alive) |-> After(alive[j])]
AdvSt(e) == [k \in 1..NSp |-> IF Moved(e, k) THEN Survivors(Steps(e, k)) ELSE st[k]]

(* ------------------------------------------------------- trajectories --- *)
(* Records the advance adds to the trajectory of the particle of s         *)
AdvRecs(e, k, s) ==
    LET crossing(c) == [s |-> e.step, tn |-> G(e) * c.tn, td |-> c.td, xn |-> c.x0n, xd |-> c.x0d, w |-> c.W, uid |-> s.p[1],
                        E |-> s.E, Ex |-> ExtE(e, k, s.p[7], s.p[2])]
        same == last = e.step
        final == [s |-> IF same THEN e.step + 1 ELSE e.step, tn |-> IF same THEN 2 * G(e) ELSE G(e), td |-> 1, xn |-> s.r.P, xd |-> 1,
                  w |-> s.r.W, uid |-> s.p[1], E |-> Zero(s.E), Ex |-> Zero(s.E)]
    IN [j \in 1..Len(s.r.calls) |-> crossing(s.r.calls[j])] \o (IF s.r.status = "absorbed" THEN <<final>> ELSE <<>>)

Fit(len, recs) == SubSeq(recs, 1, MinOf(Len(recs), MaxOf(0, run.npts - len)))
(* The record asked for by the user for particle p *)
UserRec(e, k, p) ==
    [s |-> e.step, tn |-> G(e), td |-> 1, xn |-> p[2], xd |-> 1, w |-> p[3], uid |-> p[1],
     E |-> IF run.sp[k].ch = 1 /\ e.f >= 0 THEN EvalF(run.flds[e.f + 1], p[7], p[2]) ELSE Zero(p[2]),
     Ex |-> IF run.sp[k].ch = 1 /\ e.x >= 0 THEN EvalF(run.flds[e.x + 1], p[7], p[2]) ELSE Zero(p[2])]
ByUid(seq, u) == seq[CHOOSE j \in UidPos(seq, u) : TRUE]
(* trajectory t after the advance with expectations S of its species: records to be added, particle followed *)
TrajAdv(e, k, S, t) ==
    LET c == {n \in 1..Len(S) : S[n].p[1] = t.cur} IN
    IF t.cur < 0 \/ c = {} THEN [recs |-> <<>>, cur |-> t.cur]
    ELSE LET s == S[CHOOSE n \in c : TRUE]
         IN [recs |-> Fit(t.len, AdvRecs(e, k, s)), cur |-> IF s.r.status = "alive" THEN t.uid ELSE -1]
(* and after a request to record *)
TrajRec(e, k, t) ==
    IF t.cur < 0 \/ last = e.step \/ UidPos(st[k], t.cur) = {} THEN [recs |-> <<>>, cur |-> t.cur]
    ELSE [recs |-> Fit(t.len, <<UserRec(e, k, ByUid(st[k], t.cur))>>), cur |-> t.cur]
Grown(t, g) == [uid |-> t.uid, len |-> t.len + Len(g.recs), cur |-> g.cur, recs |-> g.recs]
AdvTr(e) == [k \in 1..NSp |-> [j \in 1..Len(tr[k]) |->
                IF Moved(e, k) /\ st[k] # <<>> THEN Grown(tr[k][j], TrajAdv(e, k, Steps(e, k), tr[k][j])) ELSE [tr[k][j] EXCEPT !.recs = <<>>]]]
RecTr(e) == [k \in 1..NSp |-> [j \in 1..Len(tr[k]) |-> Grown(tr[k][j], TrajRec(e, k, tr[k][j]))]]
Tracked(l) == SelectSeq(l, LAMBDA p : (p[6] \div 2) % 2 = 1)
NewTr(l) == IF run.track = 0 THEN <<>>
            ELSE LET m == Tracked(l) IN [j \in 1..Len(m) |-> [uid |-> m[j][1], len |-> 0, cur |-> m[j][1], recs |-> <<>>]]
FullWith(t) == [k \in 1..NSp |-> [j \in 1..Len(t[k]) |-> (IF j <= Len(full[k]) THEN full[k][j] ELSE <<>>) \o t[k][j].recs]]

(* ------------------------------------------------------------ sources --- *)
Due(e) == SelectSeq([n \in 1..Len(e.ivals) |-> n - 1], LAMBDA n : e.step % e.ivals[n + 1] = 0)

(* ------------------------------------------------ histories, output --- *)
SumF(f(_), n) == LET RECURSIVE F(_) F(j) == IF j = 0 THEN 0 ELSE f(j) + F(j - 1) IN F(n)
Number(k)  == SumF(LAMBDA j : st[k][j][5], Len(st[k]))
(* 4 KE in units of 1/dt^2: m2 * sum of weight * w.w                       *)
KE4(k) == run.sp[k].m2 * SumF(LAMBDA j : st[k][j][5] * Dot(st[k][j][3], st[k][j][3]), Len(st[k]))
HVal(h, k) == IF h = "count" THEN Len(st[k]) ELSE KE4(k)
HistRow(e) == [s |-> e.step, t |-> e.tk, number |-> [k \in 1..NSp |-> Number(k)],
               count |-> [k \in 1..NSp |-> HVal("count", k)], KE |-> [k \in 1..NSp |-> HVal("KE", k)]]
SnapOf(e) == [tk |-> e.tk, st |-> st]
SnapsAfter(e) == IF e.step # lastw THEN Append(snaps, SnapOf(e)) ELSE snaps
=============================================================================
