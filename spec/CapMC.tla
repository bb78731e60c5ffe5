-------------------------------- MODULE CapMC --------------------------------
(***************************************************************************)
(* The recording of data during a run, for every number of steps, maximum  *)
(* and extra room up to bounds, and every interval and room that Capacity   *)
(* allows.  Events at boundaries may ask for records at any time.           *)
(* - the state at the beginning and at every skip-th step finds room;       *)
(* - the storage is never larger than asked for, nor (beyond the run)       *)
(*   filled to less than half of what was asked for;                       *)
(* - some interval is allowed for every input: the one of the code is.      *)
(***************************************************************************)
EXTENDS Capacity, FiniteSets
CONSTANTS NMax, EMax
VARIABLES n, max, extra, skip, room, step, rows, crossings
vars == <<n, max, extra, skip, room, step, rows, crossings>>

CodeSkip(k, m) == IF m = -1 THEN 1 ELSE (k \div m) + 1
Allowed(k, m, x, s, r) == Regular(m, s) /\ Enough(k, s, r, x) /\ AtMost(m, r, x) /\ Used(k, m, s)
Init == /\ n \in 1..NMax /\ max \in {-1} \cup 1..(NMax + 1) /\ extra \in 0..EMax
        /\ skip \in 1..(NMax + 1) /\ room \in 1..(NMax + EMax + 1)
        /\ Allowed(n, max, extra, skip, room)
        /\ step = 0 /\ rows = 1 /\ crossings = 0
Record == step < n /\ step' = step + 1 /\ rows' = rows + (IF step' % skip = 0 THEN 1 ELSE 0) /\ UNCHANGED crossings
Cross == crossings < extra /\ crossings' = crossings + 1 /\ UNCHANGED <<step, rows>>
Next == (Record \/ Cross) /\ UNCHANGED <<n, max, extra, skip, room>>
Spec == Init /\ [][Next]_vars
Fits == rows + crossings <= room
Filled == step = n => (rows = n + 1 \/ max # -1) /\ (max # -1 => rows <= max /\ (2 * rows > max \/ rows = n + 1))
HasOne == LET s == CodeSkip(n, max) IN Allowed(n, max, extra, s, Points(n, s) + extra)
=============================================================================
