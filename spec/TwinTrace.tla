------------------------------ MODULE TwinTrace ------------------------------
(***************************************************************************)
(* Runs recorded by harness/drv_pic.py (twin): each is made three times,   *)
(* with Python and with C++ integrators.  Every state of the second and    *)
(* third must agree with the state the first was in at that point.         *)
(***************************************************************************)
EXTENDS TraceLib
VARIABLES i, ref, at, run, bad
T == INSTANCE Twin WITH Seeds <- {0}, Own <- 1, Steps <- 0, Runs <- 3, seed <- 0, pos <- 0, run <- run, hist <- ref

Same(a, b) == /\ a.what = b.what /\ a.id = b.id /\ Len(a.near) = Len(b.near)
              /\ \A k \in 1..Len(a.near) : Near(a.near[k], b.near[k], 2)
(* which part of the state differs                                         *)
Differs(a, b) ==
    IF a.what # b.what THEN {"N01.order"}
    ELSE Clause("N01.particles", a.id = b.id)
         \cup (IF Len(a.near) # Len(b.near) THEN {"N01.size"} ELSE Clause("N01.values", T!Agree(<<a>>, <<b>>, Same) \/ a.id # b.id))

TInit == i = 1 /\ ref = <<>> /\ at = 0 /\ run = 0 /\ bad = {}
Complete(n) == IF run > 0 /\ at # Len(ref) THEN {"N01.length"} ELSE {}
TNext ==
    /\ i <= Len(Lines) /\ i' = i + 1
    /\ LET e == Lines[i] IN
       CASE e.ev = "start" ->
              /\ bad' = AddBad(bad, Complete(run), i - 1)
              /\ run' = e.run /\ at' = 0 /\ ref' = IF e.run = 0 THEN <<>> ELSE ref
         [] e.ev = "state" ->
              /\ run' = run /\ at' = at + 1
              /\ ref' = IF run = 0 THEN Append(ref, e) ELSE ref
              /\ bad' = IF run = 0 THEN bad
                        ELSE AddBad(bad, IF at' > Len(ref) THEN {"N01.length"} ELSE Differs(ref[at'], e), i)
         [] e.ev = "crash" -> bad' = AddBad(bad, {"N01.crash"}, i) /\ UNCHANGED <<ref, at, run>>
         [] e.ev = "end"   -> bad' = AddBad(bad, Complete(run), i) /\ UNCHANGED <<ref, at, run>>
TSpec == TInit /\ [][TNext]_<<i, ref, at, run, bad>>
Verdict == i = Len(Lines) + 1 => Report(bad)
Done == TLCGet("stats").diameter = Len(Lines) + 1
=============================================================================
