------------------------------ MODULE PlasmaGen ------------------------------
(***************************************************************************)
(* Every order of Depth operations of a simulation (the actions of         *)
(* PlasmaMC, without what they act on).  Each is executed by the real code *)
(* on a mesh and particles of the driver's choice, and the run is judged   *)
(* by PlasmaTrace.                                                         *)
(*   T next time step      A, N advance the charged, neutral species       *)
(*   S sources             R record trajectories     H record histories    *)
(*   W write a snapshot    C write, close the file and open another        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Depth

VARIABLES ops, step, moved
vars == <<ops, step, moved>>

Init == ops = <<>> /\ step = 0 /\ moved = {}
Do(o) == ops' = Append(ops, o)
Next == /\ Len(ops) < Depth
        /\ \/ Do("T") /\ step' = step + 1 /\ moved' = {}
           \/ \E a \in {"A", "N"} : /\ step > 0 /\ a \notin moved
                                    /\ Do(a) /\ moved' = moved \cup {a} /\ UNCHANGED step
           \/ \E o \in {"S", "R", "H", "W", "C"} : Do(o) /\ UNCHANGED <<step, moved>>
Spec == Init /\ [][Next]_vars
Useful == /\ \A j \in 1..(Len(ops) - 1) : ~(ops[j] = "T" /\ ops[j + 1] = "T")
          /\ \E j \in 1..Len(ops) : ops[j] \in {"A", "N"}
Emit == (Len(ops) = Depth /\ Useful) => PrintT("HIST " \o ToJson(ops))
=============================================================================
