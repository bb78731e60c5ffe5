-------------------------------- MODULE Duo --------------------------------
(***************************************************************************)
(* Two sessions in one process, each with objects of its own: its script   *)
(* makes objects, sets and changes their values and reads them, and the    *)
(* session logs what it reads.  The steps of the two are interleaved in    *)
(* any way.  Sessions share no variable, so what a session logs is what    *)
(* its script logs when it runs alone.                                     *)
(*                                                                         *)
(* Leak is what goes wrong when a value lives in one place for all objects *)
(* (a class attribute, a static variable, a buffer kept with the class):   *)
(* with Leak = TRUE the specification breaks Apart.        *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Scripts,      \* what a session may do: sequences of operations
          Leak          \* do the objects keep their value in one place?
VARIABLES script, pc, val, log
dvars == <<script, pc, val, log>>
S == {1, 2}
Where(s) == IF Leak THEN 1 ELSE s

(* The effect of an operation on the value of the object, and what it logs *)
Effect(o, v) == CASE o.op = "make" -> 0 [] o.op = "put" -> o.v [] o.op = "add" -> v + o.v [] o.op = "get" -> v
Logs(o, v)   == IF o.op = "get" THEN <<v>> ELSE <<>>

RECURSIVE Alone(_, _)
Alone(p, v) == IF p = <<>> THEN <<>> ELSE Logs(Head(p), v) \o Alone(Tail(p), Effect(Head(p), v))
Prefix(a, b) == Len(a) <= Len(b) /\ \A k \in 1..Len(a) : a[k] = b[k]

DuoInit == script \in [S -> Scripts] /\ pc = [s \in S |-> 1] /\ val = [s \in S |-> 0] /\ log = [s \in S |-> <<>>]
Act(s)  == /\ pc[s] <= Len(script[s])
           /\ LET o == script[s][pc[s]] IN
              /\ val' = [val EXCEPT ![Where(s)] = Effect(o, val[Where(s)])]
              /\ log' = [log EXCEPT ![s] = @ \o Logs(o, val[Where(s)])]
           /\ pc' = [pc EXCEPT ![s] = @ + 1] /\ UNCHANGED script
DuoNext == \E s \in S : Act(s)
DuoSpec == DuoInit /\ [][DuoNext]_dvars

Apart == \A s \in S : Prefix(log[s], Alone(script[s], 0))
Ends  == \A s \in S : pc[s] > Len(script[s]) => log[s] = Alone(script[s], 0)
=============================================================================
