-------------------------------- MODULE Twin --------------------------------
(***************************************************************************)
(* The same run made several times in one process, one after the other.    *)
(* What a run does is a function of its input and of the random numbers it *)
(* draws; making the control object of a run starts the random numbers     *)
(* anew.  So whatever happened before a run, and whichever integrators it  *)
(* uses, it passes through the same states as the first one did.           *)
(*                                                                         *)
(* The random numbers are a function of how many were drawn since the      *)
(* last start (seed and position); Draw is one of them.  Runs of the       *)
(* model: a state that starts from the input, and moves on by adding what  *)
(* is drawn; between two runs anything may be drawn or restarted.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences
CONSTANTS Seeds,        \* seeds that others may start the random numbers with
          Own,          \* the seed that a run starts them with
          Steps,        \* how many steps a run has
          Runs          \* how many runs are made
VARIABLES seed, pos,    \* the random numbers: their seed, how many were drawn
          run, hist     \* which run is under way (0: none), the states of each run

tvars == <<seed, pos, run, hist>>
Draw(s, p) == (7 * s + 3 * p + s * p) % 5

(* One run agrees with another if, step by step, they were in the same     *)
(* state, as far as both have come.                                        *)
Agree(a, b, Same(_, _)) == \A k \in 1..(IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)) : Same(a[k], b[k])

TwinInit == seed \in Seeds /\ pos = 0 /\ run = 0 /\ hist = <<>>
Others   == run = 0 /\ \/ \E s \in Seeds : seed' = s /\ pos' = 0 /\ UNCHANGED <<run, hist>>
                       \/ pos < 3 /\ pos' = pos + 1 /\ UNCHANGED <<seed, run, hist>>
Start    == run = 0 /\ Len(hist) < Runs /\ run' = Len(hist) + 1 /\ hist' = Append(hist, <<0>>) /\ seed' = Own /\ pos' = 0
Step     == run > 0 /\ Len(hist[run]) <= Steps
            /\ hist' = [hist EXCEPT ![run] = Append(@, @[Len(@)] + Draw(seed, pos))] /\ pos' = pos + 1 /\ UNCHANGED <<seed, run>>
Finish   == run > 0 /\ Len(hist[run]) = Steps + 1 /\ run' = 0 /\ UNCHANGED <<seed, pos, hist>>
TwinNext == Others \/ Start \/ Step \/ Finish
TwinSpec == TwinInit /\ [][TwinNext]_tvars

Repeats == \A i, j \in 1..Len(hist) : Agree(hist[i], hist[j], LAMBDA a, b : a = b)
=============================================================================
