------------------------------ MODULE DuoTrace ------------------------------
(***************************************************************************)
(* Two sessions of real code in one process (harness/duo.py), their events *)
(* in the order they happened, each with what the same session logged when *)
(* it ran alone.  An event is its shape (names, words, lengths) and the    *)
(* numbers in it.                                                          *)
(***************************************************************************)
EXTENDS TraceLib
VARIABLES i, at, bad
(* small numbers (identities, cells, counts, flags) are exact; large ones  *)
(* are scaled and rounded reals                                            *)
Close(a, b) == a = b \/ (AbsV(a) > 512 /\ Near(a, b, 1))
Same(e) == Len(e.v) = Len(e.alone) /\ \A k \in 1..Len(e.v) : Close(e.v[k], e.alone[k])
TInit == i = 1 /\ at = [s \in 1..2 |-> 0] /\ bad = {}
TNext ==
    /\ i <= Len(Lines) /\ i' = i + 1
    /\ LET e == Lines[i] IN
       IF e.ev = "end" THEN /\ at' = at
                            /\ bad' = AddBad(bad, Clause("N02.length", \A s \in 1..2 : at[s] = e.len[s]), i)
       ELSE /\ at' = [at EXCEPT ![e.s] = @ + 1]
            /\ bad' = AddBad(bad, Clause("N02.order", e.k = at[e.s] + 1)
                                  \cup Clause("N02.shape", e.shape = e.salone)
                                  \cup Clause("N02.values", Same(e)), i)
TSpec == TInit /\ [][TNext]_<<i, at, bad>>
Verdict == i = Len(Lines) + 1 => Report(bad)
Done == TLCGet("stats").diameter = Len(Lines) + 1
=============================================================================
