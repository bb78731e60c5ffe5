------------------------------ MODULE SAPTrace ------------------------------
(***************************************************************************)
(* Validates recorded client histories of the real particle storage        *)
(* (harness/drv_sap.py random) against SAPSeq: each event must be the      *)
(* SAPSeq action with its arguments.                                       *)
(***************************************************************************)
EXTENDS TraceLib

VARIABLES i, L, its, segs, bad
tvars == <<i, L, its, segs, bad>>

CeilDiv(a, b) == (a + b - 1) \div b
Chunks(s, m) == LET n == CeilDiv(Len(s), L)
                    c == IF m = 0 THEN n ELSE Min2(m, n)
                IN [k \in 1..c |-> SubSeq(s, (k - 1) * L + 1, Min2(k * L, Len(s)))]
ChunkIdx(s, m) == LET ch == Chunks(s, m) IN
                  [k \in 1..Len(ch) |-> [j \in 1..Len(ch[k]) |-> (k - 1) * L + j - 1]]
RECURSIVE Sel(_, _, _)
Sel(s, m, k) == IF k > Len(s) THEN <<>>
                ELSE IF k <= Len(m) /\ m[k] = 1 THEN <<s[k]>> \o Sel(s, m, k + 1)
                ELSE Sel(s, m, k + 1)

(* Expected successor <<items, segs>> of each event (the SAPSeq actions)   *)
Exp(e) ==
  CASE e.ev = "push" -> <<Append(its, e.v), <<segs[1], IF Len(its) = segs[2] * L THEN segs[2] + 1 ELSE segs[2]>>>>
    [] e.ev = "grow" -> LET n == Len(its) + e.k IN
                        <<its \o [j \in 1..e.k |-> e.v + j - 1], <<segs[1], Max2(segs[2], CeilDiv(n, L))>>>>
    [] e.ev = "pass" -> LET kept0 == Sel(its, e.keep, 1)
                            kept  == [j \in 1..Len(kept0) |-> kept0[j] + e.add]
                        IN <<kept, IF its = <<>> THEN segs
                                   ELSE <<segs[2], Max2(segs[1], CeilDiv(Len(kept), L))>>>>
    [] e.ev = "trunc" -> <<SubSeq(its, 1, e.n), segs>>
    [] e.ev = "set" -> <<[its EXCEPT ![e.i + 1] = e.v], segs>>
    [] OTHER -> <<its, segs>>

Results(e) ==
  CASE e.ev = "push" -> Clause("S01.ret", e.ret = <<Len(its) % L, Len(its)>>)
    [] e.ev = "grow" -> Clause("S01.ret", e.ret = [j \in 1..e.k |-> Len(its) + j - 1])
    [] e.ev \in {"read", "part"} ->
         Clause("S02.read", e.got = Chunks(its, e.max)) \cup
         Clause("S02.index", e.idx = ChunkIdx(its, e.max))
    [] e.ev = "pass" -> Clause("S03.seen", e.seen = its) \cup Clause("S03.index", e.okidx = 1)
    [] OTHER -> {}

ItemClause(e) == CASE e.ev = "pass" -> "S03.items" [] e.ev \in {"read", "part"} -> "S02.after" [] OTHER -> "S01.items"

TInit == i = 1 /\ L = 1 /\ its = <<>> /\ segs = <<1, 1>> /\ bad = {}

TNext ==
  /\ i <= Len(Lines)
  /\ i' = i + 1
  /\ LET e == Lines[i] IN
     CASE e.ev = "start" -> L' = e.L /\ its' = <<>> /\ segs' = <<1, 1>> /\ UNCHANGED bad
       [] e.ev = "crash" -> UNCHANGED <<L, its, segs>> /\ bad' = AddBad(bad, {"crash"}, i)
       [] OTHER ->
          LET x == Exp(e)
              o == e.obs
              fails == Results(e)
                 \cup Clause(ItemClause(e), o.items = x[1] /\ o.n = Len(x[1]))
                 \cup Clause("S03.capacity", o.segs = x[2] /\ o.cap = <<x[2][1] * L, x[2][2] * L>>)
          IN /\ its' = o.items            \* continue from what was observed
             /\ segs' = o.segs
             /\ bad' = AddBad(bad, fails, i)
             /\ UNCHANGED L
TSpec == TInit /\ [][TNext]_tvars
Verdict == i = Len(Lines) + 1 => Report(bad)
Done == TLCGet("stats").diameter = Len(Lines) + 1
=============================================================================
