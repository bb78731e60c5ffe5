------------------------------- MODULE SAPGen -------------------------------
(***************************************************************************)
(* Generates every client history of SAPSeq of a given length, with what   *)
(* the user must see after each operation; each is replayed into the real  *)
(* storage classes (harness/drv_sap.py).                                   *)
(***************************************************************************)
EXTENDS SAPSeq, TLC, Json

CONSTANTS Depth,     \* operations per history
          MaxFill    \* histories start with 0..MaxFill items

VARIABLES hist, nv
gvars == <<items, segs, hist, nv>>

Obs == [items |-> items', segs |-> segs']
Log(o) == hist' = Append(hist, [op |-> o, obs |-> Obs])

Fill(k) == [j \in 1..k |-> j]
GInit == /\ \E k \in 0..MaxFill :
              /\ items = Fill(k)
              /\ segs = <<1, IF k = 0 THEN 1 ELSE CeilDiv(k, L)>>
              /\ nv = k + 1
              /\ hist = <<[op |-> <<"fill", k>>, obs |-> [items |-> items, segs |-> segs]]>>

GPush == PushBack(nv) /\ nv' = nv + 1 /\ Log(<<"push", nv>>)
GRead == Read /\ UNCHANGED nv /\ Log(<<"read", Chunks(items)>>)
GPart == /\ Len(items) > L          \* a loop abandoned after its first segment
         /\ Read /\ UNCHANGED nv /\ Log(<<"part", <<Chunks(items)[1]>>>>)
All(k)  == TRUE
None(k) == FALSE
Odd(k)  == k % 2 = 1
Tail1(k) == k > 1
GPass == /\ UNCHANGED nv
         /\ \/ Pass(All)   /\ Log(<<"pass", "all">>)
            \/ Pass(None)  /\ Log(<<"pass", "none">>) /\ items # <<>>
            \/ Pass(Odd)   /\ Log(<<"pass", "odd">>) /\ Len(items) > 1
            \/ Pass(Tail1) /\ Log(<<"pass", "tail">>) /\ Len(items) > 1
GTrunc == /\ UNCHANGED nv /\ items # <<>>
          /\ \E n \in {0, Len(items) - 1, L} :
                n < Len(items) /\ Truncate(n) /\ Log(<<"trunc", n>>)
GSet == /\ items # <<>>
        /\ SetItem(Len(items), nv) /\ nv' = nv + 1 /\ Log(<<"set", Len(items) - 1, nv>>)

GNext == /\ Len(hist) <= Depth
         /\ GPush \/ GRead \/ GPart \/ GPass \/ GTrunc \/ GSet
GSpec == GInit /\ [][GNext]_gvars

GenOK == CapacityOK
Emit == (Len(hist) = Depth + 1) => PrintT("HIST " \o ToJson(hist))
=============================================================================
