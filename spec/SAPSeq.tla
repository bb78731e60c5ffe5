------------------------------- MODULE SAPSeq -------------------------------
(***************************************************************************)
(* What a user of a SegmentedArrayPair relies on: it is one sequence of    *)
(* items.  One action per complete client operation.                       *)
(*                                                                         *)
(*   items  the sequence of stored items                                   *)
(*   segs   <<number of segments of the "in" array, of the "out" array>>   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT L                      \* segment length
VARIABLES items, segs

seqvars == <<items, segs>>

CeilDiv(a, b) == (a + b - 1) \div b
MaxOf(a, b) == IF a >= b THEN a ELSE b

(* The items of s whose (1-based) position satisfies Keep, in order.       *)
RECURSIVE PickFrom(_, _, _)
PickFrom(s, Keep(_), k) ==
    IF k > Len(s) THEN <<>>
    ELSE IF Keep(k) THEN <<s[k]>> \o PickFrom(s, Keep, k + 1)
                    ELSE PickFrom(s, Keep, k + 1)
Pick(s, Keep(_)) == PickFrom(s, Keep, 1)

(* The segments a reader of a complete loop is given, in order.            *)
Chunks(s) == [k \in 1..CeilDiv(Len(s), L) |->
                SubSeq(s, (k - 1) * L + 1, IF k * L < Len(s) THEN k * L ELSE Len(s))]

SeqInit == /\ items = <<>>
           /\ segs = <<1, 1>>

(* Storage grows by one segment, and only when the array is full.          *)
PushSegs(n) == <<segs[1], IF n = segs[2] * L THEN segs[2] + 1 ELSE segs[2]>>

PushBack(v) == /\ items' = Append(items, v)
               /\ segs' = PushSegs(Len(items))

SetItem(i, v) == /\ i \in 1..Len(items)
                 /\ items' = [items EXCEPT ![i] = v]
                 /\ UNCHANGED segs

Truncate(n) == /\ n \in 0..Len(items)
               /\ items' = SubSeq(items, 1, n)
               /\ UNCHANGED segs

(* A complete in/out pass that keeps the items selected by Keep.           *)
(* The two arrays change roles unless there is nothing to read.            *)
PassSegs(n) == IF Len(items) = 0 THEN segs
               ELSE <<segs[2], MaxOf(segs[1], CeilDiv(n, L))>>
Pass(Keep(_)) == LET kept == Pick(items, Keep) IN
                 /\ items' = kept
                 /\ segs' = PassSegs(Len(kept))

(* Reading, completely or not, changes nothing a user can see.             *)
Read == UNCHANGED seqvars

CapacityOK == /\ segs[1] >= 1 /\ segs[2] >= 1
              /\ Len(items) <= segs[2] * L
=============================================================================
