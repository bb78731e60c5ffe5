-------------------------------- MODULE SAP ---------------------------------
(***************************************************************************)
(* The SegmentedArrayPair at the grain of its API calls, structured like   *)
(* SegmentedArrayPair_Module.py / SegmentedArrayPair.h: two segmented      *)
(* arrays with the counters first_not_full_segment, first_available_offset *)
(* and current_segment, and the roles "in"/"out" swapped by every pass.    *)
(*                                                                         *)
(* Checked exhaustively (SAPMC.cfg): it implements SAPSeq (one sequence).  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS L,        \* segment length
          MaxItems  \* bound on the number of items ever pushed

VARIABLES cell,     \* cell[a] : contents of array a as a flat sequence (0 = never written)
          nseg,     \* nseg[a] : segments allocated
          fnf,      \* first_not_full_segment
          fao,      \* first_available_offset
          cur,      \* current_segment
          in, out,  \* roles
          pc,       \* client: "idle", "read", "pass"
          seen,     \* items given to the reader so far in this loop
          inpos,    \* pass: index in the current "in" segment, and its length
          inlen,
          op,       \* pass: ipOut, count, kept
          abs,      \* ghost: the sequence the user should see
          next      \* next value to push

vars == <<cell, nseg, fnf, fao, cur, in, out, pc, seen, inpos, inlen, op, abs, next>>

SA == {0, 1}
Blank == [k \in 1..L |-> 0]

Init == /\ cell = [a \in SA |-> Blank]
        /\ nseg = [a \in SA |-> 1]
        /\ fnf = [a \in SA |-> 0]
        /\ fao = [a \in SA |-> 0]
        /\ cur = [a \in SA |-> 0]
        /\ in = 1 /\ out = 0
        /\ pc = "idle" /\ seen = <<>> /\ inpos = 0 /\ inlen = 0
        /\ op = [ip |-> 0, n |-> 0, kept |-> <<>>]
        /\ abs = <<>> /\ next = 1

Contents(a) == SubSeq(cell[a], 1, fnf[a] * L + fao[a])
Segment(a, s, n) == SubSeq(cell[a], s * L + 1, s * L + n)
LastItem(a, s) == IF fnf[a] = s THEN fao[a] ELSE L

(* push_back(): allowed whenever no in/out pass is under way; it ends a    *)
(* read loop.                                                              *)
Push == /\ pc \in {"idle", "read"}
        /\ next <= MaxItems
        /\ LET full == fao[out] = L
               f    == IF full THEN fnf[out] + 1 ELSE fnf[out]
               o    == IF full THEN 0 ELSE fao[out]
               grow == full /\ fnf[out] + 1 >= nseg[out]
               c    == IF grow THEN cell[out] \o Blank ELSE cell[out]
           IN /\ nseg' = [nseg EXCEPT ![out] = IF grow THEN @ + 1 ELSE @]
              /\ cell' = [cell EXCEPT ![out] = [c EXCEPT ![f * L + o + 1] = next]]
              /\ fnf' = [fnf EXCEPT ![out] = f]
              /\ fao' = [fao EXCEPT ![out] = o + 1]
              /\ cur' = [cur EXCEPT ![out] = f]
        /\ abs' = Append(abs, next)
        /\ next' = next + 1
        /\ pc' = "idle"
        /\ UNCHANGED <<in, out, seen, inpos, inlen, op>>

(* init_out_loop()                                                         *)
InitOut == /\ pc \in {"idle", "read"}
           /\ cur' = [cur EXCEPT ![out] = 0]
           /\ LET n == LastItem(out, 0)
              IN /\ seen' = Segment(out, 0, n)
                 /\ pc' = IF n = 0 THEN "idle" ELSE "read"
           /\ UNCHANGED <<cell, nseg, fnf, fao, in, out, inpos, inlen, op, abs, next>>

(* get_next_segment("out")                                                 *)
NextOut == /\ pc = "read"
           /\ cur' = [cur EXCEPT ![out] = @ + 1]
           /\ LET s == cur[out] + 1
                  n == IF s > fnf[out] THEN 0 ELSE LastItem(out, s)
              IN IF n = 0
                 THEN pc' = "idle" /\ seen' = <<>> /\ Assert(seen = abs, <<"read loop", seen, abs>>)
                 ELSE pc' = "read" /\ seen' = seen \o Segment(out, s, n)
           /\ UNCHANGED <<cell, nseg, fnf, fao, in, out, inpos, inlen, op, abs, next>>

(* set_number_of_items("out", n)                                           *)
Truncate(n) == /\ pc \in {"idle", "read"}
               /\ n < Len(abs)
               /\ fnf' = [fnf EXCEPT ![out] = IF n = 0 THEN 0 ELSE (n - 1) \div L]
               /\ fao' = [fao EXCEPT ![out] = IF n = 0 THEN 0 ELSE ((n - 1) % L) + 1]
               /\ abs' = SubSeq(abs, 1, n)
               /\ pc' = "idle"
               /\ UNCHANGED <<cell, nseg, cur, in, out, seen, inpos, inlen, op, next>>

(* init_inout_loop(): swaps the roles unless there is nothing to read.     *)
InitInOut == /\ pc \in {"idle", "read"}
             /\ cur' = [a \in SA |-> 0]
             /\ LET n == LastItem(out, 0) IN
                /\ fnf' = [fnf EXCEPT ![in] = 0]
                /\ fao' = [fao EXCEPT ![in] = 0]
                /\ IF n = 0
                   THEN /\ UNCHANGED <<in, out, inpos, inlen, op>> /\ pc' = "idle"
                   ELSE /\ in' = out /\ out' = in
                        /\ inpos' = 0 /\ inlen' = n
                        /\ op' = [ip |-> 0, n |-> 0, kept |-> <<>>]
                        /\ pc' = "pass"
             /\ UNCHANGED <<cell, nseg, seen, abs, next>>

(* The client reads the next "in" item and drops it.                       *)
Drop == /\ pc = "pass" /\ inpos < inlen
        /\ inpos' = inpos + 1
        /\ UNCHANGED <<cell, nseg, fnf, fao, cur, in, out, pc, seen, inlen, op, abs, next>>

(* The client keeps the next "in" item, calling get_next_out_segment()     *)
(* first when the current "out" segment is full.                           *)
Keep == /\ pc = "pass" /\ inpos < inlen
        /\ LET v    == cell[in][cur[in] * L + inpos + 1]
               full == op.ip = L
               s    == IF full THEN cur[out] + 1 ELSE cur[out]
               grow == full /\ s >= nseg[out]
               c    == IF grow THEN cell[out] \o Blank ELSE cell[out]
               ip   == IF full THEN 0 ELSE op.ip
           IN /\ cur' = [cur EXCEPT ![out] = s]
              /\ nseg' = [nseg EXCEPT ![out] = IF grow THEN @ + 1 ELSE @]
              /\ fnf' = [fnf EXCEPT ![out] = IF full THEN @ + 1 ELSE @]
              /\ fao' = [fao EXCEPT ![out] = IF full THEN 0 ELSE @]
              /\ cell' = [cell EXCEPT ![out] = [c EXCEPT ![s * L + ip + 1] = v]]
              /\ op' = [ip |-> ip + 1, n |-> op.n + 1, kept |-> Append(op.kept, v)]
              /\ Assert(fnf'[out] = s, "get_next_out_segment")
        /\ inpos' = inpos + 1
        /\ UNCHANGED <<in, out, pc, seen, inlen, abs, next>>

(* get_next_segment("in"); at the end, set_number_of_items("out", n).      *)
NextIn == /\ pc = "pass" /\ inpos = inlen
          /\ cur' = [cur EXCEPT ![in] = @ + 1]
          /\ LET s == cur[in] + 1
                 n == IF s > fnf[in] THEN 0 ELSE LastItem(in, s)
             IN IF n > 0
                THEN /\ inpos' = 0 /\ inlen' = n
                     /\ UNCHANGED <<fnf, fao, pc, abs>>
                ELSE /\ UNCHANGED <<inpos, inlen>>
                     /\ pc' = "idle"
                     /\ abs' = op.kept
                     /\ fnf' = [fnf EXCEPT ![out] = IF op.n = 0 THEN 0 ELSE (op.n - 1) \div L]
                     /\ fao' = [fao EXCEPT ![out] = IF op.n = 0 THEN 0 ELSE ((op.n - 1) % L) + 1]
          /\ UNCHANGED <<cell, nseg, in, out, seen, op, next>>

Next == \/ Push \/ InitOut \/ NextOut \/ InitInOut \/ Drop \/ Keep \/ NextIn
        \/ \E n \in 0..MaxItems : Truncate(n)

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* In every state outside a pass the storage reads as the user's sequence. *)
Faithful == pc # "pass" => Contents(out) = abs
(* Within a pass: everything read so far was kept or dropped in order, and *)
(* what is left unread is untouched.                                       *)
PassKeepsOrder == pc = "pass" =>
    /\ Segment(out, 0, op.n) = op.kept
    /\ Contents(in) = abs
Capacity == /\ \A a \in SA : Len(cell[a]) = nseg[a] * L
            /\ Len(abs) <= MaxItems
            /\ \A a \in SA : fnf[a] < nseg[a] /\ fao[a] \in 0..L
            /\ \A a \in SA : nseg[a] <= (MaxItems + L - 1) \div L

(* Refinement: each call is a step of the one-sequence specification.      *)
Abs == INSTANCE SAPSeq WITH items <- abs,
         segs <- IF pc = "pass" THEN <<nseg[out], nseg[in]>> ELSE <<nseg[in], nseg[out]>>
AbsStep == \/ \E v \in 1..MaxItems : Abs!PushBack(v)
           \/ \E n \in 0..MaxItems : Abs!Truncate(n)
           \/ (pc = "pass" /\ pc' = "idle" /\ \E S \in SUBSET (1..Len(abs)) :
                  LET K(k) == k \in S IN abs' = Abs!Pick(abs, K))
           \/ Abs!Read
           \/ pc' = "pass"            \* a pass may allocate "out" segments as it goes
Refines == Abs!SeqInit /\ [][AbsStep]_vars
=============================================================================
