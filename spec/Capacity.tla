------------------------------ MODULE Capacity ------------------------------
(***************************************************************************)
(* Room for recorded data: a run of n steps records step 0 and every       *)
(* skip-th step after it; max is the number of points asked for (-1: no    *)
(* limit), extra the room for crossings of boundaries.                     *)
(***************************************************************************)
EXTENDS Integers
Points(n, skip) == (n \div skip) + 1
(* what the interval and the room (in points) have to satisfy              *)
Regular(max, skip) == skip >= 1 /\ (max = -1 => skip = 1)
Enough(n, skip, room, extra) == room >= Points(n, skip) + extra
AtMost(max, room, extra) == max = -1 \/ room <= max + extra
Used(n, max, skip) == IF max = -1 \/ max > n THEN skip = 1 ELSE 2 * Points(n, skip) > max
=============================================================================
