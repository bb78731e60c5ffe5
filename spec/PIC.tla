--------------------------------- MODULE PIC ---------------------------------
(***************************************************************************)
(* One cycle of a self-consistent run: each part works on the current      *)
(* state of the others.  Densities are the deposit of the particles there  *)
(* now, charge the sum over species of charge times density, the potential *)
(* solves the equation for that charge, and particles are pushed by the    *)
(* gradient of that potential in the cell they are in.                     *)
(*                                                                         *)
(* A particle is <<uid, position, velocity per step, cell, weight, flags>>, *)
(* positions in 1/U of the vertex unit.  The domain is a box whose sides   *)
(* 2d-1, 2d (low, high side in direction d) reflect or absorb.             *)
(***************************************************************************)
EXTENDS Poisson

(* Motion along one direction from y by the rest of a move, y possibly      *)
(* beyond the sides.  near: within eps of a side where the outcome is       *)
(* decided, so that rounding could tell the other way.                      *)
RECURSIVE Bounce(_, _, _, _, _, _)
Bounce(y, v, lo, hi, kind, eps) ==
    IF AbsG(y - lo) <= eps \/ AbsG(y - hi) <= eps THEN [st |-> "near", y |-> y, v |-> v]
    ELSE IF y > lo /\ y < hi THEN [st |-> "in", y |-> y, v |-> v]
    ELSE IF kind[IF y < lo THEN 1 ELSE 2] = "absorb" THEN [st |-> "out", y |-> y, v |-> v]
    ELSE Bounce((IF y < lo THEN 2 * lo ELSE 2 * hi) - y, -v, lo, hi, kind, eps)

(* A particle at x moving by w in the box                                   *)
Moved(x, w, box, kinds, eps) ==
    LET b == [d \in 1..Len(x) |-> Bounce(x[d] + w[d], w[d], box[d][1], box[d][2], <<kinds[2 * d - 1], kinds[2 * d]>>, eps)]
    IN [st |-> IF \E d \in 1..Len(x) : b[d].st = "out" THEN "out"
               ELSE IF \E d \in 1..Len(x) : b[d].st = "near" THEN "near" ELSE "in",
        sure |-> \A d \in 1..Len(x) : b[d].st # "near",
        x |-> [d \in 1..Len(x) |-> b[d].y], w |-> [d \in 1..Len(x) |-> b[d].v]]

(* deposits of a species, in the form MeshState uses                        *)
Parts(l) == [j \in 1..Len(l) |-> <<l[j][4], l[j][2], l[j][5]>>]
=============================================================================
