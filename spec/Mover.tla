------------------------------- MODULE Mover --------------------------------
(***************************************************************************)
(* One time step of one particle: the exact path of a particle across the  *)
(* cells of a mesh, and what happens at the marked facets it meets.        *)
(*                                                                         *)
(* The velocity W is measured per unit of time, and a free step of g units *)
(* is x' = x + g.W.  The path is P(t) = P + (t-1).V, V = g.W, for t in     *)
(* 0..1; times are rationals <<num, den>>, den > 0.  A reflection maps P,  *)
(* V and W through the facet plane and leaves the time line alone.         *)
(***************************************************************************)
EXTENDS Geometry

CONSTANT MaxCross       \* bound on facets crossed in one step

(* Facets of cell c that P lies beyond                                     *)
Beyond(geo, c, P) == {k \in DOMAIN geo[c + 1] : Dot(geo[c + 1][k].n, P) > geo[c + 1][k].c}

(* Time at which the path meets facet k of cell c                          *)
MeetNum(fk, P, V) == Dot(fk.n, V) - (Dot(fk.n, P) - fk.c)
MeetDen(fk, V)    == Dot(fk.n, V)

Earliest(geo, c, P, V, S) ==
    CHOOSE k \in S : \A j \in S :
       MeetNum(geo[c + 1][k], P, V) * MeetDen(geo[c + 1][j], V) <= MeetNum(geo[c + 1][j], P, V) * MeetDen(geo[c + 1][k], V)

ReflectAt(fk, P) == LET s == Dot(fk.n, P) - fk.c IN VSub(P, VScale((2 * s) \div Dot(fk.n, fk.n), fk.n))
Mirror(fk, v)    == VSub(v, VScale((2 * Dot(fk.n, v)) \div Dot(fk.n, fk.n), fk.n))

(* bc[f+1]: <<kind, name>> of what the user's boundary function for facet f  *)
(* does ("absorb", "reflect", "pass"), or <<"none", "">> when unmarked.    *)
RECURSIVE Follow(_, _, _)
Follow(geo, bc, s) ==
  LET out == Beyond(geo, s.cell, s.P) IN
  IF out = {} THEN [s EXCEPT !.status = "alive"]
  ELSE IF s.n >= MaxCross \/ \E k \in out : MeetDen(geo[s.cell + 1][k], s.V) <= 0
  THEN [s EXCEPT !.status = "stuck"]
  ELSE
  LET k   == Earliest(geo, s.cell, s.P, s.V, out)
      fk  == geo[s.cell + 1][k]
      tn  == MeetNum(fk, s.P, s.V)
      td  == MeetDen(fk, s.V)
      b   == bc[fk.f + 1]
      X   == [i \in 1..Len(s.P) |-> s.P[i] * td + (tn - td) * s.V[i]]    \* crossing point times td
      call == [f |-> fk.f, fn |-> b[2], kind |-> b[1], n |-> fk.n,
               tn |-> tn, td |-> td,
               frn |-> tn * s.td - s.tn * td, frd |-> td * (s.td - s.tn),
               P |-> s.P, W |-> s.W, x0n |-> X, x0d |-> td,
               dxn |-> VScale(s.td - s.tn, s.V), dxd |-> s.td]
      s1  == [s EXCEPT !.n = @ + 1, !.x0n = X, !.x0d = td, !.tn = tn, !.td = td,
                       !.calls = IF b[1] = "none" THEN @ ELSE Append(@, call)]
      s2  == IF b[1] = "reflect"
             THEN [s1 EXCEPT !.P = ReflectAt(fk, @), !.V = Mirror(fk, @), !.W = Mirror(fk, @), !.refl = TRUE]
             ELSE s1
  IN CASE b[1] = "absorb" -> [s2 EXCEPT !.status = "absorbed", !.cell = -1]
       [] fk.nb = -1 /\ b[1] # "reflect" -> [s2 EXCEPT !.status = "stuck"]
       [] fk.nb = -1 -> Follow(geo, bc, s2)
       [] OTHER -> Follow(geo, bc, [s2 EXCEPT !.cell = fk.nb])

(* A move of a particle in cell c from x with velocity w, over g time units *)
WalkFor(geo, bc, c, x, w, g) ==
  Follow(geo, bc,
    [cell |-> c, P |-> VAdd(x, VScale(g, w)), V |-> VScale(g, w), W |-> w, tn |-> 0, td |-> 1, n |-> 0,
     x0n |-> x, x0d |-> 1, calls |-> <<>>, refl |-> FALSE, status |-> "moving"])
Walk(geo, bc, c, x, w) == WalkFor(geo, bc, c, x, w, 1)
=============================================================================
