----------------------------- MODULE SetupTrace -----------------------------
(***************************************************************************)
(* Validates set-ups recorded by harness/drv_setup.py: what a simulation   *)
(* built from an input looks like (K01), how much room its records have    *)
(* (H02), and which inputs are refused (E01).                              *)
(***************************************************************************)
EXTENDS TraceLib, Capacity
VARIABLES i, bad
svars == <<i, bad>>

SetOf(s) == {s[k] : k \in 1..Len(s)}
Systems == {"cartesian_x", "spherical_r", "cartesian_xy", "cartesian_xyz"}
Comps(c) == CASE c = "cartesian_x" -> <<"x">> [] c = "spherical_r" -> <<"r">> [] c = "cartesian_xy" -> <<"x", "y">> [] OTHER -> <<"x", "y", "z">>
Attrs(c) == LET p == Comps(c) IN
    p \o [k \in 1..Len(p) |-> p[k] \o "0"] \o [k \in 1..Len(p) |-> "u" \o p[k]]
      \o <<"weight", "bitflags", "cell_index", "unique_ID", "crossings">>
Ints == {"bitflags", "cell_index", "unique_ID", "crossings"}

Names(s) == [k \in 1..Len(s) |-> s[k].name]
(* the charge of a species that is said to be neutral is ignored           *)
Q4(s) == IF s.dyn = "neutral" THEN 0 ELSE s.q4
SetupClauses(e) ==
    LET a == Attrs(e.coord)
        n == Len(e.sp)
    IN Clause("K01.species", /\ e.names = Names(e.sp) /\ e.nsp = n
                             /\ e.idx = [k \in 1..n |-> k]
                             /\ e.charge = [k \in 1..n |-> Q4(e.sp[k])]
                             /\ e.mass = [k \in 1..n |-> e.sp[k].m8]
                             \* (q4/4)/(m8/8) * m8 * 2 = 4 q4
                             /\ e.qom = [k \in 1..n |-> 4 * Q4(e.sp[k])])
       \cup Clause("K01.kinds", /\ e.charged = Names(SelectSeq(e.sp, LAMBDA s : Q4(s) # 0))
                                /\ e.neutral = Names(SelectSeq(e.sp, LAMBDA s : Q4(s) = 0)))
       \cup Clause("K01.attributes", /\ e.attrs = a /\ e.pos = Comps(e.coord) /\ e.dim = Len(Comps(e.coord))
                                     /\ \A k \in 1..Len(a) : e.kinds[k] = IF a[k] \in Ints THEN "int" ELSE "float")
       \cup Clause("K01.storage", e.stored = [k \in 1..Len(a) |-> [a |-> a[k], v |-> k]])
       \cup Clause("K01.counts", /\ e.count0 = [k \in 1..n |-> 0] /\ e.tot0 = 0 /\ e.tot1 = 1
                                 /\ e.count1 = [k \in 1..n |-> IF e.sp[k].name = e.who THEN 1 ELSE 0])

CapClauses(e) ==
    Clause("H02.skip", Regular(e.max, e.tskip) /\ Regular(e.max, e.hskip))
    \cup (IF e.tskip < 1 \/ e.hskip < 1 THEN {} ELSE
          Clause("H02.room", Enough(e.n, e.hskip, e.hpts, 0) /\ e.hlen = e.hpts /\ Enough(e.n, e.tskip, e.tpts, e.extra)
                             /\ \A k \in 1..Len(e.sizes) : e.sizes[k] = e.tpts)
          \cup Clause("H02.max", AtMost(e.max, e.hpts, 0) /\ AtMost(e.max, e.tpts, e.extra))
          \cup Clause("H02.used", Used(e.n, e.max, e.hskip) /\ Used(e.n, e.max, e.tskip))
          \cup Clause("H02.start", e.hcount = 0))

(* Whether an input is one the code knows how to deal with                 *)
Valid(e) ==
    CASE e.case = "system"     -> e.cs \in Systems /\ e.cpp \in {"True", "False"}
      [] e.case = "attributes" -> SetOf(e.list) \subseteq (SetOf(Attrs(e.coord)) \cup {"species_index"})
      [] e.case = "outfile"    -> e.file # "<none>"
      [] e.case = "writetraj"  -> e.w # "<none>"
      [] e.case = "trajtype"   -> e.type \in {"charged", "neutral"}
      [] e.case = "meshsystem" -> e.cs \in {"Cartesian", "1D-spherical-radial"}
      [] e.case = "nomesh"     -> e.mesh = 1
      [] e.case = "chargemesh" -> e.mesh = 1
TryClauses(e) == Clause("E01." \o e.case, e.out = IF Valid(e) THEN "accepted" ELSE "refused")

TInit == i = 1 /\ bad = {}
TNext ==
  /\ i <= Len(Lines)
  /\ i' = i + 1
  /\ LET e == Lines[i] IN
     bad' = AddBad(bad, CASE e.ev = "setup" -> SetupClauses(e)
                          [] e.ev = "cap" -> CapClauses(e)
                          [] e.ev = "try" -> TryClauses(e)
                          [] e.ev = "crash" -> {"crash"}
                          [] OTHER -> {"undefined"}, i)
TSpec == TInit /\ [][TNext]_svars
Verdict == i = Len(Lines) + 1 => Report(bad)
Done == TLCGet("stats").diameter = Len(Lines) + 1
=============================================================================
