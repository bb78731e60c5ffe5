------------------------------ MODULE FieldTrace -----------------------------
(***************************************************************************)
(* Validates fields on a mesh (harness/drv_field.py): arithmetic on them,  *)
(* interpolation to points, deposition of particles onto them, and the     *)
(* creation of particles over a region.                                    *)
(*                                                                         *)
(* The state F is the sequence of the fields of the run; a field is        *)
(* the sequence of its values, one per cell ("d.") or vertex ("c."), and   *)
(* for vector fields (".v") dim values per cell or vertex.  Values are     *)
(* scaled by FS and rounded.  Every event is checked for its own effect    *)
(* and for leaving all other fields alone.                                 *)
(***************************************************************************)
EXTENDS TraceLib, MeshState

VARIABLES i, F, kinds, bad
tvars == <<i, m, geo, F, kinds, bad>>

FS == 65536
XS == 4096
BIGV == 1073741824

IsCell(k) == kinds[k] \in {"ds", "dv"}
Comps(k)  == IF kinds[k] \in {"ds", "cs"} THEN 1 ELSE m.dim

(* where value j of a field belongs: its entity (0-based cell or vertex)   *)
Ent(k, j) == (j - 1) \div Comps(k)
(* is entity n of field k part of the cells in set S?                      *)
InCells(k, n, S) == IF IsCell(k) THEN n \in S ELSE \E c \in S : n \in SetOf(m.cells[c + 1])

(* ----------------------------------------------------------- effects ---- *)
Others(e, S) == \A k \in 1..Len(F) : k \notin S => e.obs[k] = F[k]
Frame(e, S, name) == Clause(name, Len(e.obs) = Len(F) /\ Others(e, S)) \cup Clause("F02.alias", e.alias = 1)
Known(k) == \A j \in 1..Len(F[k]) : F[k][j] # BIGV

SetClauses(e) ==
    LET k == e.k + 1
        S == SetOf(e.cells)
    IN Frame(e, {k}, "F02.frame")
       \cup Clause("F02.set", Len(e.obs[k]) = Len(F[k]) /\ \A j \in 1..Len(F[k]) :
             e.obs[k][j] = IF e.sub = 0 \/ InCells(k, Ent(k, j), S) THEN e.v * (FS \div 2) ELSE 0)
MulClauses(e) ==
    LET k == e.k + 1
        S == SetOf(e.cells)
    IN Frame(e, {k}, "F02.frame")
       \cup (IF ~Known(k) THEN {} ELSE Clause("F02.multiply", \A j \in 1..Len(F[k]) :
             IF e.sub = 0 \/ InCells(k, Ent(k, j), S) THEN AbsV(2 * e.obs[k][j] - e.v * F[k][j]) <= 2 + AbsV(e.v)
             ELSE e.obs[k][j] = F[k][j]))
SetgClauses(e) ==
    LET k == e.k + 1
        S == SetOf(e.cells)
        in(j) == e.sub = 0 \/ InCells(k, Ent(k, j), S)
    IN Frame(e, {k}, "F02.frame")
       \cup Clause("F02.gaussian", \A j \in 1..Len(F[k]) :
             IF in(j) THEN AbsV(e.obs[k][j]) <= 12 * e.v * FS ELSE e.obs[k][j] = 0)
       \cup Clause("F02.gaussian", e.v = 0 \/ \A j \in 1..Len(F[k]) : in(j) => \E n \in 1..Len(F[k]) : Ent(k, n) = Ent(k, j) /\ AbsV(e.obs[k][n]) > 0)
MulgClauses(e) ==
    LET k == e.k + 1 IN
    Frame(e, {k}, "F02.frame")
    \cup (IF ~Known(k) THEN {} ELSE Clause("F02.gaussian", \A j \in 1..Len(F[k]) :
             IF F[k][j] = 0 \/ e.v = 0 THEN AbsV(e.obs[k][j]) <= 12 * e.v
             ELSE e.obs[k][j] # BIGV => AbsV(e.obs[k][j] \div (12 * e.v)) <= AbsV(F[k][j]) + 2))
MaddClauses(e) ==
    LET k == e.k + 1
        q == e.j + 1
    IN Frame(e, {k}, "F02.frame")
       \cup (IF ~Known(k) \/ ~Known(q) THEN {} ELSE
             Clause("F02.add", \A j \in 1..Len(F[k]) : AbsV(e.obs[k][j] - F[k][j] - e.v * F[q][j]) <= 2 + AbsV(e.v)))

(* -------------------------------------------------------- deposition ---- *)
SumF(s) == SumOver(Len(s), LAMBDA j : s[j])
DepClauses(e) ==
    LET d == e.dk + 1
        c == e.ck + 1
        np == Len(e.parts)
    IN Frame(e, ({d} \cup {c}) \ {0}, "D01.frame")
       \cup (IF d = 0 \/ (IF d = 0 THEN TRUE ELSE ~Known(d)) THEN {} ELSE
             Clause("D01.share", \A v \in 1..Len(F[d]) : AbsV(e.obs[d][v] - F[d][v] - Deposit(FS, e.parts, v - 1)) <= 2 + np)
             \cup Clause("D01.total", AbsV(SumF(e.obs[d]) - SumF(F[d]) - FS * TotalW(e.parts)) <= 1 + Len(F[d])))
       \cup (IF c = 0 \/ (IF c = 0 THEN TRUE ELSE ~Known(c)) THEN {} ELSE
             Clause("D01.cell", \A n \in 1..NC :
                 LET want == F[c][n] + FS * Weight(e.parts, n - 1) IN
                 AbsV(e.cellv[n]) <= AbsV(want) \div CellVol(n) + 4 /\ AbsV(e.cellv[n] * CellVol(n) - want) <= 2 + CellVol(n)))
AddwClauses(e) ==
    LET k == e.k + 1 IN
    Frame(e, {k}, "D01.frame")
    \cup (IF ~Known(k) THEN {} ELSE Clause("D01.weight", \A n \in 1..NC :
             AbsV(e.obs[k][n] - F[k][n] - (IF n - 1 = e.part[1] THEN FS * e.part[3] ELSE 0)) <= 1))
DivClauses(e) ==
    LET k == e.k + 1 IN
    Frame(e, {k}, "D01.frame")
    \cup (IF ~Known(k) THEN {} ELSE Clause("D01.cell", \A n \in 1..NC :
             AbsV(e.cellv[n]) <= AbsV(F[k][n]) \div CellVol(n) + 4 /\ AbsV(e.cellv[n] * CellVol(n) - F[k][n]) <= 2 + CellVol(n)))
ChargeClauses(e) ==
    LET k == e.k + 1
        ok == Known(k) /\ \A n \in 1..Len(e.src) : Known(e.src[n] + 1)
        qs == SumOver(Len(e.q), LAMBDA n : AbsV(e.q[n]))
    IN Frame(e, {k}, "D01.frame")
       \cup (IF ~ok THEN {} ELSE Clause("D01.charge", \A v \in 1..Len(F[k]) :
             AbsV(e.obs[k][v] - F[k][v] - SumOver(Len(e.q), LAMBDA n : e.q[n] * F[e.src[n] + 1][v])) <= 2 + qs))

(* ----------------------------------------------------- interpolation ---- *)
(* component d of field k at x in cell c, scaled by FS (rounded down per term) *)
At(k, c, x, d) ==
    IF IsCell(k) THEN F[k][c * Comps(k) + d]
    ELSE SumOver(m.dim + 1, LAMBDA n :
           LET val == F[k][m.cells[c + 1][n] * Comps(k) + d]
               den == ShDen(c, n)
           IN (val \div den) * ShNum(c, n, x) + ((val % den) * ShNum(c, n, x)) \div den)
Fill == 77 * FS
InterpClauses(e) ==
    LET k == e.k + 1
        n == Len(e.pts)
    IN Frame(e, {}, "F02.frame")
       \cup (IF ~Known(k) THEN {} ELSE
             Clause("F02.interpolate", \A j \in 1..n : Len(e.res[j]) = Comps(k) /\ \A d \in 1..Comps(k) :
                 AbsV(e.res[j][d] - At(k, e.pts[j][1], e.pts[j][2], d)) <= 8))
       \cup Clause("F02.extent", \A j \in (n + 1)..Len(e.res) : \A d \in 1..Comps(k) : e.res[j][d] = Fill)
(* random interpolation: the field times one random number per point        *)
RInterpClauses(e) ==
    LET k == e.k + 1
        n == Len(e.pts)
        f(j, d) == At(k, e.pts[j][1], e.pts[j][2], d) \div 512       \* 128 per unit
        r(j, d) == e.res[j][d] \div 512
    IN Frame(e, {}, "F02.frame")
       \cup (IF ~Known(k) \/ (\E j \in 1..n : \E d \in 1..Comps(k) : AbsV(f(j, d)) > 20000 \/ AbsV(r(j, d)) > 20000) THEN {} ELSE
             Clause("F02.random", \A j \in 1..n :
                 /\ (\A d \in 1..Comps(k) : AbsV(At(k, e.pts[j][1], e.pts[j][2], d)) <= 8) => \A d \in 1..Comps(k) : AbsV(e.res[j][d]) <= 100
                 /\ \A d, q \in 1..Comps(k) : AbsV(r(j, d) * f(j, q) - r(j, q) * f(j, d)) <= 4 * (4 + AbsV(f(j, d)) + AbsV(f(j, q)) + AbsV(r(j, d)) + AbsV(r(j, q)))))
       \cup Clause("F02.extent", \A j \in (n + 1)..Len(e.res) : \A d \in 1..Comps(k) : e.res[j][d] = Fill)

(* ---------------------------------------------------------- creation ---- *)
(* x scaled by XS per vertex unit lies in the closed cell                   *)
NearInside(c, x) == \A k \in 1..(m.dim + 1) :
    LET n == geo[c + 1][k].n IN Dot(n, x) * U <= geo[c + 1][k].c * XS + 2 * U * SumOver(Len(n), LAMBDA j : AbsV(n[j]))
MaxwClauses(e) ==
    LET n == Len(e.cells) * e.npc
        cell(j) == e.cells[((j - 1) \div e.npc) + 1]
        fl(u) == IF u = 500 THEN 2 ELSE 0
        T == e.T4
        tr == IF e.track = 1 THEN SelectSeq(e.new, LAMBDA p : p.fl = 2) ELSE <<>>
    IN Clause("C03.frame", e.frame = 1)
       \cup (IF Len(e.new) # n THEN {"C03.count"} ELSE
         Clause("C03.count", \A j \in 1..n : e.new[j].c = cell(j))
         \cup Clause("C03.uid", e.uid1 = e.uid0 + n /\ \A j \in 1..n : e.new[j].uid = e.uid0 + j - 1)
         \cup Clause("C03.inside", \A j \in 1..n : NearInside(cell(j), e.new[j].x) /\ (((j - 1) % e.npc = 0) => e.new[j].m = Mid(cell(j))))
         \cup Clause("C03.spread", \A j \in 1..n : ((j - 1) % e.npc > 1) => e.new[j].x # e.new[j - 1].x)
         \cup Clause("C03.weight", \A j \in 1..n : e.new[j].w = CellVol(cell(j) + 1))
         \cup Clause("C03.state", \A j \in 1..n : e.new[j].x0 = e.new[j].x /\ e.new[j].n = 0 /\ e.new[j].fl = fl(e.new[j].uid))
         \cup Clause("C03.drift", \A j \in 1..n : \A d \in 1..m.dim :
                IF T = 0 THEN e.new[j].u[d] = e.dr[d] * XS
                ELSE AbsV(e.new[j].u[d] - e.dr[d] * XS) <= 3 * T * XS)
         \cup (IF T = 0 \/ n < 100 THEN {} ELSE
               Clause("C03.thermal", \A d \in 1..m.dim :
                  LET ss == SumOver(Min2(n, 400), LAMBDA j : LET b == (e.new[j].u[d] - e.dr[d] * XS) \div (T * 16) IN b * b)   \* 64 per thermal speed
                      nn == Min2(n, 400)
                  IN 3 * ss >= nn * 64 * 64 /\ ss <= nn * 64 * 64 * 3))
         \cup Clause("C03.traj", Len(e.traj) = Len(tr) /\ \A j \in 1..Len(e.traj) :
                LET t == e.traj[j] p == tr[j] IN
                /\ t.uid = p.uid /\ t.cur = p.uid /\ t.len = 1 /\ t.s = e.step /\ t.t2 = e.step
                /\ t.x = p.x /\ t.u = p.u
                /\ e.charged = 1 => /\ t.E = [d \in 1..m.dim |-> IF e.neg = -1 THEN 0 ELSE -F[1][p.c * m.dim + d]]
                                    /\ t.Ex = [d \in 1..m.dim |-> IF e.ext = -1 THEN 0 ELSE F[2][p.c * m.dim + d]]))

InitClauses(e) ==
    LET badAt == {j \in 1..Len(e.want) : e.want[j][1] = "bad"}
        stop  == IF badAt = {} THEN Len(e.want) ELSE (CHOOSE j \in badAt : \A q \in badAt : j <= q) - 1
    IN Clause("C04.unknown", (e.err = 1) <=> (badAt # {}))
       \cup Clause("C04.order", Len(e.calls) = stop /\ \A j \in 1..Min2(Len(e.calls), stop) : e.calls[j].k = e.want[j][1] /\ e.calls[j].s = e.want[j][2])
       \cup Clause("C04.args", \A j \in 1..Len(e.calls) : e.calls[j].ok = 1)

TInit == i = 1 /\ m = [dim |-> 0] /\ geo = <<>> /\ F = <<>> /\ kinds = <<>> /\ bad = {}
TNext ==
  /\ i <= Len(Lines)
  /\ i' = i + 1
  /\ LET e == Lines[i] IN
     CASE e.ev = "mesh" -> m' = e /\ geo' = Geo(e) /\ F' = <<>> /\ kinds' = <<>> /\ UNCHANGED bad
       [] e.ev = "fields" -> kinds' = e.kinds /\ F' = e.obs /\ UNCHANGED <<m, geo, bad>>
       [] e.ev = "cfields" -> kinds' = <<"dv", "dv">> /\ F' = e.obs /\ UNCHANGED <<m, geo, bad>>
       [] OTHER ->
          /\ UNCHANGED <<m, geo, kinds>>
          /\ F' = IF Has(e, "obs") THEN e.obs ELSE F
          /\ bad' = AddBad(bad, CASE e.ev = "crash" -> {"crash"}
                                  [] e.ev = "set" -> SetClauses(e)
                                  [] e.ev = "mul" -> MulClauses(e)
                                  [] e.ev = "setg" -> SetgClauses(e)
                                  [] e.ev = "mulg" -> MulgClauses(e)
                                  [] e.ev = "madd" -> MaddClauses(e)
                                  [] e.ev = "dep" -> DepClauses(e)
                                  [] e.ev = "addw" -> AddwClauses(e)
                                  [] e.ev = "div" -> DivClauses(e)
                                  [] e.ev = "charge" -> ChargeClauses(e)
                                  [] e.ev = "interp" -> InterpClauses(e)
                                  [] e.ev = "rinterp" -> RInterpClauses(e)
                                  [] e.ev = "maxw" -> MaxwClauses(e)
                                  [] e.ev = "init" -> InitClauses(e)
                                  [] OTHER -> {"undefined"}, i)
TSpec == TInit /\ [][TNext]_tvars
Verdict == i = Len(Lines) + 1 => Report(bad)
Done == TLCGet("stats").diameter = Len(Lines) + 1
=============================================================================
