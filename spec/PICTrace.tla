------------------------------- MODULE PICTrace ------------------------------
(***************************************************************************)
(* Validates self-consistent runs (harness/drv_pic.py).  The state s is    *)
(* everything the parts exchange: particles, densities per species, charge, *)
(* potential and field.  Every event is one part at work: what it produces *)
(* must follow from the state, and the rest of the state must stay.        *)
(*                                                                         *)
(* Values are real numbers scaled and rounded; the tolerances are what the *)
(* rounding explains.                                                      *)
(***************************************************************************)
EXTENDS TraceLib, PIC

VARIABLES i, s, bad
tvars == <<i, m, geo, s, bad>>

FSC == 256
PS == 16384
WS == 8

NS == Len(m.sp)
Frame(e, keep) == Clause("P01.frame", \A k \in keep : e.obs[k] = s[k])
ALL == {"sp", "nd", "nc", "q", "phi", "E"}

(* the cell a particle says it is in holds it                               *)
Holds(c, x, tol) == c \in 0..(NC - 1) /\ \A k \in 1..(m.dim + 1) :
    LET n == geo[c + 1][k].n IN Dot(n, x) <= geo[c + 1][k].c + tol * SumOver(Len(n), LAMBDA d : AbsV(n[d]))

(* ------------------------------------------------------------ deposit --- *)
AccClauses(e) ==
    LET t == e.s + 1
        l == s.sp[t]
        P == Parts(l)
        w1 == TotalW(P)
        tol == 2 + Len(l) + (FSC * w1) \div 1024         \* positions are rounded
    IN Frame(e, ALL \ {"nd", "nc"})
       \cup Clause("P01.frame", \A o \in 1..NS : o # t => e.obs.nd[o] = s.nd[o] /\ e.obs.nc[o] = s.nc[o])
       \cup Clause("P01.density", \A v \in 1..NV : AbsV(e.obs.nd[t][v] - s.nd[t][v] - Deposit(FSC, P, v - 1)) <= tol)
       \cup Clause("P01.total", AbsV(SumSeq(e.obs.nd[t]) - SumSeq(s.nd[t]) - FSC * w1) <= 2 + NV)
       \cup Clause("P01.cells", \A c \in 1..NC :
             LET want == s.nc[t][c] + FSC * Weight(P, c - 1) IN
             AbsV(e.obs.nc[t][c]) <= AbsV(want) \div CellVol(c) + 4 /\ AbsV(e.obs.nc[t][c] * CellVol(c) - want) <= 2 + CellVol(c))
(* charges are multiples of 1/4: q4 = 4 times the charge; q is per half unit *)
SumClauses(e) ==
    LET t == e.s + 1
        q4 == m.sp[t].qm * m.sp[t].m2 * 2
    IN Frame(e, ALL \ {"q"})
       \cup Clause("P01.charge", \A v \in 1..NV : AbsV(2 * (e.obs.q[v] - s.q[v]) - q4 * s.nd[t][v]) <= 4 + 2 * AbsV(q4))

(* -------------------------------------------------------------- solve --- *)
Tol(v) == SumSet(At(v), LAMBDA p : 2 + SumOver(m.dim + 1, LAMBDA j : 2 + AbsV(ANum(p[1], p[2], j)) \div ADen(p[1], p[2], j)))
Fixed == {m.dir[n][1] : n \in 1..Len(m.dir)}
PerQ == PS \div (2 * FSC * WS)                \* units of the potential's scale per unit of logged charge
SolveClauses(e, q) ==
    IF Len(e.obs.phi) # NV \/ \E v \in 1..NV : AbsV(e.obs.phi[v]) > 20000000 THEN {"P01.potential"} ELSE
    Clause("P01.boundary", \A n \in 1..Len(m.dir) : e.obs.phi[m.dir[n][1] + 1] = PS * m.dir[n][2])
    \cup Clause("P01.potential", \A v \in 0..(NV - 1) : v \in Fixed \/
            AbsV(Lhs(e.obs.phi, v) - (PerQ * q[v + 1]) \div m.fd) <= Tol(v) + 2 + PerQ)
    \cup Clause("P01.field", \A c \in 1..NC : \A d \in 1..m.dim :
            AbsV(e.obs.E[c][d] - Grad(e.obs.phi, c, d)) <= 2 + SumOver(m.dim + 1, LAMBDA k : 2 + AbsV(N(c, k)[d]) \div D(c, k)))
    \* the charge handed in is left alone, or scaled (to nothing, in these units)
    \cup Clause("P01.frame", e.obs.q = s.q \/ \A v \in 1..NV : AbsV(e.obs.q[v]) <= 1)

(* -------------------------------------------------------------- push ---- *)
Find(l, uid) == {j \in 1..Len(l) : l[j][1] = uid}
Eps == 6
PushOne(t, p, new) ==
    LET qm == m.sp[t].qm
        acc == [d \in 1..m.dim |-> (2 * qm * (m.Ex[p[4] + 1][d] - s.E[p[4] + 1][d])) \div m.kd]
        w1 == IF m.sp[t].ch = 1 THEN VAdd(p[3], acc) ELSE p[3]
        r == Moved(p[2], w1, m.box, m.kinds[t], Eps)
        f == Find(new, p[1])
        n == new[CHOOSE j \in f : TRUE]
    IN IF r.st = "near" THEN {}
       ELSE IF r.st = "out" THEN Clause("P01.absorbed", f = {})
       ELSE IF Cardinality(f) # 1 THEN {"P01.lost"}
       ELSE Clause("P01.velocity", \A d \in 1..m.dim : AbsV(n[3][d] - r.w[d]) <= 3)
            \cup Clause("P01.position", \A d \in 1..m.dim : AbsV(n[2][d] - r.x[d]) <= 5)
            \cup Clause("P01.cell", Holds(n[4], n[2], 2))
            \cup Clause("P01.particle", n[5] = p[5] /\ n[6] = p[6])
AdvClauses(e) ==
    Frame(e, ALL \ {"sp"})
    \cup UNION {IF m.sp[t].ch # e.ch THEN Clause("P01.frame", e.obs.sp[t] = s.sp[t])
                ELSE Clause("P01.nothing", \A j \in 1..Len(e.obs.sp[t]) : Find(s.sp[t], e.obs.sp[t][j][1]) # {} /\ Cardinality(Find(e.obs.sp[t], e.obs.sp[t][j][1])) = 1)
                     \cup UNION {PushOne(t, s.sp[t][j], e.obs.sp[t]) : j \in 1..Len(s.sp[t])} : t \in 1..NS}

(* ---------------------------------------------------- new particles ----- *)
SrcClauses(e) ==
    LET t == e.src[1] + 1
        old == Len(s.sp[t])
        n == IF e.step % e.src[3] = 0 THEN NC * e.src[2] ELSE 0
        new == SubSeq(e.obs.sp[t], old + 1, Len(e.obs.sp[t]))
    IN Frame(e, ALL \ {"sp"})
       \cup Clause("P01.frame", \A o \in 1..NS : IF o # t THEN e.obs.sp[o] = s.sp[o] ELSE SubSeq(e.obs.sp[o], 1, old) = s.sp[o])
       \cup Clause("P01.source", /\ Len(new) = n
                                 /\ \A j \in 1..Len(new) : Holds(new[j][4], new[j][2], 2) /\ 2 * new[j][5] = WS * e.src[4] * CellVol(new[j][4] + 1)
                                 /\ \A c \in 0..(NC - 1) : n = 0 \/ Cardinality({j \in 1..Len(new) : new[j][4] = c}) = e.src[2]
                                 /\ \A j, k \in 1..Len(e.obs.sp[t]) : j # k => e.obs.sp[t][j][1] # e.obs.sp[t][k][1])
InitClauses(e) == Clause("P01.cell", \A t \in 1..NS : \A j \in 1..Len(e.obs.sp[t]) : Holds(e.obs.sp[t][j][4], e.obs.sp[t][j][2], 2))
ZeroClauses(e) == Frame(e, {"sp", "phi", "E"})
                  \cup Clause("P01.zero", \A v \in 1..NV : e.obs.q[v] = 0 /\ \A t \in 1..NS : e.obs.nd[t][v] = 0)
                  \cup Clause("P01.zero", \A c \in 1..NC : \A t \in 1..NS : e.obs.nc[t][c] = 0)

TInit == i = 1 /\ m = [dim |-> 0] /\ geo = <<>> /\ s = <<>> /\ bad = {}
TNext ==
  /\ i <= Len(Lines)
  /\ i' = i + 1
  /\ LET e == Lines[i] IN
     CASE e.ev = "mesh" -> m' = e /\ geo' = Geo(e) /\ s' = <<>> /\ UNCHANGED bad
       [] OTHER ->
          /\ UNCHANGED <<m, geo>>
          /\ s' = IF Has(e, "obs") THEN e.obs ELSE s
          /\ bad' = AddBad(bad, CASE e.ev = "crash" -> {"crash"}
                                  [] e.ev = "init" -> InitClauses(e)
                                  [] e.ev = "vacuum" -> Frame(e, ALL \ {"phi", "E"}) \cup SolveClauses(e, [v \in 1..NV |-> 0])
                                  [] e.ev = "zero" -> ZeroClauses(e)
                                  [] e.ev = "acc" -> AccClauses(e)
                                  [] e.ev = "sum" -> SumClauses(e)
                                  [] e.ev = "solve" -> Frame(e, {"sp", "nd", "nc"}) \cup SolveClauses(e, s.q)
                                  [] e.ev = "adv" -> AdvClauses(e)
                                  [] e.ev = "src" -> SrcClauses(e)
                                  [] OTHER -> {"undefined"}, i)
TSpec == TInit /\ [][TNext]_tvars
Verdict == i = Len(Lines) + 1 => Report(bad)
Done == TLCGet("stats").diameter = Len(Lines) + 1
=============================================================================
