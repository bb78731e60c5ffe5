------------------------------ MODULE MeshTrace ------------------------------
(***************************************************************************)
(* Validates what the code reports about a mesh (harness/drv_mesh.py):     *)
(* its connectivity, normals and volumes, the cell that holds a point, the *)
(* facet a move crosses, and the cells of a region.  Everything expected   *)
(* is computed here from the integer vertices and the vertex tuples of the *)
(* cells.                                                                  *)
(***************************************************************************)
EXTENDS TraceLib, MeshState

VARIABLES i, bad
tvars == <<i, m, geo, bad>>

NS == 4096
TS == 16384

(* a logged vector (scaled by NS) is the unit vector along n               *)
UnitAlong(l, n) ==
    LET nn == Dot(n, n) IN
    /\ Len(l) >= Len(n)
    /\ \A j \in 1..Len(n) : /\ AbsV(l[j]) <= NS + 1
                            /\ (n[j] > 0 => l[j] > 0) /\ (n[j] < 0 => l[j] < 0)
                            /\ AbsV(l[j] * l[j] * nn - n[j] * n[j] * NS * NS) <= 3 * NS * nn
    /\ \A j \in (Len(n) + 1)..Len(l) : l[j] = 0

TabClauses(e) ==
    IF Len(e.cv) # NC \/ e.keys # [c \in 1..NC |-> c - 1] THEN {"G01.cells"} ELSE
    Clause("G01.cells", e.cells = [c \in 1..NC |-> c - 1])
    \cup Clause("G01.vertices", \A c \in 1..NC : e.cv[c] = m.cells[c] /\ e.cev[c] = m.cells[c])
    \cup Clause("G01.facets", \A c \in 1..NC : e.cf[c] = [k \in 1..(m.dim + 1) |-> FK(c - 1, k).f])
    \cup Clause("G01.neighbors", \A c \in 1..NC : e.nb[c] = [k \in 1..(m.dim + 1) |-> FK(c - 1, k).nb])
    \cup Clause("G01.cppneighbors", \A c \in 1..NC : e.cnb[c] = [k \in 1..(m.dim + 1) |-> FK(c - 1, k).nb])
    \cup Clause("G01.vertexcells", \A v \in 1..Len(m.verts) :
             /\ SetOf(e.vc[v]) = {c - 1 : c \in {d \in 1..NC : (v - 1) \in SetOf(m.cells[d])}}
             /\ Len(e.vc[v]) = Cardinality(SetOf(e.vc[v])))
    \cup Clause("G01.normals", \A c \in 1..NC : Len(e.nrm[c]) = m.dim + 1 /\ \A k \in 1..(m.dim + 1) :
             Len(e.nrm[c][k]) = m.dim /\ UnitAlong(e.nrm[c][k], FK(c - 1, k).n))
    \cup Clause("G01.cppnormals", \A c \in 1..NC : Len(e.cnrm[c]) = 3 * (m.dim + 1) /\ \A k \in 1..(m.dim + 1) :
             UnitAlong(SubSeq(e.cnrm[c], 3 * k - 2, 3 * k), FK(c - 1, k).n))
    \cup Clause("G01.volume", \A c \in 1..NC : e.vol[c] = CellVol(c))

(* --------------------------------------------------------- location ----- *)
LocClauses(e) ==
    Clause("G02.cell", \A j \in 1..Len(e.q) :
        LET x == e.q[j][1]
            r == e.q[j][2]
            h == Holders(x)
        IN IF h = {} THEN r = -1
           ELSE r \in h)
InClauses(e) ==
    Clause("G02.inside", \A j \in 1..Len(e.q) : (e.q[j][3] = 1) <=> Inside(geo, e.q[j][1], e.q[j][2]))
    \cup Clause("G02.cppinside", \A j \in 1..Len(e.q) : (e.q[j][4] = 1) <=> Inside(geo, e.q[j][1], e.q[j][2]))

(* ------------------------------------------------------ facet found ----- *)
FFClause(q, r) ==
    LET met == MetAt(q.c, q.x, q.w) k == r.f + 1
    IN IF r.f = -1 THEN Clause("G03.facet", PassedAt(q.c, q.x, q.w) = {}) \cup Clause("G03.fraction", r.fr = TS)
       ELSE IF r.f \notin 0..m.dim THEN {"G03.facet"}
       ELSE Clause("G03.facet", k \in FirstMet(q.c, q.x, q.w))
            \cup (IF k \in met
                  THEN Clause("G03.fraction", AbsV(r.fr * Rate(q.c, k, q.w) - ToGo(q.c, k, q.x) * TS) <= 2 * Rate(q.c, k, q.w))
                  ELSE {})
            \cup Clause("G03.normal", UnitAlong(r.n, FK(q.c, k).n))
FFClauses(e) == UNION {FFClause(e.q[j], e.q[j]) \cup (IF Has(e.q[j], "cpp") THEN FFClause(e.q[j], e.q[j].cpp) ELSE {}) : j \in 1..Len(e.q)}

(* ---------------------------------------------------------- regions ----- *)
InRegion(e, c) == e.kind = "whole" \/ InBox(e.lo, e.hi, c)
RegClauses(e) ==
    LET want == SelectSeq([c \in 1..NC |-> c - 1], LAMBDA c : InRegion(e, c)) IN
    IF want = <<>> THEN Clause("R01.empty", e.err = 1)
    ELSE IF e.err = 1 THEN {"R01.cells"}
    ELSE Clause("R01.cells", /\ Len(e.idx) = Len(want) /\ SetOf(e.idx) = SetOf(want) /\ e.n = Len(want) /\ e.lst = e.idx)
         \cup (IF SetOf(e.idx) # SetOf(want) THEN {} ELSE
               Clause("R01.midpoint", \A j \in 1..Len(e.idx) : e.mid[j] = Mid(e.idx[j]))
               \cup Clause("R01.volume", \A j \in 1..Len(e.idx) : e.vol[j] = CellVol(e.idx[j] + 1))
               \cup Clause("R01.radius", \A j \in 1..Len(e.idx) : e.reach[j] = 1)
               \cup Clause("R01.incell", \A j \in 1..Len(e.inq) : (e.inq[j][3] = 1) <=> Inside(geo, e.inq[j][1], e.inq[j][2])))

TInit == i = 1 /\ m = [dim |-> 0] /\ geo = <<>> /\ bad = {}
TNext ==
  /\ i <= Len(Lines)
  /\ i' = i + 1
  /\ LET e == Lines[i] IN
     IF e.ev = "mesh" THEN m' = e /\ geo' = Geo(e) /\ UNCHANGED bad
     ELSE /\ UNCHANGED <<m, geo>>
          /\ bad' = AddBad(bad, CASE e.ev = "crash" -> {"crash"}
                                  [] e.ev = "tab" -> TabClauses(e)
                                  [] e.ev = "loc" -> LocClauses(e)
                                  [] e.ev = "in" -> InClauses(e)
                                  [] e.ev = "ff" -> FFClauses(e)
                                  [] e.ev = "reg" -> RegClauses(e)
                                  [] OTHER -> {"undefined"}, i)
TSpec == TInit /\ [][TNext]_tvars
Verdict == i = Len(Lines) + 1 => Report(bad)
Done == TLCGet("stats").diameter = Len(Lines) + 1
=============================================================================
