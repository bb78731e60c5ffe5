------------------------------ MODULE SolveTrace -----------------------------
(***************************************************************************)
(* Validates the Poisson solvers and the user mesh classes                 *)
(* (harness/drv_solve.py).                                                 *)
(*                                                                         *)
(* Solving: on a simplex mesh with integer vertices the finite-element     *)
(* equations have rational coefficients, computed here from the vertices.  *)
(* The state is the right-hand side in force: a source density linear in   *)
(* the coordinates (src), or a charge per vertex (chg).  A solve must      *)
(* leave a potential that takes the given values on the boundaries that    *)
(* have one and satisfies the equation of every other vertex, and the      *)
(* field of each cell must be its gradient.  The potential is logged       *)
(* scaled by PS and rounded; the tolerance is what the rounding explains.  *)
(*                                                                         *)
(* User meshes: the vertices of a mesh are the points of a grid, given by  *)
(* doubled grid indices, and facets carry the tag of the side they lie on. *)
(***************************************************************************)
EXTENDS TraceLib, Poisson

VARIABLES i, rhs, um, bad
tvars == <<i, m, geo, rhs, um, bad>>

PS == 1024
Tol(v) == SumSet(At(v), LAMBDA p : 2 + SumOver(m.dim + 1, LAMBDA j : 2 + AbsV(ANum(p[1], p[2], j)) \div ADen(p[1], p[2], j)))
Rhs(r, v) == IF r.kind = "src" THEN Source(PS, r.s, v) ELSE r.q[v + 1]

Fixed == {m.dir[n][1] : n \in 1..Len(m.dir)}
SolveClauses(e, r) ==
    IF Len(e.phi) # NV \/ \E v \in 1..NV : AbsV(e.phi[v]) > 100000000 THEN {"F01.potential"} ELSE
    Clause("F01.boundary", \A n \in 1..Len(m.dir) : e.phi[m.dir[n][1] + 1] = PS * m.dir[n][2])
    \cup Clause("F01.equation", \A v \in 0..(NV - 1) : v \in Fixed \/ AbsV(Lhs(e.phi, v) - Rhs(r, v)) <= Tol(v))
    \cup (IF m.E = 0 THEN {} ELSE
          Clause("F01.field", Len(e.E) = NC /\ \A c \in 1..NC : Len(e.E[c]) = m.dim /\ \A d \in 1..m.dim :
             AbsV(e.E[c][d] - Grad(e.phi, c, d))
                <= 2 + SumOver(m.dim + 1, LAMBDA k : 2 + AbsV(N(c, k)[d]) \div D(c, k))))
    \cup Clause("F01.alias", e.alias = 1)
    (* the charge handed in is left as it was, or multiplied by the factor  *)
    \cup Clause("F01.charge", \A n \in 1..Len(e.Q) : \/ e.after[n] = e.Q[n]
                                                    \/ (n = e.j + 1 /\ \A v \in 1..NV : 2 * e.after[n][v] = e.fac * e.Q[n][v]))
NewRhs(e) == IF e.j = -1 THEN rhs ELSE [kind |-> "chg", s |-> <<>>, q |-> [v \in 1..NV |-> (e.fac * e.Q[e.j + 1][v]) \div 2]]

(* ------------------------------------------------------- user meshes ---- *)
(* Doubled grid index of coordinate x in direction d of mesh e; -1: none   *)
Idx(e, d, x) ==
    IF e.kind = "box" THEN LET y == x - 2 * e.lo[d] IN IF y >= 0 /\ y % e.st[d] = 0 THEN y \div e.st[d] ELSE -1
    ELSE IF d = 2 THEN x
    ELSE LET c == {k \in 0..(2 * e.n[1]) : e.lo[1] + e.st[1] * Pow(k, e.s) = x} IN IF c = {} THEN -1 ELSE CHOOSE k \in c : TRUE
Grid(e) == [v \in 1..Len(e.verts) |-> [d \in 1..e.dim |-> Idx(e, d, e.verts[v][d])]]
IsCorner(e, g) == \A d \in 1..e.dim : g[d] \in 0..(2 * e.n[d]) /\ g[d] % 2 = 0
IsCentre(e, g) == \A d \in 1..e.dim : g[d] \in 0..(2 * e.n[d]) /\ g[d] % 2 = 1
Prod(n, f(_)) == LET RECURSIVE G(_) G(j) == IF j = 0 THEN 1 ELSE f(j) * G(j - 1) IN G(n)
Tags(e, dict, dims) ==         \* tag of each facet
    LET g == Grid(e)
        uses == [f \in 1..Len(e.facets) |-> Cardinality({c \in 1..Len(e.cells) : SetOf(e.facets[f]) \subseteq SetOf(e.cells[c])})]
        on(f, d, k) == uses[f] = 1 /\ \A v \in SetOf(e.facets[f]) : g[v + 1][d] = k
    IN [f \in 1..Len(e.facets) |->
          LET c == {n \in 1..(2 * dims) : on(f, (n + 1) \div 2, IF n % 2 = 1 THEN 0 ELSE 2 * e.n[(n + 1) \div 2])} IN
          IF c = {} THEN 0 ELSE dict[CHOOSE n \in c : TRUE]]
UMeshClauses(e) ==
    LET g == Grid(e)
        gm == [dim |-> e.dim, verts |-> g, cells |-> e.cells, facets |-> e.facets]
        corners == Prod(e.dim, LAMBDA d : e.n[d] + 1)
        boxes == Prod(e.dim, LAMBDA d : e.n[d])
        crossed == e.diag = "crossed"
        percell == CASE e.dim = 1 -> 1 [] e.dim = 2 -> (IF crossed THEN 4 ELSE 2) [] OTHER -> 6
        okv == \A v \in 1..Len(g) : IsCorner(e, g[v]) \/ (crossed /\ IsCentre(e, g[v]))
        diags == {f \in 1..Len(e.facets) : Len(e.facets[f]) = 2 /\ e.dim = 2 /\ \A d \in 1..2 : g[e.facets[f][1] + 1][d] # g[e.facets[f][2] + 1][d]}
        slope(f) == (g[e.facets[f][2] + 1][1] - g[e.facets[f][1] + 1][1]) * (g[e.facets[f][2] + 1][2] - g[e.facets[f][1] + 1][2])
    IN Clause("G04.vertices", okv /\ Cardinality(SetOf(g)) = Len(g) /\ Len(g) = corners + (IF crossed THEN boxes ELSE 0))
       \cup (IF ~okv THEN {} ELSE
         Clause("G04.cells", /\ Len(e.cells) = percell * boxes
                             /\ \A c \in 1..Len(e.cells) : /\ Vol(gm, c) > 0
                                                           /\ \A d \in 1..e.dim : \A a, b \in SetOf(e.cells[c]) : AbsV(g[a + 1][d] - g[b + 1][d]) <= 2
                             /\ SumOver(Len(e.cells), LAMBDA c : Vol(gm, c)) = (IF e.dim = 3 THEN 6 ELSE e.dim) * Prod(e.dim, LAMBDA d : 2 * e.n[d]))
         \cup Clause("G04.diagonal", CASE e.diag \in {"right", "none"} -> \A f \in diags : slope(f) > 0
                                       [] e.diag = "left" -> \A f \in diags : slope(f) < 0
                                       [] OTHER -> TRUE)
         \cup Clause("G04.fieldmarks", IF e.fd = <<>> THEN \A f \in 1..Len(e.fm) : e.fm[f] = 0 ELSE e.fm = Tags(e, e.fd, 1))
         \cup Clause("G04.particlemarks", IF e.pd = <<>> THEN \A f \in 1..Len(e.pm) : e.pm[f] = 0 ELSE e.pm = Tags(e, e.pd, e.dim)))
       \cup Clause("G04.names", e.kept = 1)

(* read back from files: the same vertices and cells, and the same tag on  *)
(* the same facet                                                          *)
Marks(e, k) == {<<SetOf(e.facets[f]), k[f]>> : f \in 1..Len(k)}
UFileClauses(e) ==
    Clause("G04.file", e.verts = um.verts /\ e.cells = um.cells)
    \cup Clause("G04.filemarks", /\ e.pf = 1 => Marks(e, e.fm) = Marks(um, um.fm)
                                 /\ e.pp = 1 => Marks(e, e.pm) = Marks(um, um.pm))
    \cup Clause("G04.names", e.kept = 1)

TInit == i = 1 /\ m = [dim |-> 0] /\ geo = <<>> /\ rhs = <<>> /\ um = <<>> /\ bad = {}
TNext ==
  /\ i <= Len(Lines)
  /\ i' = i + 1
  /\ LET e == Lines[i] IN
     CASE e.ev = "mesh" -> m' = e /\ geo' = Geo(e) /\ rhs' = [kind |-> "src", s |-> [d \in 1..(e.dim + 1) |-> 0], q |-> <<>>] /\ UNCHANGED <<um, bad>>
       [] e.ev = "src" -> rhs' = [kind |-> "src", s |-> e.c, q |-> <<>>] /\ UNCHANGED <<m, geo, um, bad>>
       [] e.ev = "solve" -> /\ rhs' = NewRhs(e)
                            /\ bad' = AddBad(bad, SolveClauses(e, NewRhs(e)), i)
                            /\ UNCHANGED <<m, geo, um>>
       [] OTHER -> /\ um' = IF e.ev = "umesh" THEN e ELSE um
                   /\ bad' = AddBad(bad, CASE e.ev = "crash" -> {"crash"}
                                           [] e.ev = "umesh" -> UMeshClauses(e)
                                           [] e.ev = "ufile" -> UFileClauses(e)
                                           [] OTHER -> {"undefined"}, i)
                   /\ UNCHANGED <<m, geo, rhs>>
TSpec == TInit /\ [][TNext]_tvars
Verdict == i = Len(Lines) + 1 => Report(bad)
Done == TLCGet("stats").diameter = Len(Lines) + 1
=============================================================================
