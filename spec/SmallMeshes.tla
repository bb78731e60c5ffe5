---------------------------- MODULE SmallMeshes ----------------------------
(***************************************************************************)
(* Small meshes of a box, for the design models.                           *)
(***************************************************************************)
EXTENDS Geometry

Mesh(i) ==
  CASE i = 1 -> [dim |-> 1, verts |-> <<<<0>>, <<1>>, <<3>>>>, cells |-> <<<<0, 1>>, <<2, 1>>>>, hi |-> <<3>>]
    [] i = 2 -> [dim |-> 2, verts |-> <<<<0, 0>>, <<1, 0>>, <<1, 1>>, <<0, 1>>>>, cells |-> <<<<0, 1, 2>>, <<0, 2, 3>>>>, hi |-> <<1, 1>>]
    [] i = 3 -> [dim |-> 2, verts |-> <<<<0, 0>>, <<1, 0>>, <<1, 1>>, <<0, 1>>>>, cells |-> <<<<0, 1, 3>>, <<1, 2, 3>>>>, hi |-> <<1, 1>>]
    [] i = 4 -> [dim |-> 2, verts |-> <<<<0, 0>>, <<2, 0>>, <<2, 2>>, <<0, 2>>, <<1, 1>>>>,
                 cells |-> <<<<0, 1, 4>>, <<1, 2, 4>>, <<2, 3, 4>>, <<3, 0, 4>>>>, hi |-> <<2, 2>>]
    [] i = 5 -> [dim |-> 2, verts |-> <<<<0, 0>>, <<1, 0>>, <<2, 0>>, <<0, 1>>, <<1, 1>>, <<2, 1>>>>,
                 cells |-> <<<<0, 1, 4>>, <<0, 4, 3>>, <<1, 2, 4>>, <<2, 5, 4>>>>, hi |-> <<2, 1>>]
    [] i = 7 -> [dim |-> 1, verts |-> <<<<4>>, <<0>>, <<1>>, <<2>>>>, cells |-> <<<<1, 2>>, <<0, 3>>, <<2, 3>>>>, hi |-> <<4>>]
    [] i = 8 -> [dim |-> 2, verts |-> <<<<0, 0>>, <<3, 0>>, <<3, 2>>, <<0, 2>>, <<1, 1>>, <<2, 1>>>>,
                 cells |-> <<<<0, 1, 5>>, <<1, 2, 5>>, <<2, 3, 4>>, <<3, 0, 4>>, <<0, 4, 5>>, <<2, 4, 5>>>>, hi |-> <<3, 2>>]
    [] i = 9 -> [dim |-> 3,
                 verts |-> <<<<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>, <<1, 1, 0>>, <<0, 0, 1>>, <<1, 0, 1>>, <<0, 1, 1>>, <<1, 1, 1>>>>,
                 cells |-> <<<<0, 3, 5, 6>>, <<1, 0, 3, 5>>, <<2, 0, 3, 6>>, <<4, 0, 5, 6>>, <<7, 3, 5, 6>>>>, hi |-> <<1, 1, 1>>]
    [] OTHER -> [dim |-> 3,
                 verts |-> <<<<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>, <<1, 1, 0>>, <<0, 0, 1>>, <<1, 0, 1>>, <<0, 1, 1>>, <<1, 1, 1>>>>,
                 cells |-> <<<<0, 1, 3, 7>>, <<0, 1, 5, 7>>, <<0, 2, 3, 7>>, <<0, 2, 6, 7>>, <<0, 4, 5, 7>>, <<0, 4, 6, 7>>>>, hi |-> <<1, 1, 1>>]

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o Sorted(S \ {x})
WithFacets(m) == LET fs == UNION {{SetOf(Without(m.cells[c], k)) : k \in 1..(m.dim + 1)} : c \in 1..Len(m.cells)}
                     q  == SeqOf(fs)
                 IN [dim |-> m.dim, verts |-> m.verts, cells |-> m.cells, hi |-> m.hi, sph |-> 0, facets |-> [j \in 1..Len(q) |-> Sorted(q[j])]]
(* side of a facet: 2a-1 at x[a] = 0, 2a at x[a] = hi[a], 0 inside         *)
SideOf(m, f) == LET vs == {m.verts[v + 1] : v \in SetOf(m.facets[f])}
                    at == {a \in 1..m.dim : \A v \in vs : v[a] = 0}
                    to == {a \in 1..m.dim : \A v \in vs : v[a] = m.hi[a]}
                IN IF at # {} THEN 2 * (CHOOSE a \in at : TRUE) - 1
                   ELSE IF to # {} THEN 2 * (CHOOSE a \in to : TRUE) ELSE 0
=============================================================================
