------------------------------- MODULE MeshGen -------------------------------
(***************************************************************************)
(* The meshes, points and moves of MeshMC, written out for replay in the    *)
(* real code (harness/drv_mesh.py): every point is located, tested against  *)
(* every cell, and moved by every move out of every cell that holds it.     *)
(***************************************************************************)
EXTENDS MeshMC, Json

GInit == Init
GNext == FALSE /\ UNCHANGED vars
GSpec == GInit /\ [][GNext]_vars
Emit == PrintT("HIST " \o ToJson([dim |-> D, u |-> U, verts |-> m.verts, cells |-> m.cells, points |-> Points, moves |-> Moves]))
=============================================================================
