------------------------------- MODULE DuoMC -------------------------------
EXTENDS Duo
CONSTANT Length
Ops == {[op |-> "make", v |-> 0], [op |-> "put", v |-> 1], [op |-> "add", v |-> 2], [op |-> "get", v |-> 0]}
MCScripts == {<<[op |-> "make", v |-> 0]>> \o p : p \in [1..Length -> Ops]}
=============================================================================
