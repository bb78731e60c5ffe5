------------------------------ MODULE TraceLib ------------------------------
(***************************************************************************)
(* Shared by the trace specifications.  A trace is a file of JSON objects, *)
(* one per line, written by a driver that ran the real code.  A trace      *)
(* specification is deterministic: it computes from the inputs what the    *)
(* specification requires, compares that with every logged observable and  *)
(* collects the names of the clauses that fail, so the verdict is total.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

TraceFile == IOEnv.TRACE
Lines == ndJsonDeserialize(TraceFile)

(* A clause: its name is reported when it does not hold.                   *)
Clause(name, holds) == IF holds THEN {} ELSE {name}
UnionAll(S) == UNION S

AbsV(a) == IF a < 0 THEN -a ELSE a
Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b

(* |x - y| <= tol, for logged (scaled, rounded) integers                   *)
Near(x, y, tol) == AbsV(x - y) <= tol
(* x = num/den scaled by k, within tol (den > 0)                           *)
NearRat(x, num, den, k, tol) == AbsV(x * den - num * k) <= tol * den

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

Has(e, f) == f \in DOMAIN e

MaxReports == 60
AddBad(bad, names, line) ==
    IF Cardinality(bad) >= MaxReports THEN bad
    ELSE bad \cup {[clause |-> n, line |-> line] : n \in names}
Report(bad) == PrintT("VERDICT " \o ToJson(bad))
=============================================================================
