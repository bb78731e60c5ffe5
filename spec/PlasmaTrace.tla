----------------------------- MODULE PlasmaTrace -----------------------------
(***************************************************************************)
(* Validates recorded simulations (harness/drv_plasma.py) of the real code *)
(* against the specification of a simulation (Plasma).                     *)
(*                                                                         *)
(* The state is what the code reported after the previous event, so each   *)
(* event is checked on its own and one failure does not hide later ones.   *)
(*                                                                         *)
(***************************************************************************)
EXTENDS TraceLib, Plasma

VARIABLES i, bad
tvars == <<i, run, geo, bcs, st, tr, last, bad, full, hrows, snaps, lastw>>

OFF == 1073741824        \* what the drivers log for a value off the lattice

NearVec(logged, num, den, scale) ==      \* logged = num/den lattice units, logged scaled by scale per vertex unit
    \A j \in 1..Len(num) : AbsV(logged[j]) < 4000000 /\ AbsV(logged[j] * den * U - num[j] * scale) <= 2 * den * U

X0Ok(s, q) == IF s.uni THEN TRUE ELSE IF s.accel THEN \A j \in 1..Len(q[4]) : Near(q[4][j], s.p[4][j], 1)
              ELSE NearVec(q[4], s.r.x0n, s.r.x0d, X0S)

(* clauses about the particles of one advanced species: old sequence p, expectations S (same length), observed q *)
ParticleClauses(e, k, S, q) ==
    LET alive == SelectSeq(S, LAMBDA s : s.r.status = "alive")
        ids   == [j \in 1..Len(alive) |-> alive[j].p[1]]
        qids  == [j \in 1..Len(q) |-> q[j][1]]
        iset  == SetOf(ids)
        qset  == SetOf(qids)
        gone  == {S[j].p[1] : j \in {n \in 1..Len(S) : S[n].r.status = "absorbed"}}
        pairs == {<<a, b>> \in (1..Len(alive)) \X (1..Len(q)) : ids[a] = qids[b]}
        same(a, b) == alive[a].p[1] = q[b][1]
        P(a, b, f(_, _)) == f(alive[a], q[b])
        All(f(_, _)) == IF qids = ids THEN \A a \in 1..Len(q) : f(alive[a], q[a])
                        ELSE \A pr \in pairs : f(alive[pr[1]], q[pr[2]])
    IN Clause("M01.lost", iset \subseteq qset)
       \cup Clause("M01.dup", Len(q) = Cardinality(qset))
       \cup Clause("M01.order", (iset = qset /\ Len(ids) = Len(qids)) => qids = ids)
       \cup Clause("M06.kept", gone \cap qset = {} /\ qset \subseteq {S[j].p[1] : j \in 1..Len(S)})
       \cup Clause("M01.weight", All(LAMBDA s, o : o[5] = s.p[5]))
       \cup Clause("M01.flags", All(LAMBDA s, o : o[6] = s.p[6]))
       \cup Clause("M02.vel", All(LAMBDA s, o : s.r.refl \/ o[3] = s.r.W))
       \cup Clause("M02.pos", All(LAMBDA s, o : s.r.refl \/ o[2] = s.r.P))
       \cup Clause("M02.x0",  All(LAMBDA s, o : X0Ok(s, o)))
       \cup Clause("M05.vel", All(LAMBDA s, o : ~s.r.refl \/ o[3] = s.r.W))
       \cup Clause("M05.pos", All(LAMBDA s, o : ~s.r.refl \/ o[2] = s.r.P))
       \cup Clause("M03.cell", All(LAMBDA s, o : o[7] = s.r.cell))
       \cup Clause("M03.inside", e.mover = "uniform" \/ \A b \in 1..Len(q) : (\A j \in 1..Len(q[b][2]) : q[b][2][j] # OFF) => Inside(geo, q[b][7], q[b][2]))
       \cup Clause("M03.cross", All(LAMBDA s, o : o[8] = s.r.n))

(* boundary-function calls, per particle                                   *)
CallOk(c, x) ==       \* c expected, x logged
    /\ x.fn = c.fn /\ x.f = c.f
CallArgs(c, x) ==
    /\ AbsV(x.fr * c.frd - c.frn * TS) <= 4 * AbsV(c.frd)
    /\ \A j \in 1..Len(c.n) : LET v == x.n[j] IN
         (c.n[j] = 0 /\ AbsV(v) <= 1) \/ (c.n[j] # 0 /\ v * c.n[j] > 0 /\ AbsV(v * v * Dot(c.n, c.n) - c.n[j] * c.n[j] * X0S * X0S) <= 2 * X0S * 8)
    /\ x.x = c.P /\ x.w = c.W
    /\ NearVec(x.x0, c.x0n, c.x0d, X0S)
    /\ NearVec(x.dx, c.dxn, c.dxd, X0S)
CallClauses(e, k, S) ==
    IF e.logged = 0 THEN {} ELSE
    LET mine == SelectSeq(e.calls, LAMBDA c : c.sp = run.sp[k].name)
        Of(u) == SelectSeq(mine, LAMBDA c : c.uid = u)
        good(s) == LET l == Of(s.p[1]) IN Len(l) = Len(s.r.calls) /\ \A j \in 1..Len(l) : CallOk(s.r.calls[j], l[j])
        args(s) == LET l == Of(s.p[1]) IN
                   (Len(l) = Len(s.r.calls) /\ \A j \in 1..Len(l) : CallOk(s.r.calls[j], l[j])) => \A j \in 1..Len(l) : CallArgs(s.r.calls[j], l[j])
    IN Clause("M04.calls", (\A j \in 1..Len(S) : good(S[j])) /\ \A j \in 1..Len(mine) : \E n \in 1..Len(S) : S[n].p[1] = mine[j].uid)
       \cup Clause("M04.args", \A j \in 1..Len(S) : args(S[j]))

(* ------------------------------------------------------- trajectories --- *)
NearT(t, num, den) == AbsV(t) < 8 * TS /\ AbsV(t * den - num * TS) <= 4 * den
RecOk(e, k, x, ex) ==      \* x logged, ex expected
    Clause("T02.step", x.s = ex.s /\ NearT(x.t, ex.tn, ex.td))
    \cup Clause("T02.pos", NearVec(x.x, ex.xn, ex.xd, X0S))
    \cup Clause("T02.vel", x.w = ex.w)
    \cup Clause("T01.uid", x.uid = ex.uid)
    \cup (IF run.sp[k].ch = 1 THEN Clause("T02.E", x.E = ex.E /\ x.Ex = ex.Ex) ELSE {})

TrajCompare(e, k, t, o, g) ==     \* t before, o after, g what happens to it
    Clause("T02.len", o.len = t.len + Len(g.recs) /\ Len(o.recs) = Len(g.recs))
    \cup Clause("T01.current", o.cur = g.cur)
    \cup Clause("T01.uid", o.uid = t.uid)
    \cup (IF Len(o.recs) = Len(g.recs) THEN UNION {RecOk(e, k, o.recs[j], g.recs[j]) : j \in 1..Len(g.recs)} ELSE {})

TrajAdvClauses(e, k, S, told, tnew) ==
    IF Len(told) # Len(tnew) THEN {"T01.count"} ELSE
    UNION {TrajCompare(e, k, told[j], tnew[j], TrajAdv(e, k, S, told[j])) : j \in 1..Len(told)}

(* recording the positions of all tracked particles                        *)
RecClauses(e, k) ==
    IF Len(tr[k]) # Len(e.obs.tr[k]) THEN {"T01.count"} ELSE
    UNION {TrajCompare(e, k, tr[k][j], e.obs.tr[k][j], TrajRec(e, k, tr[k][j])) : j \in 1..Len(tr[k])}

(* ------------------------------------------------------------- events --- *)
Unchanged(k, o, name) == Clause(name, o.sp[k] = st[k])
TrajUnchanged(k, o, name) == Clause(name, Len(o.tr[k]) = Len(tr[k]) /\ \A j \in 1..Len(tr[k]) :
    o.tr[k][j].len = tr[k][j].len /\ o.tr[k][j].cur = tr[k][j].cur /\ o.tr[k][j].uid = tr[k][j].uid)

AdvClauses(e) ==
    UNION {IF Moved(e, k) /\ st[k] # <<>>
           THEN LET S == [j \in 1..Len(st[k]) |-> Step(e, k, st[k][j])] IN
                ParticleClauses(e, k, S, e.obs.sp[k])
                \cup CallClauses(e, k, S)
                \cup TrajAdvClauses(e, k, S, tr[k], e.obs.tr[k])
           ELSE Unchanged(k, e.obs, "M01.other") \cup TrajUnchanged(k, e.obs, "T01.other")
           : k \in 1..NSp}

(* A move with more facet crossings than allowed, or out of the mesh where  *)
(* no boundary function takes care of the particle, stops the run.         *)
LimitClauses(e) ==
    LET ends(k, p) == LET r == Step(e, k, p).r IN r.n > e.max \/ r.status = "stuck"
        stop == \E k \in {n \in 1..NSp : Moved(e, n)} : \E j \in 1..Len(st[k]) : ends(k, st[k][j])
    IN Clause("M07.stop", e.out = IF stop THEN "stopped" ELSE "completed")

CreateClauses(e) ==       \* the listed particles come after those there are, and so do their trajectories
    UNION {Clause("C02.listed", e.obs.sp[k] = st[k] \o e.lists[k])
           \cup (LET o == e.obs.tr[k]
                     n == tr[k] \o NewTr(e.lists[k])
                 IN Clause("C02.traj", Len(o) = Len(n) /\ \A j \in 1..Len(o) :
                              o[j].uid = n[j].uid /\ o[j].cur = n[j].cur /\ o[j].len = n[j].len))
           : k \in 1..NSp}

LocateClauses(e) ==
    UNION {Clause("G02.cell", Len(e.obs.sp[k]) = Len(st[k]) /\ \A j \in 1..Len(st[k]) : e.obs.sp[k][j] = st[k][j])
           : k \in 1..NSp}

SrcClauses(e) ==
    LET due == Due(e)
        added(k) == LET mine == SelectSeq(e.calls, LAMBDA c : c.sp = k - 1)
                    IN [n \in 1..Len(mine) |-> mine[n].add]
        Flat(ss) == LET RECURSIVE F(_) F(x) == IF x = <<>> THEN <<>> ELSE Head(x) \o F(Tail(x)) IN F(ss)
    IN Clause("C01.due", [n \in 1..Len(e.calls) |-> e.calls[n].src] = due)
       \cup Clause("C01.args", \A n \in 1..Len(e.calls) : LET c == e.calls[n] IN
               c.step = e.step /\ Near(c.t, 0, 2) /\ c.reg = c.src % 2 /\ c.par = 1 /\ c.neg = 1)
       \cup UNION {Clause("C01.frame", e.obs.sp[k] = st[k] \o Flat(added(k))) \cup TrajUnchanged(k, e.obs, "T01.other") : k \in 1..NSp}

(* ------------------------------------------------ histories, output --- *)
RowOk(x, r) ==
    /\ x.s = r.s /\ x.t = r.t
    /\ \A n \in 1..Len(x.v) :
         LET v == x.v[n]
             want == r[v.h]
         IN /\ v.sp = want
            /\ v.tot = SumF(LAMBDA k : want[k], NSp)
            /\ \A k \in 1..NSp : LET N == Max2(r.number[k], 1) IN AbsV(v.ppp[k]) < 20000000 /\ AbsV(v.ppp[k] * N - 16 * want[k]) <= 2 * N
HistClauses(e) ==
    Clause("H01.rows", Len(e.rows) = Len(hrows) + 1 /\ \A n \in 1..Len(hrows) : RowOk(e.rows[n], hrows[n]))
    \cup Clause("H01.row", e.rows # <<>> /\ RowOk(e.rows[Len(e.rows)], HistRow(e)))
    \cup Clause("H01.number", e.num = [k \in 1..NSp |-> Number(k)] /\ e.total = SumF(LAMBDA k : Len(st[k]), NSp))

(* contents of the particle output file                                    *)
FlatK(ss) == LET RECURSIVE F(_) F(x) == IF x = <<>> THEN <<>> ELSE Head(x) \o F(Tail(x)) IN F(ss)
NameIdx(n) == CHOOSE j \in 1..Len(run.names) : run.names[j] = n
Attr(a, p) == CASE a = "unique_ID" -> p[1] [] a = "weight" -> p[5] [] a = "bitflags" -> p[6] [] a = "cell_index" -> p[7]
                [] a = "crossings" -> p[8]
                [] a \in SetOf(run.names) -> p[2][NameIdx(a)]
                [] OTHER -> p[3][CHOOSE j \in 1..Len(run.names) : "u" \o run.names[j] = a]
H5Clauses(e, P) ==      \* P: the property it is read for; O01 after closing, O02 when the process is lost
    IF e.readable = 0 THEN {P \o ".readable"} ELSE
    LET idx(k) == {t.i : t \in {e.types[j] : j \in {n \in 1..Len(e.types) : e.types[n].name = run.sp[k].name}}}
        data(a, s) == FlatK([k \in 1..NSp |-> [j \in 1..Len(s.st[k]) |->
                         IF a = "species_index" THEN CHOOSE q \in idx(k) : TRUE ELSE Attr(a, s.st[k][j])]])
        hdr == /\ Len(e.types) = NSp /\ e.num = NSp /\ e.head = <<"t", "a">>
               /\ \A k \in 1..NSp : Cardinality(idx(k)) = 1
               /\ \A k \in 1..NSp : \E j \in 1..NSp : e.types[j].name = run.sp[k].name /\ e.types[j].m2 = run.sp[k].m2
                                                     /\ e.types[j].q4 = run.sp[k].qm * run.sp[k].m2
    IN Clause(P \o ".header", hdr)
       \cup Clause(P \o ".steps", Len(e.groups) = Len(snaps) /\ \A n \in 1..Len(e.groups) :
                      e.groups[n].n = n - 1 /\ (n <= Len(snaps) => e.groups[n].t = snaps[n].tk))
       \cup (IF Len(e.groups) # Len(snaps) \/ ~hdr THEN {} ELSE
             Clause(P \o ".data", \A n \in 1..Len(snaps) :
                 /\ DOMAIN e.groups[n].d = SetOf(e.attrs)
                 /\ \A a \in SetOf(e.attrs) : e.groups[n].d[a] = data(a, snaps[n])))

SameRecs(a, b) == Len(a) = Len(b) /\ \A n \in 1..Len(a) : [a[n] EXCEPT !.t = 0] = [b[n] EXCEPT !.t = 0]
TrajFileClauses(e) ==
    UNION {IF Len(e.files[k]) # Len(full[k]) THEN {"T03.files"} ELSE
           UNION {Clause("T03.files", e.files[k][j].ok = 1 /\ e.files[k][j].names = 1 /\ e.files[k][j].times = 1)
                  \cup Clause("T03.data", SameRecs(e.files[k][j].recs, full[k][j])) : j \in 1..Len(full[k])}
           : k \in 1..NSp}

Same(e, name) == UNION {Unchanged(k, e.obs, name) \cup TrajUnchanged(k, e.obs, name) : k \in 1..NSp}

Blank == <<>>
TInit == full = Blank /\ hrows = Blank /\ snaps = Blank /\ lastw = -1 /\ i = 1 /\ run = [sp |-> <<>>] /\ geo = Blank /\ bcs = Blank /\ st = Blank /\ tr = Blank /\ last = -1 /\ bad = {}

TNext ==
  /\ i <= Len(Lines)
  /\ i' = i + 1
  /\ LET e == Lines[i] IN
     CASE e.ev = "run" ->
            /\ run' = e
            /\ geo' = Geo(e)
            /\ bcs' = [k \in 1..Len(e.sp) |-> BCOf(e, e.sp[k].name)]
            /\ st' = [k \in 1..Len(e.sp) |-> <<>>] /\ tr' = [k \in 1..Len(e.sp) |-> <<>>] /\ last' = -1
            /\ full' = [k \in 1..Len(e.sp) |-> <<>>] /\ hrows' = <<>> /\ snaps' = <<>> /\ lastw' = -1
            /\ UNCHANGED bad
       [] e.ev = "crash" -> bad' = AddBad(bad, {"crash"}, i) /\ UNCHANGED <<run, geo, bcs, st, tr, last, full, hrows, snaps, lastw>>
       [] OTHER ->
            /\ bad' = AddBad(bad, CASE e.ev = "adv" -> AdvClauses(e)
                                    [] e.ev = "limit" -> LimitClauses(e)
                                    [] e.ev = "create" -> CreateClauses(e)
                                    [] e.ev = "locate" -> LocateClauses(e)
                                    [] e.ev = "src" -> SrcClauses(e)
                                    [] e.ev = "rec" -> UNION {RecClauses(e, k) \cup Unchanged(k, e.obs, "M01.other") : k \in 1..NSp}
                                    [] e.ev = "hist" -> HistClauses(e) \cup Same(e, "H01.frame")
                                    [] e.ev = "open" -> Same(e, "O01.frame")
                                    [] e.ev = "write" -> Same(e, "O01.frame")
                                    [] e.ev = "h5" -> H5Clauses(e, "O01")
                                    [] e.ev = "h5left" -> H5Clauses(e, "O02")
                                    [] e.ev = "trajfiles" -> TrajFileClauses(e)
                                    [] OTHER -> {"undefined"}, i)
            /\ full' = FullWith(e.obs.tr)
            /\ hrows' = IF e.ev = "hist" THEN Append(hrows, HistRow(e)) ELSE hrows
            /\ snaps' = CASE e.ev = "open" -> <<>>
                          [] e.ev = "write" -> SnapsAfter(e)
                          [] OTHER -> snaps
            /\ lastw' = CASE e.ev = "open" -> -1 [] e.ev = "write" -> e.step [] OTHER -> lastw
            /\ st' = e.obs.sp /\ tr' = e.obs.tr
            /\ last' = IF e.ev = "rec" THEN e.step ELSE last
            /\ UNCHANGED <<run, geo, bcs>>
TSpec == TInit /\ [][TNext]_tvars
Verdict == i = Len(Lines) + 1 => Report(bad)
Done == TLCGet("stats").diameter = Len(Lines) + 1
=============================================================================
