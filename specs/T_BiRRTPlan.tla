----------------------------- MODULE T_BiRRTPlan -----------------------------
EXTENDS BiRRTPlan, TLC, Json, IOUtils
VARIABLES c, l, s
Cases == ndJsonDeserialize(IOEnv.TRACE)
Ev == Cases[c].ev
Is(b) == b = TRUE
Same(N, T) == AsTree(N) = T /\ NoDup(N)
Do(e) ==
  CASE e.k = "conn" -> Is(ConnEn(s, e.u, e.w, e.act)) /\ s' = Conn(s, e.r)
    [] e.k = "bridge" -> Is(BridgeEn(s, e.i, e.j, e.act)) /\ e.trees /\ Same(e.A, s.T[1]) /\ Same(e.B, s.T[2]) /\ s' = Bridge(s, e.ed, e.eg)
    [] e.k = "term" -> Is(TermEn(s, e.n, e.m)) /\ s' = Term(s, e.r)
    [] e.k = "stype" -> Is(StypeEn(s, e.act)) /\ e.trees /\ s' = Stype(s, e.r)
    [] e.k = "tsamp" -> Is(TsampEn(s, e.act)) /\ e.tree = 1 - s.act /\ Same(e.T, Tgt(s)) /\ s' = Tsamp(s, e.r)
    [] e.k = "samp" -> Is(SampEn(s)) /\ s' = Samp(s, e.x)
    [] e.k = "near" -> Is(NearEn(s, e.x, e.act)) /\ e.tree = s.act /\ Same(e.T, Act(s)) /\ s' = Near(s, e.r)
    [] e.k = "prop" -> Is(PropEn(s, e.v, e.x, e.act)) /\ s' = Prop(s, e.r)
    [] e.k = "added" -> Is(AddedEn(s, e.i, e.act)) /\ e.tree = s.act /\ Same(e.T, Act(s)) /\ s' = Added(s, e.ed)
    [] e.k = "sact" -> Is(SactEn(s, e.act)) /\ e.trees /\ s' = Sact(s, e.r)
    [] e.k = "end" -> /\ Same(e.A, s.T[1]) /\ Same(e.B, s.T[2])
                      /\ IF e.how = "ok" THEN Is(MayEnd(s)) /\ Is(PathsOK(s, e.paths)) /\ e.timed /\ e.st = Stats(s) ELSE e.how = "err" /\ Is(MayFail(s))
                      /\ s' = [s EXCEPT !.pc = "end"]
    [] OTHER -> FALSE
TInit == c \in 1..Len(Cases) /\ l = 1 /\ s = Start(AsTree(Cases[c].A0), AsTree(Cases[c].B0), Cases[c].single, Cases[c].hasA, Cases[c].hasB)
TNext == \/ l <= Len(Ev) /\ l' = l + 1 /\ c' = c /\ Do(Ev[l])
         \/ l > Len(Ev) /\ UNCHANGED <<c, l, s>>
TSpec == TInit /\ [][TNext]_<<c, l, s>>
TreesAlwaysLinked == \A k \in 1..2 : Linked(s.T[k])
BranchesAlwaysOK == s.pc = "end" => BranchesOK(s)
=============================================================================
