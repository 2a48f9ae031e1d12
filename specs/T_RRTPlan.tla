------------------------------ MODULE T_RRTPlan ------------------------------
EXTENDS RRTPlan, TLC, Json, IOUtils
VARIABLES c, l, s
Cases == ndJsonDeserialize(IOEnv.TRACE)
Ev == Cases[c].ev
Is(b) == b = TRUE
SameT(e) == AsTree(e.T) = s.T /\ NoDup(e.T)
Do(e) ==
  CASE e.k = "goal" -> Is(GoalEn(s, e.v)) /\ s' = Goal(s, e.v, e.r)
    [] e.k = "goalcb" -> Is(GoalCbEn(s, e.i)) /\ SameT(e) /\ e.same /\ s' = GoalCb(s, e.ed)
    [] e.k = "term" -> Is(TermEn(s, e.n)) /\ s' = Term(s, e.r)
    [] e.k = "samp" -> Is(SampEn(s)) /\ s' = Samp(s, e.x)
    [] e.k = "near" -> Is(NearEn(s, e.x)) /\ SameT(e) /\ s' = Near(s, e.r)
    [] e.k = "prop" -> Is(PropEn(s, e.v, e.x)) /\ s' = Prop(s, e.r)
    [] e.k = "added" -> Is(AddedEn(s, e.i)) /\ SameT(e) /\ e.same /\ s' = Added(s, e.ed)
    [] e.k = "end" -> /\ SameT(e)
                      /\ IF e.how = "ok" THEN Is(MayEnd(s)) /\ Is(PathsOK(s, e.paths)) /\ e.timed /\ e.st = Stats(s) ELSE e.how = "err" /\ Is(MayFail(s))
                      /\ s' = [s EXCEPT !.pc = "end"]
    [] OTHER -> FALSE
TInit == c \in 1..Len(Cases) /\ l = 1 /\ s = Start(AsTree(Cases[c].T0), Cases[c].single, Cases[c].hasA, Cases[c].hasG)
TNext == \/ l <= Len(Ev) /\ l' = l + 1 /\ c' = c /\ Do(Ev[l])
         \/ l > Len(Ev) /\ UNCHANGED <<c, l, s>>
TSpec == TInit /\ [][TNext]_<<c, l, s>>
TreeAlwaysLinked == Linked(s.T)
OnlyConnectedPaths == s.pc = "end" => PathsConnect(s)
=============================================================================
