---------------------------- MODULE TracePlugins -----------------------------
EXTENDS Plugins, TraceBase
tvars == <<pvars, l>>
ToSet(s) == {s[i] : i \in 1..Len(s)}
TBegin == IsEvent("Begin") /\ path' = "" /\ fs' = [d \in ToSet(Ev.dirs) |-> [y \in {} |-> {}]] /\ act' = [a |-> "Init"]
TPath == IsEvent("Path") /\ SetPath(Ev.p)
TPut == IsEvent("Put") /\ Install(Ev.d, Ev.n, ToSet(Ev.has))
TQuery == IsEvent("Query") /\ Query(Ev.kind, Ev.n) /\ TRUE = (act'.ret = Ev.ret)
Match == TBegin \/ TPath \/ TPut \/ TQuery
TInit == path = "" /\ fs = 0 /\ act = 0 /\ l = 1
TNext == \/ Match
         \/ ~ENABLED Match /\ RejectLine /\ UNCHANGED pvars
         \/ Done /\ UNCHANGED pvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
