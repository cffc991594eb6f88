----------------------------- MODULE TraceLinFit -----------------------------
EXTENDS LinFit, TraceBase
tvars == <<lvars, l>>
TBegin == IsEvent("Begin") /\ Setup([dx |-> Ev.dx, kind |-> Ev.kind, ts |-> Ev.ts, P |-> Ev.P, Q |-> Ev.Q])
TData == IsEvent("Data") /\ UNCHANGED lvars
TFit == /\ IsEvent("Fit")
        /\ TRUE = (Ev.dom /\ (Ev.ok => Ev.size = [k \in DOMAIN Ev.size |-> <<Ev.np, Ev.nq>>]))
        /\ TRUE = Optimal(Ev.f, 0, Ev.others, Ev.corr, IF Ev.f = "eigen" THEN 2 ELSE 20)
        /\ \/ Ev.det /\ Fit(Ev.f, Ev.suitable, Ev.np, Ev.nq, Ev.ok, Ev.vals, 10000, 2)
           \* samples that leave several functions, or are of none
           \/ ~Ev.det /\ Ev.ok = Ev.suitable /\ UNCHANGED lvars
Match == TBegin \/ TData \/ TFit
TInit == prob = None /\ act = 0 /\ l = 1
TNext == \/ Match
         \/ ~ENABLED Match /\ RejectLine /\ UNCHANGED lvars
         \/ Done /\ UNCHANGED lvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
