---------------------------- MODULE TraceDataEq ----------------------------
EXTENDS DataEq, TraceBase
tvars == <<evars, l>>
TBegin == /\ IsEvent("Begin") /\ da' = Ev.a /\ db' = Ev.b /\ tol' = <<0, 10>> /\ pos' = 0 /\ verdict' = "running"
\* both directions are asked, with the default tolerance or a given one
TEqual == /\ IsEvent("Equal")
          /\ LET x == IF Ev.l = "a" THEN da ELSE db
                 y == IF Ev.r = "a" THEN da ELSE db
             IN  Ev.ret = Equal(x, y, Ev.e)
          /\ UNCHANGED evars
Match == TBegin \/ TEqual
TInit == da = 0 /\ db = 0 /\ tol = 0 /\ pos = 0 /\ verdict = "none" /\ l = 1
TNext == \/ Match
         \/ ~ENABLED Match /\ RejectLine /\ UNCHANGED evars
         \/ Done /\ UNCHANGED evars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
