------------------------------ MODULE TracePy ------------------------------
(* Scripts run by the real Python module, checked against Py: the result of    *)
(* every operation, and all that can be seen of every object after it.         *)
EXTENDS Py, TraceBase
VARIABLES h, fs, vs
vars == <<h, fs, vs>>
tvars == <<vars, l>>
\* an operation that returns nothing need not tell whether it failed
Void == {"put", "aput", "set", "save", "load", "dset", "b2d", "rat", "diff"}
SameResult(o, r, e) == CASE r.t = "val" -> e.t = "val" /\ e.v = r.v
                         [] r.t = "ok" -> e.t = "ok"
                         [] OTHER -> e.t = "fail" \/ (e.t = "ok" /\ o.op \in Void)
TBegin == IsEvent("Begin") /\ h' = <<>> /\ fs' = <<>> /\ vs' = <<>>
TOp == /\ IsEvent("Op")
       /\ LET s == Apply(h, fs, Deref(vs, Ev.o))
          IN /\ h' = s.h /\ fs' = s.fs /\ vs' = NewVars(vs, h, s.h)
             /\ TRUE = SameResult(Ev.o, s.r, Ev.r)
             /\ TRUE = (Len(Ev.view) = Len(vs'))
             /\ TRUE = (\A j \in DOMAIN vs' : Ev.view[j] = View(s.h, vs'[j]))
Match == TBegin \/ TOp
TInit == h = <<>> /\ fs = <<>> /\ vs = <<>> /\ l = 1
TNext == \/ Match
         \/ ~ENABLED Match /\ RejectLine /\ UNCHANGED vars
         \/ Done /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
