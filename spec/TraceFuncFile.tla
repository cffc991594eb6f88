---------------------------- MODULE TraceFuncFile ----------------------------
EXTENDS FuncFile, TraceBase
tvars == <<fvars, l>>
FBegin == IsEvent("Begin") /\ fun' = NoFun /\ UNCHANGED <<lvars, reg>>
\* coefficients are divided by the denominator's first one; texts are as written by the library
Sci(s) == Len(s) > 6 /\ CutAt(s, "e", 1) > 0
One(s) == Sci(s) /\ First(s) = "1" /\ SubSeq(s, Len(s) - 3, Len(s)) = "e+00" /\ \A k \in 2..(Len(s) - 4) : SubSeq(s, k, k) \in {".", "0"}
Exact(ps) == \A i \in DOMAIN ps : /\ \A j \in DOMAIN ps[i] : Sci(ps[i][j])
                                  /\ i > 3 /\ i % 2 = 0 => Len(ps[i]) > 0 /\ One(ps[i][1])
Shows(x) == /\ Ev.kind = x.kind
            /\ x.kind # "none" => Ev.pin = x.pin /\ Ev.pout = x.pout /\ Ev.dx = x.dx /\ Ev.dy = x.dy
            /\ x.kind = "nonlinear" => Ev.pars = Params(x.tree, x.par)
            /\ x.kind = "rational" /\ Exact(x.par) => Ev.pars = x.par
FLoad == IsEvent("Load") /\ Load(Ev.ls) /\ TRUE = Shows(fun')
FSetE == IsEvent("Set") /\ FSet(Ev.v) /\ TRUE = (Params(fun'.tree, fun'.par) = Ev.pars)
\* the file written means the function at hand
FSave == IsEvent("Save") /\ TRUE = (Loaded(Ev.ls) = fun) /\ UNCHANGED fvars
\* and what is loaded from it has the function's values
FSame == IsEvent("Same") /\ TRUE = (Shows(fun) /\ Ev.a = Ev.b) /\ UNCHANGED fvars
Match == FBegin \/ FLoad \/ FSetE \/ FSave \/ FSame
TInit == tree = 0 /\ par = 0 /\ act = 0 /\ reg = 0 /\ fun = NoFun /\ l = 1
TNext == \/ Match
         \/ ~ENABLED Match /\ RejectLine /\ UNCHANGED fvars
         \/ Done /\ UNCHANGED fvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
