----------------------------- MODULE TraceNLFit -----------------------------
EXTENDS NLFit, TraceBase
VARIABLES info      \* [kind, wide, cosine, range]
tvars == <<nvars, info, l>>
Stub == [k |-> "leaf", id |-> 1, n |-> 0, lo |-> <<>>, up |-> <<>>, a |-> <<<<>>>>, b |-> <<<<>>>>, pin |-> "", dx |-> 0, dy |-> 1]
TBegin == /\ IsEvent("Begin")
          /\ Open(IF Ev.kind = "tree" THEN Ev.tree ELSE Stub, IF Ev.kind = "tree" THEN Ev.par ELSE <<<<>>>>, <<>>)
          /\ info' = [kind |-> Ev.kind, wide |-> Ev.wide, cosine |-> Ev.cosine, range |-> <<>>]
TData == /\ IsEvent("Data")
         /\ D' = (IF info.cosine THEN Ev.D ELSE [i \in DOMAIN Ev.D |-> [Ev.D[i] EXCEPT !.c = 5]])
         /\ info' = [info EXCEPT !.range = <<Ev.min, Ev.max>>]
         /\ UNCHANGED <<tree, par, act, dom, fit>>
TNoData == IsEvent("NoData") /\ UNCHANGED <<nvars, info>>
None(s) == \A k \in DOMAIN s : ~s[k]
All(s) == \A k \in DOMAIN s : s[k]
\* what holds of every fit
Common == TRUE =
    (/\ Ev.out = 0                                   \* no look outside the bounds
     /\ Ev.same
     /\ Ev.ok => /\ None(Ev.below) /\ None(Ev.above)
                 /\ Ev.sse # "gt" /\ (Ev.sse = "nan" => info.kind = "model")
                 /\ Ev.min = info.range[1] /\ Ev.max = info.range[2])
\* with the logarithmic distance, one free parameter per output and outputs 2^e - 1: the mean exponent
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
LogBest(v, tol) == \A y \in Outs(tree) :
    LET n == Len(D)
        e == SumSeq([i \in DOMAIN D |-> Log2(1 + D[i].d[y])])
    IN  e % n = 0 => Abs(v[y] - 1000 * (2^(e \div n) - 1)) <= tol
\* CERES stops when the error changes by less than a millionth of itself: far from zero, that leaves room
RECURSIVE Root(_, _)
Root(n, k) == IF (k + 1) * (k + 1) > n THEN k ELSE Root(n, k + 1)
Tol == CASE Ev.fitter = "nlopt" -> 40
         [] Ev.fitter = "ceres" -> 2 + Root(Ev.sse1 \div 1000, 0) \div 5
         [] OTHER -> 2
Found(tol) == IF Ev.log THEN LogBest(Ev.pars, 40) ELSE Free(tree, par, Ev.pars, tol)
TFit == /\ IsEvent("Fit")
        /\ Common
        /\ TRUE = (info.kind = "tree" =>
             /\ Len(Ev.pars) = Nb(tree) /\ Len(Ev.start) = Nb(tree)
             /\ \A id \in FixedIds(tree) : Ev.leaves[id] = Ev.before[id]
             /\ Nb(tree) = 0 => Ev.ok
             \* the bounds are far from the start and from the minimiser: it has to be found
             /\ info.wide /\ ~Ev.limited /\ Linear(tree) /\ Nb(tree) <= Len(D) * LeavesOf(tree)[1].dy =>
                  (Ev.ok /\ Found(Tol)) \/ (~Ev.ok /\ Ev.fitter = "nlopt" /\ (Free(tree, par, Ev.start, Tol) \/ Found(Tol) \/ \E k \in 1..Nb(tree) : Blur(tree, par, k) = 0))
             \* a result at or between near bounds
             /\ Ev.ok /\ ~Ev.limited /\ ~Ev.log /\ Linear(tree) /\ Ev.fitter = "eigen" => Best(tree, par, Ev.pars, Tol))
        /\ dom' = "data" /\ fit' = [st |-> IF Ev.ok THEN "found" ELSE "failed", start |-> Ev.start, best |-> Ev.pars]
        /\ act' = [a |-> "Fit"] /\ UNCHANGED <<tree, par, D, info>>
Match == TBegin \/ TData \/ TNoData \/ TFit
TInit == tree = 0 /\ par = 0 /\ act = 0 /\ D = 0 /\ dom = 0 /\ fit = 0 /\ info = 0 /\ l = 1
TNext == \/ Match
         \/ ~ENABLED Match /\ RejectLine /\ UNCHANGED <<nvars, info>>
         \/ Done /\ UNCHANGED <<nvars, info>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
