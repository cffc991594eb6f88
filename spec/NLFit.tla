-------------------------------- MODULE NLFit --------------------------------
(* A nonlinear fit: it starts from the parameters of the function, moves through  *)
(* vectors within the declared bounds, and leaves in the function the best of     *)
(* them.  The function itself is its scratch pad: what it holds in between is the *)
(* last vector looked at, not the best one.                                        *)
(* Functions are trees of Layout; samples are [s: features per leaf, c: weight in  *)
(* fifths, d: outputs].                                                            *)
EXTENDS Layout

VARIABLES D, dom,       \* the samples, the domain recorded in the function
          fit           \* [st, start, best]
nvars == <<lvars, D, dom, fit>>

InBox(t, v) == \A k \in 1..Nb(t) : Lower(t)[k] <= v[k] /\ v[k] <= Upper(t)[k]

(* ---- squared error of the function as it stands ---- *)
Outs(t) == 1..LeavesOf(t)[1].dy
Sq(a) == a * a
SSE(t, p) == SumSeq([i \in DOMAIN D |-> SumSeq([y \in Outs(t) |-> Sq(5 * D[i].d[y] - D[i].c * Value(t, p, D[i].s, y))])])

(* ---- optimality of parameters given in thousandths, for functions that are   *)
(*      linear in their free parameters                                          *)
RECURSIVE Linear(_)
Linear(t) == CASE t.k = "leaf" -> TRUE
               [] t.k = "sum"  -> \A i \in DOMAIN t.parts : t.fixed[i] \/ Linear(t.parts[i])
               [] t.k = "prod" -> /\ t.fl \/ Linear(t.l)
                                  /\ t.fr \/ Linear(t.r)
                                  /\ t.fl \/ Nb(t.l) = 0 \/ t.fr \/ Nb(t.r) = 0
Abs(a) == IF a < 0 THEN 0 - a ELSE a
\* residual of output y of sample i at v thousandths: p0 holds 0 in the free parameters
Zero(t, p) == Assign(t, p, [k \in 1..Nb(t) |-> 0])
Resid(t, p, v, i, y) == LET g == Grad(t, Zero(t, p), D[i].s, y)
                        IN  1000 * (5 * D[i].d[y] - D[i].c * Value(t, Zero(t, p), D[i].s, y)) - D[i].c * SumSeq([k \in 1..Nb(t) |-> g[k] * v[k]])
\* descent direction along parameter k, and what an error of one thousandth in the parameters makes of it
Slope(t, p, v, k) == SumSeq([i \in DOMAIN D |-> SumSeq([y \in Outs(t) |->
        D[i].c * Grad(t, Zero(t, p), D[i].s, y)[k] * Resid(t, p, v, i, y)])])
Blur(t, p, k) == SumSeq([i \in DOMAIN D |-> SumSeq([y \in Outs(t) |->
        LET g == Grad(t, Zero(t, p), D[i].s, y)
        IN  Sq(D[i].c) * Abs(g[k]) * SumSeq([j \in 1..Nb(t) |-> Abs(g[j])])])])
\* no direction that stays within the bounds goes down: v is, up to tol thousandths, a minimiser within the bounds
Best(t, p, v, tol) == \A k \in 1..Nb(t) :
    /\ v[k] >= 1000 * Upper(t)[k] - tol \/ Slope(t, p, v, k) <= tol * Blur(t, p, k)
    /\ v[k] <= 1000 * Lower(t)[k] + tol \/ Slope(t, p, v, k) >= 0 - tol * Blur(t, p, k)
\* no bound is in the way
Free(t, p, v, tol) == \A k \in 1..Nb(t) : Abs(Slope(t, p, v, k)) <= tol * Blur(t, p, k)

(* ---- a fit ---- *)
Open(t, p, samples) == Build(t, p) /\ D' = samples /\ dom' = "none" /\ fit' = [st |-> "idle", start |-> <<>>, best |-> <<>>]
Start(v) == /\ fit.st # "run"
            /\ Len(v) = Nb(tree)
            /\ par' = Assign(tree, par, v)
            /\ fit' = [st |-> "run", start |-> v, best |-> IF InBox(tree, v) THEN v ELSE <<>>]
            /\ dom' = "data"
            /\ act' = [a |-> "Start"] /\ UNCHANGED <<tree, D>>
Look(v) ==  /\ fit.st = "run" /\ fit.best # <<>> /\ InBox(tree, v)
            /\ par' = Assign(tree, par, v)
            /\ act' = [a |-> "Look"] /\ UNCHANGED <<tree, D, dom, fit>>
Keep ==     /\ fit.st = "run" /\ fit.best # <<>>
            /\ SSE(tree, par) < SSE(tree, Assign(tree, par, fit.best))
            /\ fit' = [fit EXCEPT !.best = Params(tree, par)]
            /\ act' = [a |-> "Keep"] /\ UNCHANGED <<tree, par, D, dom>>
Finish ==   /\ fit.st = "run" /\ fit.best # <<>>
            /\ par' = Assign(tree, par, fit.best)
            /\ fit' = [fit EXCEPT !.st = "found"]
            /\ act' = [a |-> "Finish"] /\ UNCHANGED <<tree, D, dom>>
Fail ==     /\ fit.st = "run"
            /\ fit' = [fit EXCEPT !.st = "failed"]
            /\ act' = [a |-> "Fail"] /\ UNCHANGED <<tree, par, D, dom>>

Grid == (0 - 1)..3
(* ---- what a user relies on ---- *)
FoundInside == fit.st = "found" => InBox(tree, Params(tree, par))
FoundBetter == fit.st = "found" => SSE(tree, par) <= SSE(tree, Assign(tree, par, fit.start))
FoundDomain == fit.st = "found" => dom = "data"
FixedStay == [][act'.a # "Build" => \A id \in FixedIds(tree) : par'[id] = par[id]]_nvars
NeverOutside == fit.st = "run" /\ act.a = "Look" => InBox(tree, Params(tree, par))
\* a vector no direction leads down from is the best of all within the bounds
BestIsBest == Linear(tree) => \A v \in [1..Nb(tree) -> Grid] :
    InBox(tree, v) /\ Best(tree, par, [k \in 1..Nb(tree) |-> 1000 * v[k]], 0)
      => \A w \in [1..Nb(tree) -> Grid] : InBox(tree, w) => SSE(tree, Assign(tree, par, v)) <= SSE(tree, Assign(tree, par, w))
\* and conversely
BestHolds == Linear(tree) => \A v \in [1..Nb(tree) -> Grid] :
    /\ InBox(tree, v)
    /\ \A w \in [1..Nb(tree) -> Grid] : InBox(tree, w) => SSE(tree, Assign(tree, par, v)) <= SSE(tree, Assign(tree, par, w))
    /\ Free(tree, par, [k \in 1..Nb(tree) |-> 1000 * v[k]], 0)
    => Best(tree, par, [k \in 1..Nb(tree) |-> 1000 * v[k]], 0)
=============================================================================
