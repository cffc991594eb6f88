------------------------------- MODULE LinFit --------------------------------
(* The linear rational fitters.  `eigen` minimises the algebraic residual          *)
(* |P(x_i) - y_i Q(x_i)| over all coefficient vectors of length one;               *)
(* `leastsquare` fits 1/Q to the data and then P/Q, with Q kept.                   *)
(* A problem is a set of samples of given rational functions (one per output);     *)
(* inputs count quarters of the normalised coordinates, coefficients are integers. *)
EXTENDS Degrees

VARIABLES prob,   \* None or [dx, kind, ts: points, P, Q: per output coefficients]
          act
lvars == <<prob, act>>
None == [none |-> TRUE]

Mono(deg, t, D) == Prod([k \in DOMAIN deg |-> Pow(t[k], deg[k])]) * Pow(4, D - Sum(deg))
\* the value at t/4 of the polynomial with coefficients c, times 4^D
PolyAt(c, dx, t, D) == LET g == Degrees(dx, Len(c)) IN Sum([i \in DOMAIN c |-> c[i] * Mono(g[i], t, D)])
Top(c, dx) == LET g == Degrees(dx, Len(c)) IN Sum(g[Len(c)])
DegD(p, q, dx) == Max(Top(p, dx), Top(q, dx))

\* what a fitter has to recover exactly, when the samples determine it: the function has the size asked for
Fits(fitter, p, q, np, nq) ==
    /\ Len(p) <= np /\ Len(q) <= nq
    /\ fitter = "leastsquare" => nq = 1 \/ \A i \in 2..Len(p) : p[i] = 0
\* v (scaled by S) is the value of p/q at t
Close(v, p, q, dx, t, S, tol) ==
    LET D == DegD(p, q, dx)  n == PolyAt(p, dx, t, D)  d == PolyAt(q, dx, t, D)
    IN  /\ d # 0
        /\ Abs((S * n) \div d - v) <= tol * (1 + Abs((S * n) \div d) \div S) + 1

Setup(p) == prob' = p /\ act' = [a |-> "Setup"]
\* only data with an interval for every sample, and only rational functions, are fitted
Fit(fitter, suitable, np, nq, ok, vals, S, tol) ==
    /\ ok = suitable
    /\ ok => \A k \in DOMAIN prob.P :
                Fits(fitter, prob.P[k], prob.Q[k], np, nq) =>
                    \A i \in DOMAIN prob.ts : Close(vals[k][i], prob.P[k], prob.Q[k], prob.dx, prob.ts[i], S, tol)
    /\ act' = [a |-> "Fit", f |-> fitter, ok |-> ok]
    /\ UNCHANGED prob
\* any data: no other coefficient vector has a smaller algebraic residual for its length;
\* the numerator is the best for its denominator (its residual is orthogonal to its terms)
Optimal(fitter, own, others, corr, tol) ==
    CASE fitter = "eigen"       -> \A i \in DOMAIN others : own <= others[i] + tol
      [] fitter = "leastsquare" -> \A i \in DOMAIN corr : Abs(corr[i]) <= tol
=============================================================================
