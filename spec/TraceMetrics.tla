---------------------------- MODULE TraceMetrics ----------------------------
(* Metrics computed by the real library and tools, checked against Metrics.     *)
(* Numbers in the trace: L1 and LInf times 1000, the square of L2, the cube of  *)
(* L3, MSE and the square of RMSE times 2520 (weighted ones times 252).         *)
EXTENDS Metrics, TraceBase
VARIABLES cl, cv
tvars == <<vars, cl, cv, l>>
W == <<cl, cv>>
Near(a, b, rel) == Abs(a - b) <= 1 + (Abs(b) \div rel)
Rel == IF Ev.digits > 6 THEN 1000000 ELSE 20000
Good(m, s) == \A k \in 1..DimY :
    /\ Near(m.l1[k], 1000 * s[k].l1, Rel)
    /\ Near(m.l2s[k], s[k].ss, Rel)
    /\ Near(m.l3c[k], s[k].sc, Rel)
    /\ Near(m.linf[k], 1000 * s[k].linf, Rel)
    /\ Near(m.mse[k], (2520 * s[k].ss) \div s[k].n, Rel)
    /\ Near(m.rmses[k], (2520 * s[k].ss) \div s[k].n, Rel)
\* weighted mean square errors, of all samples: weights are in tenths
Weighted(w(_), k) == MapThenSumSet(LAMBDA i : Diff(i, k) * Diff(i, k) * w(i), Sel)
GoodW(m, s2, w(_), unit) == \A k \in 1..DimY :
    LET u == N * unit  t == Weighted(w, k)  e == (t \div u) * 252 + ((t % u) * 252) \div u IN Near(m[k], e, Rel) /\ Near(s2[k], e, Rel)

Data == <<inp, up>>
TBegin == /\ IsEvent("Begin")
          /\ ref' = Ev.ref /\ inp' = Ev.inp /\ up' = Ev.up /\ mask' = Ev.mask /\ cl' = Ev.cl /\ cv' = Ev.cv
          /\ rows' = <<>> /\ pos' = 0 /\ res' = <<>>
TPoke == IsEvent("Poke") /\ Poke(Ev.i, Ev.k, Ev.v) /\ UNCHANGED W
TPokeIn == IsEvent("PokeIn") /\ PokeIn(Ev.c, Ev.k, Ev.v) /\ UNCHANGED W
TFlip == IsEvent("Flip") /\ Flip(Ev.i, Ev.v) /\ UNCHANGED W
TUnmask == IsEvent("Unmask") /\ Unmask /\ UNCHANGED W
TMetrics == /\ IsEvent("Metrics")
            /\ TRUE = (Sel # {} => Good(Ev, Metrics))
            /\ UNCHANGED <<vars, W>>
TTool == /\ IsEvent("Tool") /\ Ev.status = 0
         /\ TRUE = (mask = <<>> /\ Good(Ev, Metrics))
         /\ TRUE = (Ev.weighted =>
               /\ GoodW(Ev.wl, Ev.rwl, LAMBDA i : cl[ref[i].c] * cl[ref[i].c], 10)
               /\ GoodW(Ev.wlv, Ev.rwlv, LAMBDA i : cl[ref[i].c] * cl[ref[i].c] * cv[ref[i].c] * cv[ref[i].c], 1000))
         /\ UNCHANGED <<vars, W>>
\* distances of a function to data: over all outputs
TFunc == /\ IsEvent("Func")
         /\ TRUE = (mask = <<>> /\
               LET m == Metrics
                   ss == MapThenSumSet(LAMBDA k : m[k].ss, 1..DimY)
               IN /\ Near(Ev.l2s, (2520 * ss) \div N, 1000000)
                  /\ Near(Ev.linf, 1000 * Max({m[k].linf : k \in 1..DimY}), 1000000))
         /\ UNCHANGED <<vars, W>>
Match == TBegin \/ TPoke \/ TPokeIn \/ TFlip \/ TUnmask \/ TMetrics \/ TTool \/ TFunc
TInit == /\ ref = <<>> /\ inp = <<>> /\ up = <<>> /\ mask = <<>> /\ rows = <<>> /\ pos = 0 /\ res = <<>>
         /\ cl = <<>> /\ cv = <<>> /\ l = 1
TNext == \/ Match
         \/ ~ENABLED Match /\ RejectLine /\ UNCHANGED <<vars, W>>
         \/ Done /\ UNCHANGED <<vars, W>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
