----------------------------- MODULE MCFitSearch -----------------------------
EXTENDS FitSearch, TLC, Json
CONSTANTS MaxN, Workers, Costs, MaxSize
VARIABLES feas, cost, sizes, min, h
vars == <<svars, feas, cost, sizes, min, h>>
Cands == {c \in (1..MaxN) \X (1..MaxN) : c[2] < c[1]}
F(N, j) == <<N, j>> \in feas
C(N, j) == cost[<<N, j>>]
Z(a, b) == <<a, b>> \in sizes
InitPar == /\ feas \in SUBSET Cands /\ cost \in [Cands -> Costs] /\ \A c \in Cands \ feas : cost[c] = 1
           /\ \E W \in Workers, N \in {2, 3}, step \in {1, 2} : par = Launch(N, MaxN, step, W) /\ min = N
           /\ seq = [verdict |-> "off"] /\ sizes = {} /\ h = <<>>
NextPar == /\ \/ \E w \in DOMAIN par.work : (Claim(w) /\ h' = h) \/ (Fitted(w, F) /\ h' = h) \/ (Enter(w, C) /\ h' = h)
              \/ Join /\ h' = h
           /\ UNCHANGED <<feas, cost, sizes, min>>
SpecPar == InitPar /\ [][NextPar]_vars /\ WF_vars(NextPar)
\* the outcome does not depend on the interleaving
Outcome == /\ par.verdict = "found" => /\ par.N = FirstTotal(min, MaxN, par.step, [c \in Cands |-> c \in feas])
                                       /\ par.best[2] = Winner(par.N, F, C)
           /\ par.verdict = "failed" => FirstTotal(min, MaxN, par.step, [c \in Cands |-> c \in feas]) = 0
EndsPar == <>(par.verdict # "open")

InitSeq == /\ sizes \in SUBSET ((1..MaxSize) \X (1..MaxSize))
           /\ \E a \in 1..MaxSize, b \in 1..MaxSize, c \in 1..MaxSize, d \in 1..MaxSize : seq = Start(a, b, c, d) /\ min = <<a, b, c, d>>
           /\ par = [verdict |-> "off"] /\ feas = {} /\ cost = <<>> /\ h = <<>>
NextSeq == SeqStep(Z) /\ UNCHANGED <<feas, cost, sizes, min, h>>
SpecSeq == InitSeq /\ [][NextSeq]_vars /\ WF_vars(NextSeq)
Path == seq.verdict # "open" =>
    /\ seq = Walk(Start(min[1], min[2], min[3], min[4]), [c \in (1..MaxSize) \X (1..MaxSize) |-> c \in sizes])
    /\ seq.verdict = "found" => Z(seq.np, seq.nq) /\ seq.np \in min[1]..MaxOf(min[1], min[3]) /\ seq.nq \in min[2]..MaxOf(min[2], min[4])
    /\ seq.verdict = "failed" => ~Z(MaxOf(min[1], min[3]), MaxOf(min[2], min[4]))
EndsSeq == <>(seq.verdict # "open")

\* behaviours for the real fitter: in which order the candidates reach the comparison, and what they cost
InitGen == /\ feas = {c \in Cands : c[1] = MaxN} /\ cost \in {[c \in Cands |-> IF c[1] = MaxN THEN k[c[2]] ELSE 1] : k \in [1..(MaxN - 1) -> Costs]}
           /\ \E W \in Workers : par = Launch(MaxN, MaxN, 1, W) /\ min = W
           /\ seq = [verdict |-> "off"] /\ sizes = {} /\ h = <<>>
NextGen == /\ \/ \E w \in DOMAIN par.work : \/ Claim(w) /\ h' = h
                                            \/ Fitted(w, F) /\ h' = h
                                            \/ Enter(w, C) /\ h' = Append(h, par.work[w].j)
              \/ Join /\ h' = h
           /\ UNCHANGED <<feas, cost, sizes, min>>
SpecGen == InitGen /\ [][NextGen]_vars
Emit == par.verdict = "found" => PrintT(<<"BEH", ToJson([W |-> min, h |-> Append(h, 0), cost |-> [j \in 1..(MaxN - 1) |-> cost[<<MaxN, j>>]]])>>)
=============================================================================
