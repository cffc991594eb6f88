------------------------------ MODULE FitSearch ------------------------------
(* The sizes the two interval fitters go through: the sequential one walks from   *)
(* the smallest to the largest size, the parallel one tries, for one total after  *)
(* the other, every way to share it, on several workers.                          *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES seq,    \* [np, nq, maxp, maxq, verdict]
          par     \* [N, max, step, next, work: worker -> [at, j], best: <<>> | <<cost, j>>, verdict]
svars == <<seq, par>>

(* ---- sequential ---- *)
MaxOf(a, b) == IF a > b THEN a ELSE b
Start(minp, minq, maxp, maxq) == [np |-> minp, nq |-> minq, maxp |-> MaxOf(minp, maxp), maxq |-> MaxOf(minq, maxq), verdict |-> "open"]
SeqStep(feas(_, _)) ==
    /\ seq.verdict = "open"
    /\ seq' = IF feas(seq.np, seq.nq) THEN [seq EXCEPT !.verdict = "found"]
              ELSE IF seq.np = seq.maxp /\ seq.nq = seq.maxq THEN [seq EXCEPT !.verdict = "failed"]
              ELSE [seq EXCEPT !.np = IF @ < seq.maxp THEN @ + 1 ELSE @, !.nq = IF @ < seq.maxq THEN @ + 1 ELSE @]
    /\ UNCHANGED par
\* the same as a value
RECURSIVE Walk(_, _)    \* feas: a function on pairs
Walk(s, feas) ==
    IF feas[<<s.np, s.nq>>] THEN [s EXCEPT !.verdict = "found"]
    ELSE IF s.np = s.maxp /\ s.nq = s.maxq THEN [s EXCEPT !.verdict = "failed"]
    ELSE Walk([s EXCEPT !.np = IF @ < s.maxp THEN @ + 1 ELSE @, !.nq = IF @ < s.maxq THEN @ + 1 ELSE @], feas)

(* ---- parallel: candidate j of total N has N-j numerator and j denominator coefficients ---- *)
Idle == [at |-> "idle", j |-> 0]
Launch(N, max, step, W) == [N |-> N, max |-> max, step |-> step, next |-> 1, work |-> [w \in 1..W |-> Idle], best |-> <<>>, verdict |-> "open"]
Better(a, b) == b = <<>> \/ a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Claim(w) == /\ par.verdict = "open" /\ par.work[w].at = "idle" /\ par.next < par.N
            /\ par' = [par EXCEPT !.work[w] = [at |-> "fit", j |-> par.next], !.next = @ + 1] /\ UNCHANGED seq
Fitted(w, feas(_, _)) ==
            /\ par.verdict = "open" /\ par.work[w].at = "fit"
            /\ par' = [par EXCEPT !.work[w] = IF feas(par.N, @.j) THEN [@ EXCEPT !.at = "ready"] ELSE Idle] /\ UNCHANGED seq
Enter(w, cost(_, _)) ==
            /\ par.verdict = "open" /\ par.work[w].at = "ready"
            /\ par' = [par EXCEPT !.best = LET c == <<cost(par.N, par.work[w].j), par.work[w].j>> IN IF Better(c, @) THEN c ELSE @,
                                  !.work[w] = Idle] /\ UNCHANGED seq
Join == /\ par.verdict = "open" /\ par.next >= par.N /\ \A w \in DOMAIN par.work : par.work[w].at = "idle"
        /\ par' = IF par.best # <<>> THEN [par EXCEPT !.verdict = "found"]
                  ELSE IF par.N + par.step > par.max THEN [par EXCEPT !.verdict = "failed"]
                  ELSE [par EXCEPT !.N = @ + par.step, !.next = 1]
        /\ UNCHANGED seq
\* the same as a value: the best of the first total that has a feasible candidate
RECURSIVE FirstTotal(_, _, _, _)
FirstTotal(N, max, step, feas) == IF N > max THEN 0 ELSE IF \E j \in 1..(N - 1) : feas[<<N, j>>] THEN N ELSE FirstTotal(N + step, max, step, feas)
Winner(N, feas(_, _), cost(_, _)) ==
    CHOOSE j \in 1..(N - 1) : feas(N, j) /\ \A i \in 1..(N - 1) : feas(N, i) /\ i # j => Better(<<cost(N, j), j>>, <<cost(N, i), i>>)
=============================================================================
