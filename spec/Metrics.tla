------------------------------ MODULE Metrics ------------------------------
(* Distances between a data set that can be evaluated anywhere (inp, or a       *)
(* function) and reference samples, some of them masked out.                    *)
(*   ref : sequence of [c |-> configuration, y |-> values]                      *)
(*   inp : configuration -> values of the evaluated data                        *)
(*   up  : configuration -> whether one of its directions is in the upper       *)
(*         hemisphere; the others count as samples without difference           *)
(*   mask: <<>>, or one number per reference sample; 0 leaves the sample out    *)
(*   cl, cv: per configuration, ten times the cosine of the light and view      *)
(*         directions (weights)                                                 *)
(* The metrics are computed by a walk over the samples, as the library does:    *)
(* the selected ones are counted, then packed into rows, then summed.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt

VARIABLES ref, inp, up, mask,
          rows,    \* differences packed so far
          pos,     \* next sample of the walk, 0 when not walking
          res      \* the metrics of the last walk, <<>> if there is none for the present data
vars == <<ref, inp, up, mask, rows, pos, res>>

Abs(x) == IF x < 0 THEN 0 - x ELSE x
DimY == Len(ref[1].y)

\* what the metrics are
Sel == IF mask = <<>> THEN DOMAIN ref ELSE {i \in DOMAIN ref : mask[i] # 0}
Diff(i, k) == IF up[ref[i].c] THEN ref[i].y[k] - inp[ref[i].c][k] ELSE 0
L1(k)   == MapThenSumSet(LAMBDA i : Abs(Diff(i, k)), Sel)
SumSq(k) == MapThenSumSet(LAMBDA i : Diff(i, k) * Diff(i, k), Sel)
SumCu(k) == MapThenSumSet(LAMBDA i : Abs(Diff(i, k)) * Diff(i, k) * Diff(i, k), Sel)
LInf(k) == Max({0} \cup {Abs(Diff(i, k)) : i \in Sel})
N == Cardinality(Sel)
Metrics == [k \in 1..DimY |-> [l1 |-> L1(k), ss |-> SumSq(k), sc |-> SumCu(k), linf |-> LInf(k), n |-> N]]

\* the walk
RECURSIVE Fold(_, _, _)
Fold(rs, k, j) == IF j > Len(rs) THEN [l1 |-> 0, ss |-> 0, sc |-> 0, linf |-> 0, n |-> 0]
                  ELSE LET t == Fold(rs, k, j + 1)  d == rs[j][k] IN
                       [l1 |-> t.l1 + Abs(d), ss |-> t.ss + d * d, sc |-> t.sc + Abs(d) * d * d,
                        linf |-> IF Abs(d) > t.linf THEN Abs(d) ELSE t.linf, n |-> t.n + 1]
Edit == pos' = 0 /\ rows' = <<>> /\ res' = <<>>
Poke(i, k, v) == ref' = [ref EXCEPT ![i].y[k] = v] /\ Edit /\ UNCHANGED <<inp, up, mask>>
PokeIn(c, k, v) == inp' = [inp EXCEPT ![c][k] = v] /\ Edit /\ UNCHANGED <<ref, up, mask>>
Flip(i, v) == mask' = [mask EXCEPT ![i] = v] /\ Edit /\ UNCHANGED <<ref, inp, up>>
Unmask == mask # <<>> /\ mask' = <<>> /\ Edit /\ UNCHANGED <<ref, inp, up>>
Start == pos = 0 /\ res = <<>> /\ pos' = 1 /\ rows' = <<>> /\ UNCHANGED <<ref, inp, up, mask, res>>
Visit == /\ pos # 0 /\ pos <= Len(ref)
         /\ rows' = IF mask # <<>> /\ mask[pos] = 0 THEN rows
                    ELSE Append(rows, [k \in 1..DimY |-> IF up[ref[pos].c] THEN ref[pos].y[k] - inp[ref[pos].c][k] ELSE 0])
         /\ pos' = pos + 1 /\ UNCHANGED <<ref, inp, up, mask, res>>
Finish == /\ pos > Len(ref)
          /\ res' = [k \in 1..DimY |-> Fold(rows, k, 1)] /\ pos' = 0 /\ rows' = <<>>
          /\ UNCHANGED <<ref, inp, up, mask>>

\* what is relied on
Exact == res # <<>> => res = Metrics
ZeroMeansEqual == res # <<>> => \A k \in 1..DimY : (res[k].l1 = 0) = (\A i \in Sel : Diff(i, k) = 0)
Ordered == res # <<>> => \A k \in 1..DimY :
    /\ res[k].linf <= res[k].l1 /\ res[k].linf * res[k].linf <= res[k].ss
    /\ res[k].ss <= res[k].l1 * res[k].linf /\ res[k].l1 * res[k].l1 <= res[k].n * res[k].ss
    /\ res[k].ss <= res[k].n * res[k].linf * res[k].linf
MaskedOutUnseen == [][\A i \in DOMAIN ref : (mask # <<>> /\ mask' = mask /\ inp' = inp /\ mask[i] = 0 /\ \A j \in DOMAIN ref : j # i => ref'[j] = ref[j])
                         => Metrics' = Metrics]_vars
=============================================================================
