------------------------------ MODULE Feasible -------------------------------
(* Whether a rational function with np numerator and nq denominator coefficients *)
(* passes through given intervals with a denominator of one sign: exact, over    *)
(* integer data.  A data set is a sequence of [x, lo, hi], lo and hi by output.   *)
EXTENDS Degrees

Monomial(deg, x) == Prod([k \in DOMAIN deg |-> Pow(x[k], deg[k])])
Row(deg, x, s) == [i \in DOMAIN deg |-> s * Monomial(deg[i], x)]
\* p - lo q > 0 and hi q - p > 0 at every sample
Rows(D, np, nq, k) ==
    LET d == Len(D[1].x)  P == Degrees(d, np)  Q == Degrees(d, nq)
    IN  [i \in 1..(2 * Len(D)) |-> LET s == D[(i + 1) \div 2] IN
            IF i % 2 = 1 THEN Row(P, s.x, 1) \o Row(Q, s.x, 0 - s.lo[k]) ELSE Row(P, s.x, 0 - 1) \o Row(Q, s.x, s.hi[k])]

But(s, k) == [i \in 1..(Len(s) - 1) |-> IF i < k THEN s[i] ELSE s[i + 1]]
RECURSIVE Det(_)
Det(M) == CASE Len(M) = 0 -> 1
            [] Len(M) = 1 -> M[1][1]
            [] Len(M) = 2 -> M[1][1] * M[2][2] - M[1][2] * M[2][1]
            [] Len(M) = 3 -> M[1][1] * (M[2][2] * M[3][3] - M[2][3] * M[3][2]) - M[1][2] * (M[2][1] * M[3][3] - M[2][3] * M[3][1])
                             + M[1][3] * (M[2][1] * M[3][2] - M[2][2] * M[3][1])
            [] OTHER -> LET rest == But(M, 1) IN
                        Sum([j \in 1..Len(M) |-> IF M[1][j] = 0 THEN 0 ELSE (IF j % 2 = 1 THEN 1 ELSE 0 - 1) * M[1][j] * Det([i \in DOMAIN rest |-> But(rest[i], j)])])
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Asc(S \ {m})
RECURSIVE Exactly(_, _, _)   \* subsets of a..m with k elements
Exactly(a, m, k) == IF k = 0 THEN {{}} ELSE IF m - a + 1 < k THEN {}
                    ELSE Exactly(a + 1, m, k) \cup {{a} \cup T : T \in Exactly(a + 1, m, k - 1)}
Sub(A, S) == LET s == Asc(S) IN [i \in DOMAIN s |-> A[s[i]]]
\* rows of full column rank n
FullRank(A, n) == \E S \in Exactly(1, Len(A), n) : Det(Sub(A, S)) # 0
\* A z > 0 has no solution: some rows have a combination with nonnegative weights that vanishes.
\* The weights of n + 1 rows are their maximal minors with alternating signs.
Weights(B) == [i \in DOMAIN B |-> (IF i % 2 = 1 THEN 1 ELSE 0 - 1) * Det(But(B, i))]
OneSign(w) == (\E i \in DOMAIN w : w[i] # 0) /\ ((\A i \in DOMAIN w : w[i] >= 0) \/ (\A i \in DOMAIN w : w[i] <= 0))
Contradictory(A, n) == \E S \in Exactly(1, Len(A), n + 1) : OneSign(Weights(Sub(A, S)))
\* polynomials with np coefficients take any values at the samples
Interpolates(D, np) == LET P == Degrees(Len(D[1].x), np)  A == [j \in 1..np |-> [i \in DOMAIN D |-> Monomial(P[j], D[i].x)]]
                       IN  np >= Len(D) /\ \E S \in Exactly(1, np, Len(D)) : Det(Sub(A, S)) # 0
Open(D, k) == \A i \in DOMAIN D : D[i].lo[k] < D[i].hi[k]
FeasibleOut(D, np, nq, k) ==
    /\ Open(D, k) /\ nq >= 1 /\ Len(D) > 0
    /\ \/ np >= 1 /\ Interpolates(D, np)
       \/ ~Contradictory(Rows(D, np, nq, k), np + nq)
\* samples at the same place: the intersection of their intervals
Tight(D, dy) ==
    LET at(i) == {j \in DOMAIN D : D[j].x = D[i].x}
        top(S) == CHOOSE v \in S : \A w \in S : w <= v
        low(S) == CHOOSE v \in S : \A w \in S : v <= w
        keep == Asc({i \in DOMAIN D : \A j \in at(i) : i <= j})
    IN  [m \in DOMAIN keep |-> LET i == keep[m] IN
            [x |-> D[i].x, lo |-> [k \in 1..dy |-> top({D[j].lo[k] : j \in at(i)})], hi |-> [k \in 1..dy |-> low({D[j].hi[k] : j \in at(i)})]]]
Feasible(D, dy, np, nq) == LET E == Tight(D, dy) IN \A k \in 1..dy : Open(D, k) /\ FeasibleOut(E, np, nq, k)
\* the cases the two criteria decide
Decidable(D, np, nq, k) == Interpolates(D, np) \/ FullRank(Rows(D, np, nq, k), np + nq)
=============================================================================
