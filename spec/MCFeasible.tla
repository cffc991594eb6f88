----------------------------- MODULE MCFeasible ------------------------------
(* The exact feasibility criterion: agrees with the quadratic programming oracle, *)
(* and is monotone in the size.                                                    *)
EXTENDS Feasible, TLC, Json
CONSTANTS Xs, Lo, Width, MaxP, MaxQ
VARIABLE D
Lows == {0 - 1, 0, 2}
Q == INSTANCE QP WITH prog <- 0, work <- 0, sol <- 0, sched <- 0, verdict <- 0
Sample(x) == {[x |-> <<x>>, lo |-> <<a>>, hi |-> <<a + w>>] : a \in Lo, w \in Width}
Init == \E f \in [Xs -> {<<a, w>> : a \in Lo, w \in Width}] : D = [i \in 1..Cardinality(Xs) |-> LET x == Asc(Xs)[i] IN [x |-> <<x>>, lo |-> <<f[x][1]>>, hi |-> <<f[x][1] + f[x][2]>>]]
Spec == Init /\ [][UNCHANGED D]_D
Prog(A, n) == [n |-> n, G |-> [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]], g |-> [i \in 1..n |-> 0], E |-> <<>>, e |-> <<>>,
               A |-> A, b |-> [i \in DOMAIN A |-> 1]]
\* a homogeneous system of strict inequalities has a solution when the one with right sides 1 has
Agree == \A p \in 1..MaxP, q \in 1..MaxQ : p + q <= 3 =>
    FeasibleOut(D, p, q, 1) = (Q!Best(Prog(Rows(D, p, q, 1), p + q)) # <<>>)
Monotone == \A p \in 1..MaxP, q \in 1..MaxQ :
    FeasibleOut(D, p, q, 1) => /\ p < MaxP => FeasibleOut(D, p + 1, q, 1)
                               /\ q < MaxQ => FeasibleOut(D, p, q + 1, 1)
Decided == \A p \in 1..MaxP, q \in 1..MaxQ : Open(D, 1) => Decidable(D, p, q, 1)
=============================================================================
