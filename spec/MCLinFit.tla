------------------------------ MODULE MCLinFit -------------------------------
(* Enough samples determine a rational function of one input: any other that agrees  *)
(* with it, after multiplying by the denominators, is the same function.              *)
EXTENDS LinFit
CONSTANTS Cs, MaxP, MaxQ, Points
VARIABLES np, nq
QCs == {0 - 1, 0, 1, 2}
QPoints == {0 - 4, 0 - 1, 2, 4}
LCs == {0 - 2, 0 - 1, 0, 1, 2, 3}
LPoints == {0 - 4, 0 - 3, 0 - 1, 2, 4}
Coefs(n) == [1..n -> Cs]
P(c, t) == PolyAt(c, 1, <<t>>, 2)
NonZero(c) == \E i \in DOMAIN c : c[i] # 0
Init == /\ np \in 1..MaxP /\ nq \in 1..MaxQ /\ act = [a |-> "Init"]
        /\ \E p \in Coefs(np), q \in Coefs(nq) : NonZero(p) /\ (\A t \in Points : P(q, t) # 0)
              /\ prob = [dx |-> 1, kind |-> 2, ts |-> Points, P |-> <<p>>, Q |-> <<q>>]
Spec == Init /\ [][UNCHANGED <<lvars, np, nq>>]_<<lvars, np, nq>>
\* the values of the second at every point where its denominator is not zero
Same(p, q, a, b) == \A t \in -8..8 : P(a, t) * P(q, t) = P(p, t) * P(b, t)
Determined ==
    np + nq - 1 <= Cardinality(prob.ts) =>
        \A a \in Coefs(np), b \in Coefs(nq) :
            (NonZero(a) \/ NonZero(b)) /\ (\A t \in prob.ts : P(a, t) * P(prob.Q[1], t) = P(prob.P[1], t) * P(b, t))
                => NonZero(b) /\ Same(prob.P[1], prob.Q[1], a, b)
\* the exact values are accepted by the oracle, and clearly different ones are not
Oracle == \A t \in prob.ts : LET v == (10000 * P(prob.P[1], t)) \div P(prob.Q[1], t)
                             IN  /\ Close(v, prob.P[1], prob.Q[1], 1, <<t>>, 10000, 2)
                                 /\ ~Close(v + 10 + 4 * (Abs(v) \div 10000), prob.P[1], prob.Q[1], 1, <<t>>, 10000, 2)
=============================================================================
