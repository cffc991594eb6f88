----------------------------- MODULE MCRational ------------------------------
EXTENDS Rational, TLC
CONSTANTS Dims, K, Steps, Coefs, Sizes
VARIABLE n
vars == <<rvars, n>>
ASSUME \A d \in Dims : Complete(d, K) /\ Graded(d, Choose(K + d, d)) /\ Injective(d, Choose(K + d, d))
\* known values of the bases
ASSUME /\ [i \in 1..5 |-> Cheb(i - 1, 2)] = <<1, 2, 7, 26, 97>>
       /\ [i \in 1..5 |-> Leg(i - 1, 1)] = <<1, 2, 4, 8, 16>>
       /\ [i \in 1..5 |-> Leg(i - 1, 0)] = <<1, 0, 0 - 2, 0, 6>>
       /\ Leg(2, 2) = 22 /\ Leg(3, 2) = 136 /\ Leg(3, 0 - 2) = 0 - 136
Obj(dx) == [basis |-> "monomial", dx |-> dx, dy |-> 2, lo |-> [k \in 1..dx |-> 0 - 1], hi |-> [k \in 1..dx |-> 1], par |-> "UNKNOWN_INPUT",
            np |-> 1, nq |-> 1, rs |-> <<>>]
Init == objs = <<[Obj(1) EXCEPT !.rs = <<<<>>, <<>>>>]>> /\ tab = [d |-> 2, i |-> 0, v |-> Zero(2)] /\ act = [a |-> "Create"] /\ n = 0
Next == /\ n < Steps /\ n' = n + 1
        /\ \/ Len(objs) < 2 /\ Create(Obj(2))
           \/ \E i \in DOMAIN objs, k \in 1..2 :
                \/ Get(i, k)
                \/ \E a \in Sizes, b \in Sizes \ {0} : Resize(i, k, a, b)
                \/ \E a \in Sizes, b \in Sizes \ {0} : \E va \in [1..a -> Coefs], vb \in [1..b -> Coefs] : Update(i, k, va, vb)
                \/ \E j \in DOMAIN objs, m \in 1..2 : objs[j].rs[m] # <<>> /\ Copy(i, k, j, m)
           \/ \E i \in DOMAIN objs, a \in Sizes : SetSize(i, a, 1)
           \/ \E i \in DOMAIN objs, j \in DOMAIN objs : i # j /\ CopyAll(i, j)
           \/ Read
Spec == Init /\ [][Next]_vars
\* the value is unchanged when numerator and denominator are scaled together, and follows the coefficients
ValueOK == \A i \in DOMAIN objs : \A k \in 1..2 : objs[i].rs[k] # <<>> =>
    LET o == objs[i]  x == [c \in 1..o.dx |-> 1]  r == o.rs[k][1]
    IN  /\ At(o, k, x) = Frac(Sum(r.p), Sum(r.q))
        /\ At(o, k, Zero(o.dx)) = Frac(IF r.p = <<>> THEN 0 ELSE r.p[1], IF r.q = <<>> THEN 0 ELSE r.q[1])
=============================================================================
