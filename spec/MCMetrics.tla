----------------------------- MODULE MCMetrics -----------------------------
EXTENDS Metrics
CONSTANTS Samples, Outputs, Top
Confs == 1..3
Values == 0..Top
Init == /\ ref \in {r \in [1..Samples -> [c : Confs, y : [1..Outputs -> Values]]] : TRUE}
        /\ inp = [c \in Confs |-> [k \in 1..Outputs |-> (c + k) % (Top + 1)]]
        /\ up = [c \in Confs |-> c # 3]
        /\ mask \in {<<>>} \cup [1..Samples -> {0, 1}]
        /\ rows = <<>> /\ pos = 0 /\ res = <<>>
Next == \/ \E i \in 1..Samples, k \in 1..Outputs, v \in Values : pos = 0 /\ Poke(i, k, v)
        \/ \E i \in DOMAIN mask, v \in {0, 2} : pos = 0 /\ Flip(i, v)
        \/ \E c \in {1} : pos = 0 /\ PokeIn(c, 1, Top)
        \/ Unmask \/ Start \/ Visit \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
