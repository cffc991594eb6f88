------------------------------ MODULE MCDataEq ------------------------------
EXTENDS DataEq
CONSTANT N
V == {<<0, 0>>, <<0, 4>>, <<0, 20>>, <<4, 0>>, <<5, 0>>, NaN}
Ds(n) == [dx : {1}, dy : {1}, pin : {"P", "Q"}, pout : {"R"}, rows : [1..n -> [1..2 -> V]]]
         \cup [dx : {2}, dy : {1}, pin : {"P"}, pout : {"R"}, rows : {[i \in 1..n |-> <<V0, V0, V0>>] : V0 \in V}]
MCInit == /\ da \in Ds(1) \cup Ds(N) /\ db \in Ds(1) /\ tol \in {<<0, 10>>, <<4, 0>>, <<0, 0>>} /\ EqInit
=============================================================================
