------------------------------- MODULE MCNLFit -------------------------------
EXTENDS NLFit, TLC
CONSTANTS W, Out
Leaf(id, n, a, b) == [k |-> "leaf", id |-> id, n |-> n, lo |-> [i \in 1..n |-> 0 - (i % 2)], up |-> [i \in 1..n |-> W - 1],
                      a |-> <<a>>, b |-> <<b>>, pin |-> "A", dx |-> 1, dy |-> 1]
T1 == Leaf(1, 1, <<1>>, <<0>>)
T2 == Leaf(1, 2, <<1, 0>>, <<0, 1>>)
S(x, y, f, g) == [k |-> "sum", parts |-> <<x, y>>, fixed |-> <<f, g>>]
P(x, y, f, g) == [k |-> "prod", l |-> x, r |-> y, fl |-> f, fr |-> g]
L2 == Leaf(2, 1, <<2>>, <<1>>)
Trees == {T1, T2, S(T1, L2, FALSE, FALSE), S(T1, L2, TRUE, FALSE), S(T2, L2, FALSE, TRUE), P(T1, L2, FALSE, TRUE), P(T1, L2, FALSE, FALSE), P(T2, L2, TRUE, FALSE)}
Samples == {[s |-> <<x, x>>, c |-> c, d |-> <<y>>] : x \in {0, 1}, c \in {5, 3}, y \in 0..Out}
Second == {[s |-> <<1, 0>>, c |-> 5, d |-> <<y>>] : y \in 1..(Out - W + 2)}
Sets == {<<a>> : a \in Samples} \cup {<<a, b>> : a \in Samples, b \in Second}
Init == /\ \E t \in Trees, X \in Sets : tree = t /\ D = X
        /\ par = [id \in LeafIds(tree) |-> [i \in 1..LeafOf(tree, id).n |-> 1]]
        /\ act = [a |-> "Build"] /\ dom = "none" /\ fit = [st |-> "idle", start |-> <<>>, best |-> <<>>]
Vecs == [1..Nb(tree) -> 0 - 1..W]
Next == \/ fit.st = "idle" /\ \E v \in Vecs : Start(v)
        \/ \E v \in Vecs : Look(v)
        \/ Keep \/ Finish \/ Fail
Spec == Init /\ [][Next]_nvars
Optimal == act.a = "Build" => BestIsBest /\ BestHolds
=============================================================================
