------------------------------ MODULE MCLayout -------------------------------
EXTENDS Layout, TLC, Json
CONSTANTS Depth, MaxLen, PMax, Gen
VARIABLE hist
vars == <<lvars, hist>>
Leaf(n, c, pin) == [k |-> "leaf", id |-> 0, n |-> n, lo |-> [i \in 1..n |-> 0 - c - i], up |-> [i \in 1..n |-> c + i],
                    a |-> <<[i \in 1..n |-> c + i], [i \in 1..n |-> 1 - c * i]>>,
                    b |-> <<[i \in 1..n |-> 1 - c], [i \in 1..n |-> i]>>, pin |-> pin, dx |-> IF pin = "A" THEN 3 ELSE 2]
RECURSIVE Trees(_)
Trees(d) == IF d = 0 THEN {Leaf(0, 0, "A"), Leaf(1, 1, "A"), Leaf(2, 0, "B")}
            ELSE LET T == Trees(d - 1)
                     P == IF d = 1 THEN {<<x, y>> : x \in T, y \in T} ELSE {<<x, y>> : x \in T, y \in Trees(0)}
                 IN  Trees(0) \cup {[k |-> "sum", parts |-> p, fixed |-> <<f, g>>] : p \in P, f \in BOOLEAN, g \in BOOLEAN}
                       \cup {[k |-> "prod", l |-> p[1], r |-> p[2], fl |-> f, fr |-> g] : p \in P, f \in BOOLEAN, g \in BOOLEAN}
                       \cup (IF d = 1 THEN {} ELSE {[k |-> "prod", l |-> p[2], r |-> p[1], fl |-> f, fr |-> g] : p \in P, f \in BOOLEAN, g \in BOOLEAN})
\* number the leaves in order
RECURSIVE Count(_)
Count(t) == IF t.k = "leaf" THEN 1 ELSE SumSeq([i \in DOMAIN Parts(t) |-> Count(Parts(t)[i])])
RECURSIVE Number(_, _)
Number(t, k) == IF t.k = "leaf" THEN [t EXCEPT !.id = k]
                ELSE IF t.k = "sum" THEN [t EXCEPT !.parts = [i \in DOMAIN t.parts |->
                        Number(t.parts[i], k + SumSeq([j \in 1..(i - 1) |-> Count(t.parts[j])]))]]
                ELSE [t EXCEPT !.l = Number(t.l, k), !.r = Number(t.r, k + Count(t.l))]
Init == /\ \E t0 \in Trees(Depth) : tree = Number(t0, 1)
        /\ par = [id \in LeafIds(tree) |-> [i \in 1..LeafOf(tree, id).n |-> i]]
        /\ act = [a |-> "Build"] /\ hist = <<>>
Next == \/ \E v \in [1..Nb(tree) -> 0..PMax] : Set(v) /\ UNCHANGED hist
        \/ Read("Get") /\ UNCHANGED hist
Spec == Init /\ [][Next]_vars
DerivOK == Derivative({[id \in LeafIds(tree) |-> 1], [id \in LeafIds(tree) |-> id - 2]}, {1, 2})
Bounded == Cardinality(DOMAIN tree) > 0
=============================================================================
