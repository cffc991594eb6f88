-------------------------------- MODULE MCQP ---------------------------------
EXTENDS QP, TLC, SequencesExt, FiniteSetsExt
CONSTANTS Rows, Rhs, M, Costs, Sizes
Line == {<<r, b>> : r \in Rows, b \in Rhs}
Progs == {LET q == SetToSeq(L) IN [n |-> 2, G |-> c[1], g |-> c[2], E |-> <<>>, e |-> <<>>, A |-> [i \in 1..M |-> q[i][1]], b |-> [i \in 1..M |-> q[i][2]]]
          : c \in Costs, L \in kSubset(M, Line)}
Costs0 == {<<<<<<2, 1>>, <<1, 1>>>>, <<1, 0 - 1>>>>}
Costs1 == {<<<<<<1, 0>>, <<0, 1>>>>, <<0, 0>>>>, <<<<<<2, 1>>, <<1, 1>>>>, <<1, 0 - 1>>>>}
Round == {r \in {0 - 1, 0, 1} \X {0 - 1, 0, 1} : r # <<0, 0>>}
Some == {<<1, 0>>, <<0 - 1, 1>>, <<0, 0 - 1>>, <<1, 1>>, <<0 - 1, 0>>}
Init == \E P \in Progs, mode \in {"any", "window", "grow"}, size \in Sizes : (mode = "any" => size = 1) /\ Open(P, mode, size)
Next == \/ \E T \in SUBSET Violated, d \in {{}, All(prog)} : Feed(T, d)
        \/ \E i \in All(prog), d \in {{}, All(prog)} : FeedWindow(i, d)
        \/ NextWindow \/ Grow \/ Stop
Spec == Init /\ [][Next]_qvars /\ WF_qvars(Next)
Ends == <>(verdict # "open")
\* the windows visited between two restarts cover every row
Covered(c, m) == LET at[k \in 0..m] == IF k = 0 THEN 0 ELSE Shifted(at[k - 1], c, m)
                 IN \A k0 \in 0..m : UNION {(at[k] + 1)..(at[k] + c) : k \in k0..(k0 + Windows(c, m) - 1) \cap 0..m} = 1..m \/ k0 + Windows(c, m) - 1 > m
ASSUME \A m \in 1..9 : \A c \in 1..m : Covered(c, m)
=============================================================================
