----------------------------- MODULE MCDescribe ------------------------------
EXTENDS Describe, TLC
CONSTANTS MaxLen
VARIABLE n
vars == <<lvars, reg, n>>
D(k, c, pin) == [kind |-> "leaf", pin |-> pin, n |-> k, p |-> [i \in 1..k |-> c + i], lo |-> [i \in 1..k |-> 0 - c], up |-> [i \in 1..k |-> c + i],
                 a |-> <<[i \in 1..k |-> c + i]>>, b |-> <<[i \in 1..k |-> 1 - c]>>, dx |-> 2]
Reg == [x \in {"p", "q", "r", "x", "z"} |-> CASE x = "p" -> D(1, 0, "given") [] x = "q" -> D(2, 3, "B") [] x = "r" -> D(0, 5, "given")
                                             [] x = "x" -> [kind |-> "plain"] [] x = "z" -> [kind |-> "null"]]
Words0 == {"--func", "p", "q]", "[p", "--fixed,", ",", "--fresnel", "[r]", "q", "x", "nope", "--fixed-lobe", "--fixed-fresnel", "[p,r]"}
G == [pin |-> "A", dx |-> 3, dy |-> 1]
Init == tree = None /\ par = <<>> /\ act = [a |-> "Build"] /\ reg = Reg /\ n = 0
Next == \/ /\ n = 0 /\ n' = 1
           /\ \E k \in 0..MaxLen : \E ws \in [1..k -> Words0] : Describe(<<"--func">> \o ws, G)
        \/ /\ n = 1 /\ n' = 2 /\ Nonlinear(tree)
           /\ \E v \in [1..Nb(tree) -> {0, 7}] : Set(v) /\ UNCHANGED reg
Spec == Init /\ [][Next]_vars
DerivOK == Nonlinear(tree) => Derivative({[id \in LeafIds(tree) |-> id - 2]}, {1})
ReadsBackOK == Nonlinear(tree) => ReadsBack
FixedOK == [][Nonlinear(tree) /\ act'.a # "Build" => \A id \in FixedIds(tree) : par'[id] = par[id]]_vars
=============================================================================
