----------------------------- MODULE MCModels -----------------------------
(* A model object: its parameters are set, read and perturbed one at a time   *)
(* and it is evaluated at configurations; checked properties of what Models   *)
(* says about every such history.                                             *)
EXTENDS Models, TLC

CONSTANTS NYs, LobeCounts, NPars, Small

VARIABLES c,     \* the model
          p,     \* its parameters
          x,     \* the configuration it was last evaluated at (at first <<>>)
          q      \* the parameters before the last change
vars == <<c, p, x, q>>

Dirs == IF Small THEN {<<0, 0, 1, 1>>, <<3, 0, 4, 5>>, <<0-2, 1, 2, 3>>, <<2, 3, 6, 7>>, <<0, 4, 0-3, 5>>}
        ELSE {<<0, 0, 1, 1>>, <<3, 0, 4, 5>>, <<0-3, 0, 4, 5>>, <<0, 4, 3, 5>>, <<2, 1, 2, 3>>, <<0-2, 1, 2, 3>>, <<1, 0-2, 2, 3>>,
              <<2, 3, 6, 7>>, <<6, 0-2, 3, 7>>, <<0, 3, 0-4, 5>>}
Configs(m, t) == IF m \in OneD THEN {<<k>> : k \in IF m = "retroyoo" THEN 1..8 ELSE (0-2)..8}
              ELSE {<<l, v>> \in Dirs \X Dirs : Z(l) + Z(v) > 3000 /\ Dot(l, v) > 0-7000 /\ Mir(l, v) > 0-7000
                                             /\ (m = "ward" => l[3] * v[3] # 0)
                                             /\ (m = "retrobeckmann" /\ t = "retro" => Dot(l, v) <= 0 \/ Dot(l, v) > 5000)}
Types(m) == IF m = "spherical_gaussian" THEN {"mirror", "half", "retro", "back", "moment"}
            ELSE IF m = "retrobeckmann" THEN {"back", "retro"} ELSE {"-"}
(* the values parameter j of a block is tried with *)
Vals(m, j) ==
    CASE m \in {"blinn", "retroblinn"} -> IF j = 1 THEN {4, 24} ELSE {8, 24}
      [] m = "abc" -> IF j = 3 THEN {8, 24} ELSE {4, 20}
      [] m = "lafortune" -> IF j = 4 THEN {8, 16} ELSE {0-8, 5, 8}
      [] m = "isotropic_lafortune" -> IF j = 3 THEN {8, 16} ELSE {0-8, 5, 8}
      [] m \in {"beckmann", "retrobeckmann"} -> IF j = 1 THEN {4, 24} ELSE {4, 8}
      [] m = "ward" -> IF j = 1 THEN {4, 24} ELSE {4, 8}
      [] m = "spherical_gaussian" -> IF j = 1 THEN {4, 24} ELSE {4, 16}
      [] m = "retroyoo" -> {4, 16}
      [] m = "sgd" -> IF j = 4 THEN {0} ELSE IF j = 5 THEN {8} ELSE IF j = 6 THEN {1, 7} ELSE IF j = 7 THEN {0} ELSE {6}
      [] m \in {"shadowing_schlick"} -> {0, 4, 8}
      [] OTHER -> {2, 8}
OfSlot(k, j) == IF k.m = "sgd" THEN ((j - 1) \div k.ny) + 1 ELSE IF Shared(k) = 1 /\ j = Nb(k) THEN 0 ELSE ((j - 1) % PerOutput(k.m)) + 1
SlotVals(k, j) == IF OfSlot(k, j) = 0 THEN {8, 16} ELSE Vals(k.m, OfSlot(k, j))
LeastOf(T) == CHOOSE v \in T : \A w \in T : v <= w

Init == \E m \in Names, ny \in NYs, nl \in LobeCounts : \E t \in Types(m) :
            /\ (nl > 1 => m \in {"lafortune", "isotropic_lafortune"})
            /\ c = [m |-> m, ny |-> ny, lobes |-> nl, type |-> t, kd |-> [i \in 1..ny |-> i - 1]]
            /\ p = [j \in 1..Nb(c) |-> LeastOf(SlotVals(c, j))]
            /\ q = p
            /\ x = <<>>
(* at most NPars parameters are away from their first value at any time *)
Moved(r) == Cardinality({j \in 1..Nb(c) : r[j] # LeastOf(SlotVals(c, j))})
SetOne == \E j \in 1..Nb(c) : \E v \in SlotVals(c, j) :
            /\ p' = [p EXCEPT ![j] = v] /\ Moved(p') <= NPars
            /\ q' = p /\ UNCHANGED <<c, x>>
Eval == \E y \in Configs(c.m, c.type) : x' = y /\ q' = p /\ UNCHANGED <<c, p>>
Next == SetOne \/ Eval
Spec == Init /\ [][Next]_vars

Defined == x # <<>> /\ Known(c, p, 1, x)
V(i) == Value(c, p, i, x)

(* every parameter belongs to an output; outputs share none but the common one *)
Layout == /\ UNION {Uses(c, i) : i \in 1..c.ny} = 1..Nb(c)
          /\ \A i, k \in 1..c.ny : i # k => (Uses(c, i) \cap Uses(c, k)) \subseteq (IF Shared(c) = 1 THEN {Nb(c)} ELSE {})
(* a change of one parameter is seen only by the outputs that use it *)
Independent == (Defined /\ Known(c, q, 1, x)) => \A i \in 1..c.ny : (\A j \in Uses(c, i) : p[j] = q[j]) => Value(c, q, i, x) = V(i)
NonNegative == Defined => \A i \in 1..c.ny : c.m # "lafortune" /\ c.m # "isotropic_lafortune" => V(i) >= 0
Bounded == (Defined /\ UnitInterval(c.m)) => \A i \in 1..c.ny : V(i) <= S + 6
Swap(y) == <<y[2], y[1]>>
IsReciprocal == (Defined /\ Reciprocal(c.m)) => \A i \in 1..c.ny : Close(c.m, Value(c, p, i, Swap(x)), V(i))
(* a Fresnel factor is the parameter when the vectors meet, one at grazing *)
FresnelEnds == (Defined /\ c.m = "schlick") =>
    \A i \in 1..c.ny : /\ V(i) >= Par(p[i]) - 6 /\ (x[1] = x[2] => Abs(V(i) - Par(p[i])) <= 6)
NormalizedEnds == (Defined /\ c.m = "normalized_schlick") =>
    \A i \in 1..c.ny : V(i) >= S - 6 /\ Close("x", Mul(V(i), Par(p[i])), Value([c EXCEPT !.m = "schlick"], p, i, x))
(* doubling the scale doubles the value; a zero scale gives zero *)
Proportional == (Defined /\ Scales(c.m)) =>
    \A i \in 1..c.ny : LET r(k) == [p EXCEPT ![Idx(c, i, 1, 1)] = k] IN
        /\ Value(c, r(0), i, x) = 0
        /\ Abs(Value(c, r(16), i, x) - 2 * Value(c, r(8), i, x)) <= 3
(* rotating both directions about the normal changes nothing but Ward and Lafortune *)
Turn(d) == <<0 - d[2], d[1], d[3], d[4]>>
Isotropic == (Defined /\ c.m \notin OneD /\ c.m \notin {"ward", "lafortune"}) =>
    \A i \in 1..c.ny : Close(c.m, Value(c, p, i, <<Turn(x[1]), Turn(x[2])>>), V(i))
(* rougher shadows more, and looking straight down nothing is shadowed *)
Shadows == (Defined /\ c.m \in {"shadowing_schlick", "shadowing_walter"} /\ Above(x[1], x[2])) =>
    \A i \in 1..c.ny : /\ (x[1] = <<0, 0, 1, 1>> /\ x[2] = x[1] => V(i) = S)
                      /\ Value(c, [p EXCEPT ![i] = @ + 8], i, x) <= V(i) + 6
=============================================================================
