------------------------------ MODULE Degrees -------------------------------
EXTENDS Integers, Sequences, FiniteSets

Abs(a) == IF a < 0 THEN 0 - a ELSE a
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))

(* the sequence of multi-degrees *)
Zero(d) == [k \in 1..d |-> 0]
\* within a total degree the last coordinate varies slowest, the first takes the rest
Succ(v) ==
    LET d == Len(v)
        nz == {j \in 2..d : v[j] > 0}
        j == IF nz = {} THEN 0 ELSE CHOOSE a \in nz : \A b \in nz : a <= b
    IN  IF d = 1 THEN <<v[1] + 1>>
        ELSE IF v[1] > 0 THEN [v EXCEPT ![1] = @ - 1, ![2] = @ + 1]
        ELSE IF nz = {} \/ j = d THEN [k \in 1..d |-> IF k = 1 THEN Sum(v) + 1 ELSE 0]
        ELSE [v EXCEPT ![1] = v[j] - 1, ![j] = 0, ![j + 1] = @ + 1]
RECURSIVE Degrees(_, _)
Degrees(d, n) == IF n = 0 THEN <<>> ELSE IF n = 1 THEN <<Zero(d)>>
                 ELSE LET s == Degrees(d, n - 1) IN Append(s, Succ(s[n - 1]))
=============================================================================
