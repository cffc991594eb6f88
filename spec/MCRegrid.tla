------------------------------ MODULE MCRegrid ------------------------------
(* Chains of conversions of small tables.                                       *)
EXTENDS Regrid, TLC
CONSTANTS Sizes2, Sizes3, Vals, Depth, MaxRows
S2 == {<<2, 2>>, <<3, 2>>, <<1, 3>>, <<3, 3>>, <<4, 2>>}
S3 == {<<2, 2, 2>>, <<3, 3, 3>>}
S2L == {<<2, 2>>, <<3, 3>>, <<4, 3>>, <<5, 5>>, <<7, 4>>, <<3, 1>>}
S3L == {<<2, 2, 3>>, <<3, 2, 3>>, <<4, 3, 5>>}
VARIABLES first, t, depth
vars == <<first, t, depth>>
Shapes == Sizes2 \cup Sizes3
\* physical tables: the azimuth is immaterial when an angle is null, and its ends are the same
Physical(u) == Len(u.n) = 2 \/
    \A i \in 0..(Size(u) - 1) : LET k == Place(u.n, i) IN
        (k[1] = 0 \/ k[2] = 0 \/ k[3] = u.n[3] - 1) => u.y[i + 1] = u.y[1 + Row(u.n, [k EXCEPT ![3] = 0])]
Tables(n) == {u \in {[n |-> n, dy |-> 1, y |-> [i \in 1..Prod(n) |-> <<f[i]>>]] : f \in [1..Prod(n) -> Vals]} : Physical(u)}
Init == /\ \E n \in {m \in Shapes : Prod(m) <= MaxRows} : first \in Tables(n)
        /\ t = first /\ depth = 0
Result(m) == [n |-> m, dy |-> 1, y |-> [i \in 1..Prod(m) |-> CHOOSE v \in Into(t, m, i - 1) : TRUE]]
Next == depth < Depth /\ \E m \in Shapes : t' = Result(m) /\ depth' = depth + 1 /\ UNCHANGED first
Spec == Init /\ [][Next]_vars

V(u) == {u.y[i][1] : i \in DOMAIN u.y}
\* rows and places are inverse
Places == \A i \in 0..(Size(t) - 1) : Row(t.n, Place(t.n, i)) = i /\ \A j \in DOMAIN t.n : Place(t.n, i)[j] \in 0..(t.n[j] - 1)
\* no value leaves the range of the first, but for nothing below the surface
Within == \A v \in V(t) : v \in Min(V(first) \cup {0})..Max(V(first) \cup {0})
\* a table converted to its own shape keeps what is above; row by row, too
Same == \A i \in 0..(Size(t) - 1) : Above(Angles(t.n, i)) = "yes" =>
            /\ Into(t, t.n, i) = {t.y[i + 1]} /\ Splat(t, FALSE, i) = {t.y[i + 1]} /\ Splat(t, TRUE, i) = {t.y[i + 1]}
\* the values at the nodes of a table survive any refinement of it
Refines(m, n) == \A j \in DOMAIN n : n[j] > 1 /\ m[j] > 1 /\ (m[j] - 1) % (n[j] - 1) = 0
Keeps == \A m \in Shapes : (Len(m) = Len(t.n) /\ Refines(m, t.n)) =>
            \A i \in 0..(Size(t) - 1) : LET k == Place(t.n, i)  kk == [j \in DOMAIN k |-> k[j] * ((m[j] - 1) \div (t.n[j] - 1))] IN
                Above(Angles(t.n, i)) = "yes" => Into(t, m, Row(m, kk)) = {t.y[i + 1]}
\* a constant stays one
Constant == Cardinality(V(first)) = 1 => V(t) \subseteq V(first) \cup {0}
\* the azimuth plays no role in what is made from two angles
NoAzimuth == (depth = 1 /\ Len(first.n) = 2 /\ Len(t.n) = 3) =>
    \A i \in 0..(Size(t) - 1) : LET k == Place(t.n, i) IN
        \A p \in 0..(t.n[3] - 1) : LET i2 == Row(t.n, [k EXCEPT ![3] = p]) IN
            (Above(Angles(t.n, i)) = "yes" /\ Above(Angles(t.n, i2)) = "yes") => t.y[i + 1] = t.y[i2 + 1]
\* moments: of a constant they are null, exchanging the sides exchanges them, and x varies as a distribution does
Moments == Len(t.n) = 2 => LET s == <<3, 2>>  M(dx, dy, p, q) == MomentSum(t, s, dx, dy, 1, p, q) IN
    /\ Cardinality(V(t)) = 1 => M(1, 2, 0, 0) = 0
    /\ M(1, 2, 2, 1) = M(2, 1, 1, 2) /\ M(1, 2, 1, 0) = M(1, 1, 0, 1)
    /\ \A i \in DOMAIN t.y : t.y[i][1] >= Least(t, 1)
    /\ M(1, 2, 0, 0) >= 0 /\ (M(1, 2, 1, 0) * M(1, 2, 1, 0)) <= (M(1, 2, 0, 0) * M(1, 2, 2, 0))
=============================================================================
