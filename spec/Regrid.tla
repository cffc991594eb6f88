------------------------------- MODULE Regrid -------------------------------
(* Tables over the half and difference angles (RUSIN_TH_TD with an azimuth of  *)
(* 90 degrees, RUSIN_TH_TD_PD) and how one is made from another: interpolated   *)
(* at the nodes of the new one, or copied row by row ("splat").                 *)
(* A table is [n |-> sizes, dy, y |-> rows in order, the last angle fastest].   *)
(* Angles are rational parts <<a, b>> of their ranges: 0..90, 0..90, 0..360.    *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Size(t) == Prod(t.n)
\* the place, along every angle, of row i (from 0)
RECURSIVE Place(_, _)
Place(n, i) == IF n = <<>> THEN <<>>
               ELSE LET r == Prod(Tail(n)) IN <<i \div r>> \o Place(Tail(n), i % r)
RECURSIVE Row(_, _)
Row(n, k) == IF n = <<>> THEN 0 ELSE (Head(k) * Prod(Tail(n))) + Row(Tail(n), Tail(k))
Part(n, k) == [j \in DOMAIN n |-> IF n[j] = 1 THEN <<0, 1>> ELSE <<k[j], n[j] - 1>>]
\* all three angles of row i
Angles(n, i) == LET p == Part(n, Place(n, i)) IN IF Len(n) = 2 THEN p \o <<<<1, 4>>>> ELSE p

Zero(q) == q[1] = 0
One(q) == q[1] = q[2]
\* both directions above the surface: cos th cos td -+ sin th sin td cos pd >= 0
\* (azimuths are multiples of 90 degrees)
Above(q) ==
    LET th == q[1]  td == q[2]  pd == q[3]
        quarter == (4 * pd[1]) \div pd[2]
        sum == (th[1] * td[2]) + (td[1] * th[2])   of == th[2] * td[2]
    IN IF quarter % 2 = 1 THEN IF One(th) \/ One(td) THEN "edge" ELSE "yes"
       ELSE IF sum < of THEN "yes" ELSE IF sum = of THEN "edge" ELSE "no"

\* opposite directions have no half vector: what is there is not determined
NoHalf(q) == One(q[2])

\* interpolation of t at the angles q: <<numerators, denominator>>
Lo(n, q) == IF n = 1 THEN 0 ELSE (q[1] * (n - 1)) \div q[2]
Rest(n, q) == IF n = 1 THEN 0 ELSE (q[1] * (n - 1)) % q[2]
Interp(t, q) ==
    LET D == DOMAIN t.n
        den == Prod([j \in D |-> q[j][2]])
        W(U) == Prod([j \in D |-> IF j \in U THEN Rest(t.n[j], q[j]) ELSE q[j][2] - Rest(t.n[j], q[j])])
        At(U) == t.y[1 + Row(t.n, [j \in D |-> Lo(t.n[j], q[j]) + (IF j \in U THEN 1 ELSE 0)])]
    IN <<[e \in 1..t.dy |-> MapThenSumSet(LAMBDA U : IF W(U) = 0 THEN 0 ELSE W(U) * At(U)[e], SUBSET D)], den>>

Zeros(t) == [e \in 1..t.dy |-> 0]
Exact(v) == [e \in DOMAIN v[1] |-> v[1][e] \div v[2]]
\* what row i of the new table of sizes m may hold
Into(t, m, i) ==
    LET q == Angles(m, i)   a == Above(q)   v == Exact(Interp(t, q))
    IN CASE a = "yes" -> {v} [] a = "no" -> {Zeros(t)} [] OTHER -> {v, Zeros(t)}
\* row by row: what is below is left out unless asked for
Splat(t, all, i) ==
    LET a == Above(Angles(t.n, i))   v == t.y[i + 1]
    IN IF all \/ a = "yes" THEN {v} ELSE IF a = "no" THEN {Zeros(t)} ELSE {v, Zeros(t)}

\* moments of a table over the unit square, of samples k/s along every side,
\* above its least value: sums of (value * den) * x^p * y^q, in units of the steps
RECURSIVE PowI(_, _)
PowI(a, n) == IF n = 0 THEN 1 ELSE a * PowI(a, n - 1)
Least(t, e) == Min({t.y[i][e] : i \in DOMAIN t.y})
MomentSum(t, s, dx, dy, e, p, q) ==
    LET den == Prod(s) IN
    MapThenSumSet(LAMBDA i : LET k == Place(s, i)
                                 v == Interp(t, [j \in DOMAIN s |-> <<k[j], s[j]>>])[1][e] - (den * Least(t, e))
                             IN v * PowI(k[dx], p) * PowI(k[dy], q), 0..(den - 1))
=============================================================================
