------------------------------ MODULE Rational -------------------------------
(* Rational functions of several variables: for each output, a numerator and a  *)
(* denominator expanded over one graded sequence of multi-degrees, in a          *)
(* polynomial basis of the inputs brought to [-1, 1] from the input domain.      *)
(* Coefficients are integers counting quarters.                                  *)
EXTENDS Degrees

VARIABLES objs,   \* sequence of [basis, dx, dy, lo, hi, par, np, nq, rs: output -> <<>> | <<[p, q, lo, hi]>>]
          tab,    \* reading the sequence of multi-degrees: [d, i, v] number of the last one read, its value
          act
rvars == <<objs, tab, act>>

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
\* the fraction a/b in lowest terms; b = 0 stands for a value that is not finite
Frac(a, b) == IF b = 0 THEN <<IF a = 0 THEN 0 ELSE IF a > 0 THEN 1 ELSE 0 - 1, 0>>
              ELSE IF a = 0 THEN <<0, 1>>
              ELSE LET g == Gcd(Abs(a), Abs(b))  s == IF b < 0 THEN 0 - 1 ELSE 1
                   IN  <<s * (Abs(a) \div g) * (IF a < 0 THEN 0 - 1 ELSE 1), Abs(b) \div g>>

------------------------------------------------------------------------------
(* bases; Legendre polynomials are scaled by 2^n *)
RECURSIVE Cheb(_, _)
Cheb(n, x) == IF n = 0 THEN 1 ELSE IF n = 1 THEN x ELSE 2 * x * Cheb(n - 1, x) - Cheb(n - 2, x)
RECURSIVE Leg(_, _)
Leg(n, x) == IF n = 0 THEN 1 ELSE IF n = 1 THEN 2 * x
             ELSE ((2 * n - 1) * 2 * x * Leg(n - 1, x) - (n - 1) * 4 * Leg(n - 2, x)) \div n
Scaled(basis) == basis \in {"legendre", "cosine"}
Uni(basis, n, x) == CASE basis = "monomial" -> Pow(x, n)
                      [] basis = "chebychev" -> Cheb(n, x)
                      [] OTHER -> Leg(n, x)
Basis(basis, deg, xp) == Prod([k \in DOMAIN deg |-> Uni(basis, deg[k], xp[k])])
\* an input brought to [-1, 1]; a domain reduced to a point is inflated around it
Norm(x, lo, hi) == [k \in DOMAIN x |-> IF lo[k] = hi[k] THEN 0 ELSE (2 * x[k] - lo[k] - hi[k]) \div (hi[k] - lo[k])]
\* sum of coefficients times basis, scaled by 4 and, where the basis is, by 2^D
Poly(o, c, xp, D) ==
    LET deg == Degrees(o.dx, Len(c))
    IN  Sum([i \in DOMAIN c |-> c[i] * Basis(o.basis, deg[i], xp)
                                   * (IF Scaled(o.basis) THEN Pow(2, D - Sum(deg[i])) ELSE 1)])
TopDegree(o, c) == IF c = <<>> THEN 0 ELSE LET g == Degrees(o.dx, Len(c)) IN Sum(g[Len(c)])
\* the cosine factor of a known parametrization, scaled by 4: angles count thirds of pi
TwoCos(k) == LET m == k % 6 IN <<2, 1, 0 - 1, 0 - 2, 0 - 1, 1>>[m + 1]
Factor(o, x) == IF o.basis # "cosine" \/ o.par = "UNKNOWN_INPUT" THEN 4
                ELSE IF o.par = "CARTESIAN" THEN 4 * x[3] * x[6]
                ELSE TwoCos(x[1]) * TwoCos(x[3])
\* numerator and denominator of output k at x, with their common scale
Num(o, k, x) == LET r == o.rs[k][1]  D == Max(TopDegree(o, r.p), TopDegree(o, r.q))
                IN  <<Poly(o, r.p, Norm(x, r.lo, r.hi), D) * Factor(o, x), 16 * (IF Scaled(o.basis) THEN Pow(2, D) ELSE 1)>>
Den(o, k, x) == LET r == o.rs[k][1]  D == Max(TopDegree(o, r.p), TopDegree(o, r.q))
                IN  <<Poly(o, r.q, Norm(x, r.lo, r.hi), D) * 4, 16 * (IF Scaled(o.basis) THEN Pow(2, D) ELSE 1)>>
PAt(o, k, x) == Frac(Num(o, k, x)[1], Num(o, k, x)[2])
QAt(o, k, x) == Frac(Den(o, k, x)[1], Den(o, k, x)[2])
At(o, k, x) == Frac(Num(o, k, x)[1], Den(o, k, x)[1])

------------------------------------------------------------------------------
(* histories *)
Fit(c, n) == [i \in 1..n |-> IF i <= Len(c) THEN c[i] ELSE 0]
\* dividing by the first coefficient of the denominator (b0 divides four times the coefficients)
Over(c, b0) == LET d == IF b0 = 0 THEN 4 ELSE b0 IN [i \in DOMAIN c |-> (IF d < 0 THEN 0 - 4 * c[i] ELSE 4 * c[i]) \div Abs(d)]
New(o) == [p |-> Zero(o.np), q |-> Zero(o.nq), lo |-> o.lo, hi |-> o.hi]
Have(o, k) == IF o.rs[k] = <<>> THEN New(o) ELSE o.rs[k][1]

Create(o) == objs' = Append(objs, [o EXCEPT !.rs = [k \in 1..o.dy |-> <<>>]]) /\ act' = [a |-> "Create"] /\ UNCHANGED tab
Put(i, k, r) == objs' = [objs EXCEPT ![i].rs[k] = <<r>>]
Get(i, k) == Put(i, k, Have(objs[i], k)) /\ act' = [a |-> "Get", i |-> i, k |-> k] /\ UNCHANGED tab
SetSize(i, np, nq) == /\ objs' = [objs EXCEPT ![i].np = np, ![i].nq = nq, ![i].rs = [k \in 1..objs[i].dy |-> <<>>]]
                      /\ act' = [a |-> "SetSize", i |-> i] /\ UNCHANGED tab
\* a new domain, for the outputs made after the next SetSize
SetDomain(i, lo, hi) == /\ objs' = [objs EXCEPT ![i].lo = lo, ![i].hi = hi]
                        /\ act' = [a |-> "SetDomain", i |-> i] /\ UNCHANGED tab
Resize(i, k, np, nq) == LET r == Have(objs[i], k) IN
    /\ Put(i, k, [r EXCEPT !.p = Fit(r.p, np), !.q = Fit(r.q, nq)])
    /\ act' = [a |-> "Resize", i |-> i, k |-> k] /\ UNCHANGED tab
\* a, b: quarters
Update(i, k, a, b) == LET r == Have(objs[i], k) IN
    /\ Put(i, k, [r EXCEPT !.p = Over(a, b[1]), !.q = Over(b, b[1])])
    /\ act' = [a |-> "Update", i |-> i, k |-> k] /\ UNCHANGED tab
\* output k of function i takes the coefficients of output m of function j
Copy(i, k, j, m) == LET r == Have(objs[i], k)  s == objs[j].rs[m][1] IN
    /\ Put(i, k, [r EXCEPT !.p = s.p, !.q = s.q])
    /\ act' = [a |-> "Copy", i |-> i, k |-> k] /\ UNCHANGED tab
\* all outputs at once
CopyAll(i, j) ==
    /\ objs' = [objs EXCEPT ![i].rs = [k \in 1..objs[i].dy |->
            <<[Have(objs[i], k) EXCEPT !.p = Have(objs[j], k).p, !.q = Have(objs[j], k).q]>>],
         ![j].rs = [k \in 1..objs[j].dy |-> IF k <= objs[i].dy THEN <<Have(objs[j], k)>> ELSE objs[j].rs[k]]]
    /\ act' = [a |-> "CopyAll", i |-> i] /\ UNCHANGED tab
\* loading replaces domain and coefficients
Load(i, lo, hi, ps, qs) ==
    /\ objs' = [objs EXCEPT ![i].lo = lo, ![i].hi = hi,
         ![i].rs = [k \in 1..objs[i].dy |-> <<[p |-> Over(ps[k], qs[k][1]), q |-> Over(qs[k], qs[k][1]), lo |-> lo, hi |-> hi]>>]]
    /\ act' = [a |-> "Load", i |-> i] /\ UNCHANGED tab
Read == act' = [a |-> "Read"] /\ UNCHANGED <<objs, tab>>
StartTable(d) == tab' = [d |-> d, i |-> 0, v |-> Zero(d)] /\ act' = [a |-> "Table"] /\ UNCHANGED objs
\* the next multi-degrees, starting again with the last one read
MoreTable(vs) == /\ vs[1] = tab.v
                 /\ \A i \in 1..(Len(vs) - 1) : vs[i + 1] = Succ(vs[i])
                 /\ tab' = [tab EXCEPT !.i = @ + Len(vs) - 1, !.v = vs[Len(vs)]]
                 /\ act' = [a |-> "Table"] /\ UNCHANGED objs

------------------------------------------------------------------------------
(* what the sequence of multi-degrees guarantees *)
RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 THEN 1 ELSE IF n = 0 THEN 0 ELSE Choose(n - 1, k - 1) + Choose(n - 1, k)
Graded(d, n) == LET s == Degrees(d, n) IN \A i \in 1..(n - 1) : Sum(s[i]) <= Sum(s[i + 1])
Injective(d, n) == LET s == Degrees(d, n) IN Cardinality({s[i] : i \in 1..n}) = n
\* the first C(K+d, d) are exactly the monomials of total degree up to K
Complete(d, K) == LET s == Degrees(d, Choose(K + d, d))
                  IN  {s[i] : i \in DOMAIN s} = {v \in [1..d -> 0..K] : Sum(v) <= K}
\* an action on one output leaves all others as they were
Independent == [][\A i \in DOMAIN objs : \A k \in DOMAIN objs[i].rs :
    (act'.a \in {"Get", "Resize", "Update", "Copy"} /\ ~(act'.i = i /\ act'.k = k)) => objs'[i].rs[k] = objs[i].rs[k]]_rvars
\* only setting coefficients changes the ones already there
Kept == [][\A i \in DOMAIN objs : \A k \in DOMAIN objs[i].rs :
    (objs[i].rs[k] # <<>> /\ act'.a \in {"Get", "Resize", "SetDomain", "Create", "Read"}) =>
        LET r == objs[i].rs[k][1]  s == objs'[i].rs[k][1]
        IN  /\ \A n \in DOMAIN r.p \cap DOMAIN s.p : r.p[n] = s.p[n]
            /\ \A n \in DOMAIN r.q \cap DOMAIN s.q : r.q[n] = s.q[n]]_rvars
=============================================================================
