------------------------------ MODULE Models ------------------------------
(* The reflectance models that come with the library (property C25): what    *)
(* each one computes at a configuration, how its parameters are laid out and  *)
(* what its bounds promise.                                                   *)
(* Numbers are fixed point, S = 10^4 per unit; a parameter is an integer      *)
(* number of eighths.  Directions are rational unit vectors <<x, y, z, d>>    *)
(* standing for (x, y, z)/d with z the height above the surface.              *)
EXTENDS Integers, Sequences, FiniteSets

S == 10000
Abs(a) == IF a < 0 THEN 0 - a ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

(* n/d in fixed point, rounded towards zero then corrected by long division   *)
(* (no intermediate result exceeds 32 bits as long as d < 2*10^8)             *)
FixPos(n, d) ==
    LET d0 == n \div d           r0 == (n % d) * 10
        d1 == r0 \div d          r1 == (r0 % d) * 10
        d2 == r1 \div d          r2 == (r1 % d) * 10
        d3 == r2 \div d          r3 == (r2 % d) * 10
        d4 == r3 \div d          r4 == (r3 % d) * 10
    IN d0 * S + d1 * 1000 + d2 * 100 + d3 * 10 + d4 + (IF r4 \div d >= 5 THEN 1 ELSE 0)
Fix(n, d) == IF n < 0 THEN 0 - FixPos(0 - n, d) ELSE FixPos(n, d)

(* products and quotients of fixed-point numbers *)
Mul(a, b) ==
    LET A == Abs(a)   B == Abs(b)
        ah == A \div S   al == A % S
        \* ah * B is exact; the rest is rounded
        q == (ah * B) + ((al * (B \div S)) + (((al * (B % S)) + (S \div 2)) \div S))
    IN IF (a < 0) # (b < 0) THEN 0 - q ELSE q
Div(a, b) == LET q == FixPos(Abs(a), Abs(b)) IN IF (a < 0) # (b < 0) THEN 0 - q ELSE q
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN S ELSE Mul(a, Pow(a, n - 1))

(* floor of the square root of the integer n, by bisection *)
RECURSIVE ISqrtIn(_, _, _)
ISqrtIn(n, lo, hi) == IF hi - lo <= 1 THEN lo
                      ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN ISqrtIn(n, m, hi) ELSE ISqrtIn(n, lo, m)
ISqrt(n) == ISqrtIn(n, 0, 46340)
Sqrt(f) == ISqrt(f * S)                     \* f <= 21

(* exp(-k) for k >= 0 in fixed point: the sum of the series of exp(k) inverted *)
RECURSIVE ExpTerms(_, _, _)
ExpTerms(k, n, t) == IF t = 0 \/ n > 30 THEN 0
                     ELSE LET u == Mul(t, k) IN ((u + (n \div 2)) \div n) + ExpTerms(k, n + 1, (u + (n \div 2)) \div n)
ExpNeg1(k) == Div(S, S + ExpTerms(k, 1, S))
ExpNeg(k) == IF k > 12 * S THEN 0
             ELSE IF k > 2 * S THEN LET h == ExpNeg1(k \div 4) IN Mul(Mul(h, h), Mul(h, h)) ELSE ExpNeg1(k)
Pi == 31416

Par(p) == Fix(p, 8)                         \* a parameter in fixed point

(* ---- geometry -------------------------------------------------------------- *)
Dot(l, v) == Fix(l[1] * v[1] + l[2] * v[2] + l[3] * v[3], l[4] * v[4])
X(l) == Fix(l[1], l[4])
Y(l) == Fix(l[2], l[4])
Z(l) == Fix(l[3], l[4])
\* the halfway vector: squared height, and the angle it makes with a direction
HZ2(l, v) == LET s == Z(l) + Z(v) IN Div(Mul(s, s), 2 * S + 2 * Dot(l, v))
VH(l, v) == Sqrt((S + Dot(l, v)) \div 2)
\* x^2 and y^2 of the halfway vector over its squared height
HXZ2(l, v) == LET q == Div(X(l) + X(v), Z(l) + Z(v)) IN Mul(q, q)
HYZ2(l, v) == LET q == Div(Y(l) + Y(v), Z(l) + Z(v)) IN Mul(q, q)
\* the light direction mirrored about the normal, against the view
Mir(l, v) == Fix(l[3] * v[3] - l[1] * v[1] - l[2] * v[2], l[4] * v[4])
\* the back vector (view plus mirrored light): squared height, and its angle to the view
KZ2(l, v) == LET s == Z(l) + Z(v) IN Div(Mul(s, s), 2 * S + 2 * Mir(l, v))
VK(l, v) == Sqrt((S + Mir(l, v)) \div 2)
Tan(l) == Div(Sqrt(S - Mul(Z(l), Z(l))), Z(l))
Above(l, v) == l[3] > 0 /\ v[3] > 0
SameSide(l, v) == l[3] * v[3] > 0

(* ---- the models -------------------------------------------------------------- *)
Names == {"blinn", "retroblinn", "abc", "lafortune", "isotropic_lafortune", "beckmann", "retrobeckmann", "ward",
          "spherical_gaussian", "retroyoo", "sgd", "diffuse", "schlick", "normalized_schlick", "retroschlick",
          "shadowing_schlick", "shadowing_smith", "shadowing_walter"}
OneD == {"blinn", "retroblinn", "abc", "retroyoo"}     \* these take one cosine, in eighths

PerOutput(m) == CASE m \in {"blinn", "retroblinn", "beckmann", "retrobeckmann", "spherical_gaussian", "retroyoo"} -> 2
                  [] m \in {"abc", "ward", "isotropic_lafortune"} -> 3
                  [] m = "lafortune" -> 4
                  [] m = "sgd" -> 11
                  [] m = "diffuse" -> 0
                  [] OTHER -> 1
(* c = [m, ny, lobes, type, kd]: kd is the least value of each output in the data
   the model was started from *)
Shared(c) == IF c.m = "spherical_gaussian" /\ c.type = "moment" THEN 1 ELSE 0
Nb(c) == (PerOutput(c.m) * c.ny * c.lobes) + Shared(c)
(* position of parameter j of lobe n of output i, all counted from one *)
Idx(c, i, n, j) == IF c.m = "sgd" THEN ((j - 1) * c.ny) + i
                   ELSE ((((n - 1) * c.ny) + (i - 1)) * PerOutput(c.m)) + j
(* the parameters output i depends on *)
Uses(c, i) == {Idx(c, i, n, j) : n \in 1..c.lobes, j \in 1..PerOutput(c.m)} \cup (IF Shared(c) = 1 THEN {Nb(c)} ELSE {})

Phong(k, x, n) == IF x > 0 THEN Mul(k, Pow(x, n)) ELSE 0
(* D(h) of Beckmann with 4 in place of the foreshortening, given the squared height of h *)
Gauss(k, a, z2) == LET a2 == Mul(a, a)
                       e == ExpNeg(Div(S - Min2(z2, S), Mul(a2, z2)))
                   IN Div(Mul(k, e), Mul(Mul(4 * Pi, a2), Mul(z2, z2)))
Schlick5(x) == Pow(S - Max2(0, Min2(x, S)), 5)
SmithRat(u, w) == Div(u, u + Mul(w, S - u))
(* Walter et al. 2007, equation 27 *)
Walter1(a) == IF a >= 16000 THEN S
              ELSE Div(Mul(35350 + Mul(21810, a), a), Mul(22760 + Mul(25770, a), a) + S)
WalterA(w, l) == IF l[1] = 0 /\ l[2] = 0 THEN 20000 ELSE Min2(20000, Div(S, Mul(w, Tan(l))))

(* Smith's shadowing of a rough surface of slope w, seen along v: 1/(1 + A) with
   A = phi(r)/r - Q(r), r the slope of v over w, phi and Q the density and the
   tail of the normal distribution.  Q is summed for small r; for large ones the
   continued fraction of Q/phi is used. *)
RECURSIVE GSum(_, _, _)
GSum(r2, t, n) == IF t = 0 THEN 0 ELSE t + GSum(r2, Mul(t, r2) \div ((2 * n) + 1), n + 1)
RECURSIVE Mills(_, _)
Mills(r, n) == IF n > 14 THEN r ELSE r + Div(n * S, Mills(r, n + 1))
Smith(w, v) ==
    IF v[1] = 0 /\ v[2] = 0 THEN S
    ELSE LET wt == Mul(w, Tan(v))
             r == Div(S, wt)
             phi == Mul(39894, ExpNeg(Mul(r, r) \div 2)) \div 10
             A == IF r > 6 * S THEN 0
                  ELSE IF r < 15000 THEN Mul(phi, wt) + Mul(phi, GSum(Mul(r, r), r, 1)) - 5000
                  ELSE Mul(phi, wt - Div(S, Mills(r, 1)))
         IN Div(S, S + A)

(* Yoo et al.: coherent backscattering of the phase x (in eighths) by a medium
   of mean free path b; exp(-1.4 q b) is expanded, as q b is at most 0.03. *)
Yoo(k, b, x) ==
    LET qb == (x * Mul(62832, b)) \div 5064
        qbb == (x * Mul(62832, Mul(b, b))) \div 5064
    IN Div(Mul(3 * k, Mul(24000 + Div(S, S + qbb), 24000 - Mul(9800, qb) + Mul(4573, Mul(qb, qb)))), 16 * Pi)

RECURSIVE Lobes(_, _, _, _, _, _)
Lobes(c, p, i, l, v, n) ==
    IF n > c.lobes THEN 0
    ELSE LET P(j) == Par(p[Idx(c, i, n, j)])
             dx == Mul(X(l), X(v))   dy == Mul(Y(l), Y(v))   dz == Mul(Z(l), Z(v))
             iso == c.m = "isotropic_lafortune"
             d == IF iso THEN Mul(P(1), dx + dy) + Mul(P(2), dz) ELSE Mul(P(1), dx) + Mul(P(2), dy) + Mul(P(3), dz)
             e == p[Idx(c, i, n, IF iso THEN 3 ELSE 4)] \div 8
         IN (IF d > 0 THEN Pow(d, e) ELSE 0) + Lobes(c, p, i, l, v, n + 1)

SGDot(t, l, v) == CASE t = "half" -> Sqrt(HZ2(l, v))
                    [] t = "back" -> Sqrt(KZ2(l, v))
                    [] t = "retro" -> Dot(l, v)
                    [] OTHER -> Mir(l, v)

(* The value of output i; x is <<cosine in eighths>> or <<l, v>>. *)
Value(c, p, i, x) ==
    LET m == c.m
        P(j) == Par(p[Idx(c, i, 1, j)])
        N(j) == p[Idx(c, i, 1, j)] \div 8
        l == IF m \in OneD THEN <<0, 0, 1, 1>> ELSE x[1]
        v == IF m \in OneD THEN <<0, 0, 1, 1>> ELSE x[2]
    IN CASE m \in {"blinn", "retroblinn"} -> Phong(P(1), Par(x[1]), N(2))
         [] m = "abc" -> IF x[1] >= 0 /\ x[1] <= 8 THEN Div(P(1), Pow(S + Mul(P(2), S - Par(x[1])), N(3))) ELSE 0
         [] m = "isotropic_lafortune" -> Lobes(c, p, i, l, v, 1)
         [] m = "lafortune" -> Par(c.kd[i]) + Lobes(c, p, i, l, v, 1)
         [] m = "diffuse" -> Par(c.kd[i])
         [] m = "beckmann" -> IF SameSide(l, v) /\ l[3] > 0 THEN Gauss(P(1), P(2), HZ2(l, v)) ELSE 0
         [] m = "retrobeckmann" ->
                IF c.type = "retro" THEN (IF Dot(l, v) > 0 THEN LET d == Dot(l, v) IN Gauss(P(1), P(2), Mul(d, d)) ELSE 0)
                ELSE IF Z(l) + Z(v) > 0 THEN Gauss(P(1), P(2), KZ2(l, v)) ELSE 0
         [] m = "ward" -> IF SameSide(l, v)
                          THEN Div(Mul(P(1), ExpNeg(Div(HXZ2(l, v), Mul(P(2), P(2))) + Div(HYZ2(l, v), Mul(P(3), P(3))))),
                                   Mul(Mul(4 * Pi, Mul(P(2), P(3))), Sqrt(Mul(Z(l), Z(v)))))
                          ELSE 0
         [] m = "spherical_gaussian" -> Mul(P(1), ExpNeg(Mul(P(2), S - Min2(S, SGDot(c.type, l, v)))))
         [] m = "schlick" -> P(1) + Mul(S - P(1), Schlick5(VH(l, v)))
         [] m = "retroschlick" -> P(1) + Mul(S - P(1), Schlick5(VK(l, v)))
         [] m = "normalized_schlick" -> S + Mul(Div(S, P(1)) - S, Schlick5(VH(l, v)))
         [] m = "shadowing_schlick" -> Mul(SmithRat(Z(l), P(1)), SmithRat(Z(v), P(1)))
         [] m = "shadowing_smith" -> Smith(P(1), v)
         [] m = "retroyoo" -> Yoo(P(1), P(2), x[1])
         [] m = "shadowing_walter" -> IF Above(l, v) THEN Mul(Walter1(WalterA(P(1), l)), Walter1(WalterA(P(1), v))) ELSE 0
         [] m = "sgd" -> \* without shadowing (lambda = 0): diffuse plus shifted gamma microfacets
                IF l[3] < 0 THEN 0
                ELSE LET z2 == HZ2(l, v)
                         vh == VH(l, v)
                         al == P(11)
                         ax == al + Div(Div(S - Min2(z2, S), z2), al)
                         D == Div(Mul(P(8), ExpNeg(ax)), Mul(Mul(Pi, Mul(z2, z2)), Pow(ax, N(5))))
                         F == P(6) - Mul(vh, P(7)) + Mul(S - P(6), Pow(S - vh, 5))
                     IN Div(P(9) + Mul(P(10), Mul(D, F)), Pi)
         [] OTHER -> 0
(* configurations where Value says something *)
Known(c, p, i, x) ==
    CASE c.m = "shadowing_smith" -> x[2][3] > 0 /\ ~(x[1][1] = 0 /\ x[1][2] = 0)
      [] c.m = "retroyoo" -> x[1] > 0
      [] c.m = "shadowing_schlick" -> Above(x[1], x[2])
      [] c.m = "sgd" -> p[Idx(c, i, 1, 4)] = 0
      [] c.m = "spherical_gaussian" -> c.type # "moment" \/ p[Nb(c)] = 8
      [] OTHER -> TRUE

(* parameters a model's value is proportional to: <<j, factor>> *)
Scales(m) == m \in {"blinn", "retroblinn", "abc", "beckmann", "retrobeckmann", "ward", "spherical_gaussian", "retroyoo"}
(* what a shadowing or Fresnel factor may not leave *)
UnitInterval(m) == m \in {"schlick", "retroschlick", "shadowing_schlick", "shadowing_smith", "shadowing_walter"}
Reciprocal(m) == m \notin (OneD \cup {"shadowing_smith", "sgd"})
(* how closely a computed value is known, in fixed point: the exponentials are
   evaluated with four digits only *)
Slack(m, e) == IF m \in {"beckmann", "retrobeckmann", "ward", "spherical_gaussian", "sgd"} THEN 12 + (Abs(e) \div 150)
               ELSE IF m \in {"lafortune", "isotropic_lafortune", "normalized_schlick"} THEN 20 + (Abs(e) \div 400)
               ELSE 6 + (Abs(e) \div 2000)
Close(m, a, e) == Abs(a - e) <= Slack(m, e)

(* The range a parameter may be searched in, in eighths; None is no limit. *)
None == 1000000000
Range(c, j) ==
    LET k == IF c.m = "sgd" THEN 0 ELSE ((j - 1) % PerOutput(c.m)) + 1
    IN CASE c.m \in {"schlick", "retroschlick", "normalized_schlick"} -> <<0, 8>>
         [] c.m \in {"abc", "beckmann", "retrobeckmann", "ward", "spherical_gaussian", "retroyoo", "shadowing_schlick",
                     "shadowing_smith", "shadowing_walter"} -> <<0, None>>
         [] c.m = "isotropic_lafortune" /\ k = 3 -> <<0, None>>
         [] OTHER -> <<0 - None, None>>
(* Bounds are usable when there is one pair per parameter, in order, within the
   model's range, and the parameters a fit starts from are between them. *)
BoundsOk(c, lo, up, start) ==
    /\ Len(lo) = Nb(c) /\ Len(up) = Nb(c) /\ Len(start) = Nb(c)
    /\ \A j \in 1..Nb(c) : /\ lo[j] <= up[j]
                           /\ lo[j] >= Range(c, j)[1] /\ up[j] <= Range(c, j)[2]
                           /\ lo[j] <= start[j] /\ start[j] <= up[j]
=============================================================================
