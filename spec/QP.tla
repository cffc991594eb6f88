--------------------------------- MODULE QP ----------------------------------
(* Strictly convex quadratic programs over small integers: minimise             *)
(* 1/2 z.Gz + g.z  subject to  E[i].z = e[i]  and  A[i].z >= b[i].               *)
(* The exact solution by enumeration of active sets, and the machine that looks *)
(* for it with constraints fed in by a scheduler.                               *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES prog,    \* [n, G, g, E, e, A, b]
          work,    \* inequalities in the working set
          sol,     \* the minimiser over the working set: <<>> if there is none, else <<den, num>>
          sched,   \* [mode, start, size, sat] what the scheduler remembers
          verdict  \* "open", "solved", "none"
qvars == <<prog, work, sol, sched, verdict>>

RECURSIVE Dot(_, _)
Dot(u, v) == IF u = <<>> THEN 0 ELSE Head(u) * Head(v) + Dot(Tail(u), Tail(v))
\* determinants of order up to three
Det(M) == CASE Len(M) = 0 -> 1
            [] Len(M) = 1 -> M[1][1]
            [] Len(M) = 2 -> M[1][1] * M[2][2] - M[1][2] * M[2][1]
            [] Len(M) = 3 -> M[1][1] * (M[2][2] * M[3][3] - M[2][3] * M[3][2]) - M[1][2] * (M[2][1] * M[3][3] - M[2][3] * M[3][1])
                             + M[1][3] * (M[2][1] * M[3][2] - M[2][2] * M[3][1])
Without(s, k) == [i \in 1..(Len(s) - 1) |-> IF i < k THEN s[i] ELSE s[i + 1]]
Minor(M, r, c) == [i \in 1..(Len(M) - 1) |-> Without(Without(M, r)[i], c)]
Adj(M) == [i \in DOMAIN M |-> [j \in DOMAIN M |-> Det(Minor(M, j, i)) * (IF (i + j) % 2 = 0 THEN 1 ELSE 0 - 1)]]
Mul(M, v) == [i \in DOMAIN M |-> Dot(M[i], v)]
\* replace column c by v
Put(M, c, v) == [i \in DOMAIN M |-> [M[i] EXCEPT ![c] = v[i]]]
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Asc(S \ {m})
RECURSIVE Choices(_, _, _)   \* subsets of a..m with at most k elements
Choices(a, m, k) == IF k = 0 \/ a > m THEN {{}} ELSE Choices(a + 1, m, k) \cup {{a} \cup T : T \in Choices(a + 1, m, k - 1)}
RECURSIVE Comb(_, _, _)
Comb(v, w, n) == IF v = <<>> THEN [i \in 1..n |-> 0]
                 ELSE LET t == Comb(Tail(v), Tail(w), n) IN [i \in 1..n |-> Head(w) * Head(v)[i] + t[i]]

\* the stationary point with the equalities and the inequalities S active
Point(P, S) ==
    LET H == Adj(P.G)  d == Det(P.G)
        s == Asc(S)
        R == P.E \o [i \in DOMAIN s |-> P.A[s[i]]]
        r == P.e \o [i \in DOMAIN s |-> P.b[s[i]]]
        Hg == Mul(H, P.g)
        K == [i \in DOMAIN R |-> LET h == Mul(H, R[i]) IN [j \in DOMAIN R |-> Dot(h, R[j])]]
        D == Det(K)
        rhs == [i \in DOMAIN R |-> d * r[i] + Dot(R[i], Hg)]
        lam == [i \in DOMAIN R |-> Det(Put(K, i, rhs))]
        num == Mul(H, Comb(R \o <<P.g>>, lam \o <<0 - D>>, P.n))
    IN  [D |-> D, lam |-> [i \in DOMAIN s |-> lam[Len(P.E) + i]], den |-> d * D, num |-> num]
Holds(a, b, z) == Dot(a, z[2]) >= b * z[1]
\* the minimiser of P over its equalities and the inequalities W
Sol(P, W) ==
    LET ok == {S \in Choices(1, Len(P.A), P.n - Len(P.E)) : S \subseteq W /\
                  LET p == Point(P, S) IN /\ p.D > 0
                                          /\ \A i \in DOMAIN p.lam : p.lam[i] >= 0
                                          /\ \A i \in W : Holds(P.A[i], P.b[i], <<p.den, p.num>>)}
    IN  IF ok = {} THEN <<>> ELSE LET p == Point(P, CHOOSE S \in ok : TRUE) IN <<p.den, p.num>>
All(P) == 1..Len(P.A)
Best(P) == Sol(P, All(P))
\* the same point, written as fractions
Same(y, z) == IF y = <<>> \/ z = <<>> THEN y = z ELSE \A i \in DOMAIN y[2] : y[2][i] * z[1] = z[2][i] * y[1]

(* ---- the search ---- *)
Open(P, mode, size) ==
    /\ prog = P /\ work = {} /\ sol = Sol(P, {}) /\ verdict = "open"
    /\ sched = [mode |-> mode, start |-> 0, size |-> IF mode \in {"window", "grow"} THEN size ELSE Len(P.A), sat |-> 0]
Violated == IF sol = <<>> THEN {} ELSE {i \in All(prog) : ~Holds(prog.A[i], prog.b[i], sol)}
Binding(W, z) == {i \in W : Dot(prog.A[i], z[2]) = prog.b[i] * z[1]}
\* rows that do not bind may be forgotten
Take(T, drop) == LET W == work \cup T  z == Sol(prog, W) IN
    IF z = <<>> THEN verdict' = "none" /\ work' = W /\ sol' = z
    ELSE sol' = z /\ work' = W \ (drop \cap (W \ Binding(W, z))) /\ UNCHANGED verdict
Window == {i \in All(prog) : i > sched.start /\ i <= sched.start + sched.size}
\* windows one after the other, the last one shifted back to end with the last row
Shifted(start, size, m) == IF start + size = m THEN 0 ELSE IF start + 2 * size > m THEN m - size ELSE start + size
Windows(size, m) == (m + size - 1) \div size
Grown(size, m) == IF 2 * size > m THEN m ELSE 2 * size

Feed(T, drop) ==      \* any choice of violated rows
    /\ verdict = "open" /\ sched.mode = "any" /\ T # {} /\ T \subseteq Violated
    /\ Take(T, drop) /\ UNCHANGED <<prog, sched>>
FeedWindow(i, drop) == \* a violated row of the window, then the next window
    /\ verdict = "open" /\ sched.mode \in {"window", "grow"} /\ i \in Violated \cap Window
    /\ Take({i}, drop)
    /\ sched' = [sched EXCEPT !.start = Shifted(@, sched.size, Len(prog.A)), !.sat = 0] /\ UNCHANGED prog
NextWindow ==         \* nothing violated in the window
    /\ verdict = "open" /\ sched.mode = "window" /\ Violated \cap Window = {}
    /\ sched.sat + 1 < Windows(sched.size, Len(prog.A))
    /\ sched' = [sched EXCEPT !.start = Shifted(@, sched.size, Len(prog.A)), !.sat = @ + 1]
    /\ UNCHANGED <<prog, work, sol, verdict>>
Grow ==
    /\ verdict = "open" /\ sched.mode = "grow" /\ Violated \cap Window = {} /\ sched.size < Len(prog.A)
    /\ sched' = [sched EXCEPT !.start = 0, !.size = Grown(@, Len(prog.A))]
    /\ UNCHANGED <<prog, work, sol, verdict>>
Stop ==
    /\ verdict = "open"
    /\ CASE sched.mode = "any" -> Violated = {}
         [] sched.mode = "window" -> Violated \cap Window = {} /\ sched.sat + 1 >= Windows(sched.size, Len(prog.A))
         [] sched.mode = "grow" -> Violated \cap Window = {} /\ sched.size = Len(prog.A)
    /\ verdict' = "solved" /\ UNCHANGED <<prog, work, sol, sched>>

(* ---- what the search guarantees ---- *)
Correct == /\ verdict = "solved" => Same(sol, Best(prog)) /\ Best(prog) # <<>>
           /\ verdict = "none" => Best(prog) = <<>>
\* the answer over the working set is kept by forgetting rows that do not bind
Kept == verdict = "open" => Same(sol, Sol(prog, work))
=============================================================================
