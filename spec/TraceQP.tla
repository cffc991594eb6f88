------------------------------- MODULE TraceQP -------------------------------
EXTENDS QP, TraceBase
tvars == <<qvars, l>>
Abs(a) == IF a < 0 THEN 0 - a ELSE a
Scale == 10000
\* x, in multiples of 1/Scale, is the point y
Near(x, y) == \A i \in DOMAIN x : Abs(x[i] * y[1] - y[2][i] * Scale) <= 2 * y[1]
QBegin == /\ IsEvent("Begin")
          /\ prog' = [n |-> Ev.n, G |-> Ev.G, g |-> Ev.g, E |-> Ev.E, e |-> Ev.e, A |-> Ev.A, b |-> Ev.b]
          /\ sol' = Best(prog') /\ work' = {} /\ verdict' = "open" /\ sched' = 0
\* whatever the schedule: the minimiser, or that there is none
SolveE == /\ IsEvent("Solve") /\ verdict' = (IF sol = <<>> THEN "none" ELSE "solved")
          /\ TRUE = (/\ Ev.ok = (sol # <<>>)
                     /\ Ev.ok => Near(Ev.x, sol)
                     /\ Ev.ok /\ Ev.mode # "plain" =>
                           LET k == Len(prog.E) act == {Ev.act[i] : i \in DOMAIN Ev.act} IN
                           /\ \A i \in act : i <= 0 \/ (i \in All(prog) /\ Dot(prog.A[i], sol[2]) = prog.b[i] * sol[1])
                           /\ Cardinality(act) <= prog.n)
          /\ UNCHANGED <<prog, work, sol, sched>>
\* the incremental program: the minimum over the rows added so far
IncE == IsEvent("Inc") /\ work' = {} /\ sched' = 0 /\ UNCHANGED <<prog, sol, verdict>>
ClearE == IsEvent("Clear") /\ work' = {} /\ sched' = 0 /\ Ev.n = 0 /\ UNCHANGED <<prog, sol, verdict>>
AddE == IsEvent("Add") /\ work' = work \cup {Ev.i} /\ sched' = sched + 1 /\ Ev.n = sched' /\ UNCHANGED <<prog, sol, verdict>>
ISolveE == /\ IsEvent("ISolve") /\ UNCHANGED qvars
           /\ TRUE = (LET z == Sol(prog, work) IN
                      /\ Ev.n = sched
                      /\ Ev.ok = (z # <<>>)
                      /\ Ev.ok => Ev.sane /\ Near(Ev.x, z))
Match == QBegin \/ SolveE \/ IncE \/ ClearE \/ AddE \/ ISolveE
TInit == prog = 0 /\ work = {} /\ sol = <<>> /\ sched = 0 /\ verdict = "open" /\ l = 1
TNext == \/ Match
         \/ ~ENABLED Match /\ RejectLine /\ UNCHANGED qvars
         \/ Done /\ UNCHANGED qvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
