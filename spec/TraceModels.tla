---------------------------- MODULE TraceModels ----------------------------
(* Recorded runs of the real models against Models.                           *)
EXTENDS Models, TraceBase

VARIABLES c, p
vars == <<c, p, l>>
NoModel == [m |-> "none", ny |-> 0, lobes |-> 0, type |-> "-", kd |-> <<>>]

TBegin == IsEvent("Begin") /\ c' = NoModel /\ p' = <<>>

(* A model is made, started from data and asked for its bounds.               *)
(* start, lo, up: eighths, rounded to a thousandth and cut off at None.       *)
Build == /\ IsEvent("Build")
         /\ c' = [m |-> Ev.m, ny |-> Ev.ny, lobes |-> Ev.lobes, type |-> Ev.type, kd |-> Ev.kd]
         /\ Ev.nb = Nb(c')
         /\ BoundsOk(c', Ev.lo, Ev.up, Ev.start)
         /\ p' = <<>>
(* the parameters are set and read back *)
SetPar == /\ IsEvent("Set") /\ Len(Ev.p) = Nb(c) /\ p' = Ev.p /\ UNCHANGED c
Get == /\ IsEvent("Get") /\ Ev.p = p /\ Ev.nb = Nb(c) /\ UNCHANGED <<c, p>>

Evaluate == /\ IsEvent("Value") /\ Ev.same
            /\ Len(Ev.v) = c.ny
            /\ \A i \in 1..c.ny :
                  /\ Known(c, p, i, Ev.x) => Close(c.m, Ev.v[i], Value(c, p, i, Ev.x))
                  /\ (UnitInterval(c.m) /\ (c.m = "shadowing_schlick" => Above(Ev.x[1], Ev.x[2]))) => Ev.v[i] \in 0..S
            /\ UNCHANGED <<c, p>>

(* jac[i][j] is the reported derivative of output i, quo[i][j] the difference *)
(* quotient of the reported values around the current parameters              *)
Jacobian == /\ IsEvent("Jac") /\ Ev.n = c.ny * Nb(c)
            /\ \A i \in 1..c.ny : \A j \in 1..Nb(c) :
                  /\ Abs(Ev.jac[i][j] - Ev.quo[i][j]) <= 3 + (Abs(Ev.quo[i][j]) \div 500)
                  /\ j \notin Uses(c, i) => Ev.jac[i][j] = 0 /\ Ev.quo[i][j] = 0
            /\ UNCHANGED <<c, p>>

Match == TBegin \/ Build \/ SetPar \/ Get \/ Evaluate \/ Jacobian
Init == l = 1 /\ c = NoModel /\ p = <<>>
Next == \/ Match
        \/ (~ENABLED Match /\ RejectLine /\ UNCHANGED <<c, p>>)
        \/ (Done /\ UNCHANGED <<c, p>>)
Spec == Init /\ [][Next]_vars
=============================================================================
