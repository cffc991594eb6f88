---------------------------- MODULE TraceDescribe ----------------------------
EXTENDS Describe, TraceBase
tvars == <<lvars, reg, l>>
ToReg(ps) == [k \in {ps[i][1] : i \in 1..Len(ps)} |-> ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = k][2]]
DBegin == IsEvent("Begin") /\ reg' = ToReg(Ev.reg) /\ UNCHANGED lvars
Reads(t, p) == /\ Ev.nb = Nb(t)
               /\ Ev.pars = Params(t, p)
               /\ Ev.lo = Lower(t) /\ Ev.up = Upper(t)
G == [pin |-> Ev.gpin, dx |-> Ev.gdx, dy |-> Ev.gdy]
Built == TRUE = (IF Nonlinear(tree')
                 THEN /\ Ev.kind = "nonlinear" /\ Reads(tree', par')
                      /\ Ev.pin = In(tree')[1] /\ Ev.dx = In(tree')[2] /\ Ev.dy = G.dy
                 ELSE /\ Ev.kind = tree'.k
                      /\ Ev.kind # "none" => Ev.pin = G.pin /\ Ev.dx = G.dx /\ Ev.dy = G.dy)
DDescribe == IsEvent("Describe") /\ Describe(Ev.ws, G) /\ Built
DByName == IsEvent("ByName") /\ ByName(Ev.ws[1], G) /\ Built
DGet == IsEvent("Get") /\ TRUE = Reads(tree, par) /\ Read("Get") /\ UNCHANGED reg
DSet == IsEvent("Set") /\ Set(Ev.v) /\ TRUE = (par' = Ev.leaves) /\ UNCHANGED reg
DValue == /\ IsEvent("Value")
          /\ TRUE = (Ev.val = [y \in 1..Len(Ev.val) |-> Value(tree, par, Ev.xs, y)] /\ Len(Ev.val) = LeavesOf(tree)[1].dy)
          /\ Read("Value") /\ UNCHANGED reg
DJac == /\ IsEvent("Jac")
        /\ TRUE = (Ev.jac = Flat([y \in 1..LeavesOf(tree)[1].dy |-> Grad(tree, par, Ev.xs, y)]))
        /\ Read("Jac") /\ UNCHANGED reg
Match == DBegin \/ DDescribe \/ DByName \/ DGet \/ DSet \/ DValue \/ DJac
TInit == tree = 0 /\ par = 0 /\ act = 0 /\ reg = 0 /\ l = 1
TNext == \/ Match
         \/ ~ENABLED Match /\ RejectLine /\ UNCHANGED <<lvars, reg>>
         \/ Done /\ UNCHANGED <<lvars, reg>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
