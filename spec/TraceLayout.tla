----------------------------- MODULE TraceLayout -----------------------------
EXTENDS Layout, TraceBase
tvars == <<lvars, l>>
\* features come as a sequence over the leaves in order; leaves are numbered in order
TBegin == IsEvent("Begin") /\ Build(Ev.tree, Ev.par)
Reads == TRUE = (/\ Ev.nb = Nb(tree)
                 /\ Ev.pars = Params(tree, par)
                 /\ Ev.lo = Lower(tree) /\ Ev.up = Upper(tree))
TBuild == IsEvent("Build") /\ Reads /\ Ev.pin = In(tree)[1] /\ Ev.dx = In(tree)[2] /\ Ev.dy = LeavesOf(tree)[1].dy /\ Read("Build")
TGet == IsEvent("Get") /\ Reads /\ Read("Get")
TSet == IsEvent("Set") /\ Set(Ev.v) /\ TRUE = (par' = Ev.leaves)
TValue == /\ IsEvent("Value")
          /\ TRUE = (Ev.val = [y \in 1..Len(Ev.val) |-> Value(tree, par, Ev.xs, y)] /\ Len(Ev.val) = LeavesOf(tree)[1].dy)
          /\ Read("Value")
\* rows of the Jacobian, one output after the other
TJac == /\ IsEvent("Jac")
        /\ TRUE = (Ev.jac = Flat([y \in 1..LeavesOf(tree)[1].dy |-> Grad(tree, par, Ev.xs, y)]))
        /\ Read("Jac")
Match == TBegin \/ TBuild \/ TGet \/ TSet \/ TValue \/ TJac
TInit == tree = 0 /\ par = 0 /\ act = 0 /\ l = 1
TNext == \/ Match
         \/ ~ENABLED Match /\ RejectLine /\ UNCHANGED lvars
         \/ Done /\ UNCHANGED lvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
