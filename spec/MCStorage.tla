------------------------------ MODULE MCStorage ------------------------------
EXTENDS Storage, TLC, Json
CONSTANTS Vals, MaxLen
VARIABLE hist
vars == <<svars, hist>>
Cfgs == [n : {1, 2}, dx : {1, 2}, dy : {1, 2}, kind : {0, 1, 2}]
Small == {c \in Cfgs : c.n * Stride(c) <= 6}
Zero(c) == [i \in 1..c.n |-> [j \in 1..Stride(c) |-> 0]]
Init == /\ \E c \in Small : InitStore(c, Zero(c))
        /\ hist = <<>>
Step == \/ \E i \in 0..(cfg.n - 1) : \E k \in {XY(cfg), Stride(cfg)} : \E v \in [1..k -> Vals] : Set(i, v)
        \/ \E i \in 0..(cfg.n - 1) : Get(i) \/ Interval(i, 100)
        \/ View
Next == Step /\ UNCHANGED hist
Spec == Init /\ [][Next]_vars
NoAct == <<cfg, mem, rows>>
GetOK == GetReturns
(* generation: every behaviour of MaxLen steps in simulation *)
GNext == /\ Len(hist) < MaxLen
         /\ \/ \E i \in 0..(cfg.n - 1) : \E k \in {XY(cfg), Stride(cfg)} :
                 Set(i, [j \in 1..k |-> RandomElement(1..900)])
            \/ \E i \in 0..(cfg.n - 1) : Get(i) \/ Interval(i, 100)
            \/ View
         /\ hist' = Append(hist, [a \in (DOMAIN act') \ {"ret"} |-> act'[a]])
GInit == /\ \E c \in [n : 1..4, dx : 1..3, dy : 1..3, kind : {0, 1, 2}] : InitStore(c, Zero(c))
         /\ hist = <<>>
Emit == Len(hist) = MaxLen => PrintT(<<"BEH", ToJson([cfg |-> cfg, h |-> hist])>>)
=============================================================================
