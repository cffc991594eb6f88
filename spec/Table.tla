------------------------------- MODULE Table -------------------------------
(* A tabulated BRDF data set: a rectangular table of samples, numbered in mixed *)
(* radix, each standing for one configuration, kept in one flat memory, and     *)
(* written to and read from a file made of a header and the whole memory.       *)
(*                                                                              *)
(* Coordinates are integers, in quarters of the distance between two samples.   *)
(* An axis [n, node, wrap, fold] has n samples; with node they sit on multiples *)
(* of 4 and values between them are interpolated linearly, otherwise they sit   *)
(* in the middle (4k+2) of cells.  wrap: the axis is periodic.  fold: the axis  *)
(* is mirrored at 0 and at its end.                                             *)
(* A table [axes, perm, fix, layout]: axes from the slowest to the fastest;     *)
(* the c-th coordinate of a configuration is along axis perm[c], or constant    *)
(* (fix) if perm[c] = 0.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Planes == 3

RECURSIVE SizeFrom(_, _)
SizeFrom(ax, a) == IF a > Len(ax) THEN 1 ELSE ax[a].n * SizeFrom(ax, a + 1)
Size(t) == SizeFrom(t.axes, 1)

\* sample number <-> position along the axes
Digits(t, i) == [a \in 1..Len(t.axes) |-> (i \div SizeFrom(t.axes, a + 1)) % t.axes[a].n]
RECURSIVE IndexTo(_, _, _)
IndexTo(t, k, a) == IF a = 0 THEN 0 ELSE IndexTo(t, k, a - 1) * t.axes[a].n + k[a]
Index(t, k) == IndexTo(t, k, Len(t.axes))

\* the configuration of a sample
Centre(ax, k) == IF ax.node THEN 4 * k ELSE 4 * k + 2
Config(t, i) == LET k == Digits(t, i) IN
    [c \in 1..Len(t.perm) |-> IF t.perm[c] = 0 THEN t.fix ELSE Centre(t.axes[t.perm[c]], k[t.perm[c]])]

\* evaluation at configuration q: the samples used, with their weights (4 in all per axis)
Along(t, q, a) == q[CHOOSE c \in 1..Len(t.perm) : t.perm[c] = a]
Inside(ax, x) == CASE ax.fold -> LET y == IF x < 0 THEN 0 - x ELSE x IN y <= 8 * ax.n
                   [] ax.wrap -> TRUE
                   [] OTHER   -> x >= 0 /\ x <= (IF ax.node THEN 4 * (ax.n - 1) ELSE 4 * ax.n)
Folded(ax, x) == CASE ax.fold -> LET y == IF x < 0 THEN 0 - x ELSE x IN IF y > 4 * ax.n THEN 8 * ax.n - y ELSE y
                   [] ax.wrap -> x % (4 * ax.n)
                   [] OTHER   -> x
Used(ax, x0) ==
    LET x == Folded(ax, x0) IN
    IF ~ax.node THEN LET k == x \div 4 IN {<<IF k >= ax.n THEN ax.n - 1 ELSE k, 4>>}
    ELSE LET k == x \div 4  w == x % 4  up == IF ax.wrap THEN (k + 1) % ax.n ELSE k + 1 IN
         IF w = 0 THEN {<<k, 4>>} ELSE {<<k, 4 - w>>, <<up, w>>}
RECURSIVE Uses(_, _, _)
Uses(t, q, a) ==
    IF a = 0 THEN {<<0, 1>>}
    ELSE {<<u[1] * t.axes[a].n + v[1], u[2] * v[2]>> : u \in Uses(t, q, a - 1), v \in Used(t.axes[a], Along(t, q, a))}
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x[2] + Sum(S \ {x})
RECURSIVE Pow4(_)
Pow4(n) == IF n = 0 THEN 1 ELSE 4 * Pow4(n - 1)
Scale(t) == Pow4(Len(t.axes))
InDomain(t, q) == \A a \in 1..Len(t.axes) : Inside(t.axes[a], Along(t, q, a))
\* V(i): the values of sample i; the result is multiplied by Scale(t)
ValueAt(t, V(_), q) ==
    IF ~InDomain(t, q) THEN [p \in 1..Planes |-> 0]
    ELSE LET us == Uses(t, q, Len(t.axes))
             y == [p \in 1..Planes |-> Sum({<<u[1], u[2] * V(u[1])[p]>> : u \in us})]
         IN  \* MERL: a sample with a negative component is not a measurement
             IF t.measured /\ \E p \in 1..Planes : y[p] < 0 THEN [p \in 1..Planes |-> 0] ELSE y

\* where a value is kept: one plane after the other, or sample after sample
Addr(t, i, p) == IF t.layout = "planar" THEN (p - 1) * Size(t) + i ELSE Planes * i + (p - 1)

-----------------------------------------------------------------------------
VARIABLES tab, mem, vals, file, saved, act
vars == <<tab, mem, vals, file, saved, act>>

Cells(t) == 0..(Planes * Size(t) - 1)
Init0(ts) == /\ tab \in ts
             /\ mem = [c \in Cells(tab) |-> 0]
             /\ vals = [i \in 0..(Size(tab) - 1) |-> [p \in 1..Planes |-> 0]]
             /\ file = [cells |-> <<>>, dims |-> <<>>]
             /\ saved = <<>>
             /\ act = [a |-> "Init"]
Set(i, y) == /\ mem' = [c \in Cells(tab) |-> IF \E p \in 1..Planes : c = Addr(tab, i, p)
                                             THEN y[CHOOSE p \in 1..Planes : c = Addr(tab, i, p)] ELSE mem[c]]
             /\ vals' = [vals EXCEPT ![i] = y]
             /\ act' = [a |-> "Set", i |-> i]
             /\ UNCHANGED <<tab, file, saved>>
Stored(i) == [p \in 1..Planes |-> mem[Addr(tab, i, p)]]
Dims(t) == [a \in 1..Len(t.axes) |-> t.axes[a].n]
Save == /\ file' = [cells |-> [c \in 1..Cardinality(Cells(tab)) |-> mem[c - 1]], dims |-> Dims(tab)]
        /\ saved' = <<vals>>
        /\ act' = [a |-> "Save"]
        /\ UNCHANGED <<tab, mem, vals>>
Cut == /\ file.cells # <<>>
       /\ file' = [file EXCEPT !.cells = SubSeq(@, 1, Len(@) - 1)]
       /\ saved' = <<>>
       /\ act' = [a |-> "Cut"]
       /\ UNCHANGED <<tab, mem, vals>>
Deform == /\ saved # <<>> /\ Len(file.dims) > 1
          /\ file' = [file EXCEPT !.dims = <<@[2], @[1]>> \o SubSeq(@, 3, Len(@))]
          /\ saved' = IF file'.dims = Dims(tab) THEN saved ELSE <<>>
          /\ act' = [a |-> "Deform"]
          /\ UNCHANGED <<tab, mem, vals>>
Complete(f) == f.dims = Dims(tab) /\ Len(f.cells) = Cardinality(Cells(tab))
Load == /\ IF Complete(file)
           THEN /\ mem' = [c \in Cells(tab) |-> file.cells[c + 1]]
                /\ vals' = [i \in DOMAIN vals |-> [p \in 1..Planes |-> mem'[Addr(tab, i, p)]]]
           ELSE UNCHANGED <<mem, vals>>
        /\ act' = [a |-> "Load", ok |-> Complete(file)]
        /\ UNCHANGED <<tab, file, saved>>

-----------------------------------------------------------------------------
(* ---- what a user relies on ---- *)
OneToOne == LET N == 0..(Size(tab) - 1) IN
    /\ \A i \in N : Index(tab, Digits(tab, i)) = i
    /\ \A i, j \in N : i # j => Config(tab, i) # Config(tab, j)
    /\ \A i, j \in N, p, r \in 1..Planes : Addr(tab, i, p) = Addr(tab, j, r) => i = j /\ p = r
Refines == \A i \in DOMAIN vals : Stored(i) = vals[i]
SelfValue == \A i \in DOMAIN vals :
    ValueAt(tab, LAMBDA j : vals[j], Config(tab, i)) =
        IF tab.measured /\ \E p \in 1..Planes : vals[i][p] < 0 THEN [p \in 1..Planes |-> 0]
        ELSE [p \in 1..Planes |-> Scale(tab) * vals[i][p]]
\* weights of an evaluation: all of the weight, on samples of the table
Partition(qs) == \A q \in qs : InDomain(tab, q) =>
    LET us == Uses(tab, q, Len(tab.axes)) IN
      /\ Sum(us) = Scale(tab)
      /\ \A u \in us : u[1] \in DOMAIN vals /\ u[2] > 0
LoadsWhole == act.a = "Load" => (act.ok <=> saved # <<>>) /\ (act.ok => vals = saved[1])
Isolation == [][\A i \in DOMAIN vals : vals'[i] # vals[i] =>
                   (act'.a = "Set" /\ act'.i = i) \/ act'.a = "Load"]_vars
=============================================================================
