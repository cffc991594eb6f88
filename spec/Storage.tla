------------------------------- MODULE Storage -------------------------------
(* An in-memory sample store (ALTA's vertical_segment): n samples of dx inputs, *)
(* dy outputs and CI columns, kept row-major in one flat array `mem` as the     *)
(* implementation keeps it.  `rows` is the abstract store the user sees.        *)
EXTENDS Integers, Sequences

VARIABLES cfg,   \* [n, dx, dy, kind]: size, dimensions, interval kind (0 none, 1 symmetric, 2 asymmetric)
          mem,   \* flat array, 0-based addresses
          rows,  \* abstract store: sample -> column -> value
          act    \* last action: what was called and what it returned

svars == <<cfg, mem, rows, act>>

CiCols(c)  == c.kind * c.dy
Stride(c)  == c.dx + c.dy + CiCols(c)
Addr(c, i, j) == i * Stride(c) + (j - 1)          \* sample i from 0, column j from 1
Row(c, m, i)  == [j \in 1..Stride(c) |-> m[Addr(c, i, j)]]
XY(c)      == c.dx + c.dy

\* DT: half width (in value units) of the interval of a store without CI columns
LowerOf(c, r, dt) == [j \in 1..c.dy |->
    CASE c.kind = 2 -> r[XY(c) + j]
      [] c.kind = 1 -> r[c.dx + j] - r[XY(c) + j]
      [] c.kind = 0 -> r[c.dx + j] - dt]
UpperOf(c, r, dt) == [j \in 1..c.dy |->
    CASE c.kind = 2 -> r[XY(c) + c.dy + j]
      [] c.kind = 1 -> r[c.dx + j] + r[XY(c) + j]
      [] c.kind = 0 -> r[c.dx + j] + dt]

InitStore(c, content) ==                           \* content: sequence of rows
    /\ cfg = c
    /\ rows = [i \in 0..(c.n - 1) |-> content[i + 1]]
    /\ mem = [a \in 0..(c.n * Stride(c) - 1) |-> content[(a \div Stride(c)) + 1][(a % Stride(c)) + 1]]
    /\ act = [a |-> "Init", ret |-> <<>>]

(* set(i, v): v holds the inputs and outputs only, or the complete row *)
Set(i, v) ==
    /\ Len(v) \in {XY(cfg), Stride(cfg)}
    /\ mem' = [a \in DOMAIN mem |->
                 IF a >= Addr(cfg, i, 1) /\ a < Addr(cfg, i, 1) + Len(v)
                 THEN v[a - Addr(cfg, i, 1) + 1] ELSE mem[a]]
    /\ rows' = [rows EXCEPT ![i] = [j \in 1..Stride(cfg) |-> IF j <= Len(v) THEN v[j] ELSE @[j]]]
    /\ act' = [a |-> "Set", i |-> i, v |-> v, ret |-> <<>>]
    /\ UNCHANGED cfg

Get(i) ==
    /\ act' = [a |-> "Get", i |-> i, ret |-> SubSeq(Row(cfg, mem, i), 1, XY(cfg))]
    /\ UNCHANGED <<cfg, mem, rows>>

Interval(i, dt) ==
    /\ act' = [a |-> "Interval", i |-> i,
               ret |-> <<SubSeq(Row(cfg, mem, i), 1, cfg.dx),
                         LowerOf(cfg, Row(cfg, mem, i), dt), UpperOf(cfg, Row(cfg, mem, i), dt)>>]
    /\ UNCHANGED <<cfg, mem, rows>>

View ==
    /\ act' = [a |-> "View", ret |-> [i \in 1..cfg.n |-> Row(cfg, mem, i - 1)]]
    /\ UNCHANGED <<cfg, mem, rows>>

(* ---- what a user relies on ---- *)
Refines == \A i \in 0..(cfg.n - 1) : Row(cfg, mem, i) = rows[i]
\* no step changes another sample, reads change nothing, an (x, y) write keeps the interval columns
Isolation == [][/\ \A i \in 0..(cfg.n - 1) :
                       rows'[i] # rows[i] => act'.a = "Set" /\ act'.i = i
                /\ \A i \in 0..(cfg.n - 1) : act'.a = "Set" /\ act'.i = i =>
                       \A j \in 1..Stride(cfg) : rows'[i][j] = IF j <= Len(act'.v) THEN act'.v[j] ELSE rows[i][j]]_<<cfg, mem, rows>>
\* Get returns what was last written
GetReturns == act.a = "Get" => act.ret = SubSeq(rows[act.i], 1, XY(cfg))
=============================================================================
