------------------------------- MODULE Layout --------------------------------
(* Sums and products of parametrised functions as trees, and the one parameter   *)
(* layout they obey: the parameters of the non-fixed parts, in order.             *)
(* A leaf is a function of n parameters p and dy outputs whose value at an input  *)
(* with (integer) feature s is  y |-> sum_i p[i] * (a[y][i] + b[y][i] * s).       *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES tree,   \* [k |-> "leaf", id, n, lo, up, a, b, pin, dx] | [k |-> "sum", parts, fixed] | [k |-> "prod", l, r, fl, fr]
          par,    \* leaf id -> its parameters
          act
lvars == <<tree, par, act>>

\* parts of a node with their fixed flags
Parts(t) == IF t.k = "sum" THEN t.parts ELSE <<t.l, t.r>>
Fixed(t) == IF t.k = "sum" THEN t.fixed ELSE <<t.fl, t.fr>>
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
RECURSIVE LeafIds(_)
LeafIds(t) == IF t.k = "leaf" THEN {t.id} ELSE UNION {LeafIds(Parts(t)[i]) : i \in DOMAIN Parts(t)}
RECURSIVE LeavesOf(_)
LeavesOf(t) == IF t.k = "leaf" THEN <<t>> ELSE Flat([i \in DOMAIN Parts(t) |-> LeavesOf(Parts(t)[i])])
\* the layout: free parameters as <<leaf id, index in the leaf>>, in order
RECURSIVE Slots(_)
Slots(t) == IF t.k = "leaf" THEN [i \in 1..t.n |-> <<t.id, i>>]
            ELSE Flat([i \in DOMAIN Parts(t) |-> IF Fixed(t)[i] THEN <<>> ELSE Slots(Parts(t)[i])])
LeafOf(t, id) == LET L == LeavesOf(t) IN L[CHOOSE k \in DOMAIN L : L[k].id = id]
Nb(t) == Len(Slots(t))
Params(t, p) == [k \in DOMAIN Slots(t) |-> p[Slots(t)[k][1]][Slots(t)[k][2]]]
Lower(t) == [k \in DOMAIN Slots(t) |-> LeafOf(t, Slots(t)[k][1]).lo[Slots(t)[k][2]]]
Upper(t) == [k \in DOMAIN Slots(t) |-> LeafOf(t, Slots(t)[k][1]).up[Slots(t)[k][2]]]
Assign(t, p, v) == [id \in DOMAIN p |-> [i \in DOMAIN p[id] |->
    IF \E k \in DOMAIN Slots(t) : Slots(t)[k] = <<id, i>>
    THEN v[CHOOSE k \in DOMAIN Slots(t) : Slots(t)[k] = <<id, i>>] ELSE p[id][i]]]

\* the parametrization of the whole: the common one of its parts, or cartesian coordinates
RECURSIVE In(_)
In(t) == IF t.k = "leaf" THEN <<t.pin, t.dx>>
         ELSE LET ins == {In(Parts(t)[i]) : i \in DOMAIN Parts(t)}
              IN  IF Cardinality(ins) = 1 THEN CHOOSE x \in ins : TRUE ELSE <<"CARTESIAN", 6>>

\* value of output y, s: leaf id -> feature of the input in the leaf's own parametrization
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE Value(_, _, _, _)
Value(t, p, s, y) ==
    CASE t.k = "leaf" -> SumSeq([i \in 1..t.n |-> p[t.id][i] * (t.a[y][i] + t.b[y][i] * s[t.id])])
      [] t.k = "sum"  -> SumSeq([i \in DOMAIN t.parts |-> Value(t.parts[i], p, s, y)])
      [] t.k = "prod" -> Value(t.l, p, s, y) * Value(t.r, p, s, y)
\* derivatives of output y by the free parameters, in layout order
RECURSIVE Grad(_, _, _, _)
Grad(t, p, s, y) ==
    CASE t.k = "leaf" -> [i \in 1..t.n |-> t.a[y][i] + t.b[y][i] * s[t.id]]
      [] t.k = "sum"  -> Flat([i \in DOMAIN t.parts |-> IF t.fixed[i] THEN <<>> ELSE Grad(t.parts[i], p, s, y)])
      [] t.k = "prod" -> LET vl == Value(t.l, p, s, y)  vr == Value(t.r, p, s, y)
                             gl == Grad(t.l, p, s, y)   gr == Grad(t.r, p, s, y)
                         IN  (IF t.fl THEN <<>> ELSE [i \in DOMAIN gl |-> gl[i] * vr])
                             \o (IF t.fr THEN <<>> ELSE [i \in DOMAIN gr |-> gr[i] * vl])

Build(t, p) == tree' = t /\ par' = p /\ act' = [a |-> "Build"]
Set(v) == /\ Len(v) = Nb(tree)
          /\ par' = Assign(tree, par, v)
          /\ act' = [a |-> "Set", v |-> v]
          /\ UNCHANGED tree
Read(what) == act' = [a |-> what] /\ UNCHANGED <<tree, par>>

(* ---- what a user relies on ---- *)
RECURSIVE FixedIds(_)
FixedIds(t) == IF t.k = "leaf" THEN {}
               ELSE UNION {IF Fixed(t)[i] THEN LeafIds(Parts(t)[i]) ELSE FixedIds(Parts(t)[i]) : i \in DOMAIN Parts(t)}
ReadsBack == act.a = "Set" => Params(tree, par) = act.v
FixedNeverChange == [][act'.a # "Build" => /\ \A id \in FixedIds(tree) : par'[id] = par[id]
                                           /\ act'.a # "Set" => par' = par]_lvars
SlotsOnce == Cardinality({Slots(tree)[k] : k \in DOMAIN Slots(tree)}) = Nb(tree)
\* the gradient is the derivative with respect to that same vector (values are linear in each parameter)
Derivative(ss, ys) == \A s \in ss : \A y \in ys : \A k \in 1..Nb(tree) :
    LET v == Params(tree, par)
    IN  Value(tree, Assign(tree, par, [v EXCEPT ![k] = @ + 1]), s, y) - Value(tree, par, s, y) = Grad(tree, par, s, y)[k]
=============================================================================
