------------------------------ MODULE MCPyAll ------------------------------
(* All scripts of up to MaxLen operations from a small choice, after a fixed   *)
(* beginning.                                                                  *)
EXTENDS MCPy
Start == <<[op |-> "par", dx |-> 1, dy |-> 1, in |-> "COS_TH", out |-> "ENERGY"],
           [op |-> "func", name |-> "nonlinear_function_blinn", par |-> 1, v |-> <<1, 2>>],
           [op |-> "func", name |-> "nonlinear_function_diffuse", par |-> 1, v |-> <<>>],
           [op |-> "vec", v |-> <<2, 0>>],
           [op |-> "vec", v |-> <<1, 0, 2, 1>>],
           [op |-> "args", m |-> <<"1", "1", "nonlinear_function_blinn", "[2]", "">>],
           [op |-> "data", name |-> "data_grid", n |-> 0, par |-> 1, args |-> 6]>>
AInit == After(Start) /\ ops = <<>> /\ theme = "all"
K(ks) == OfKind(ks) \cup {0}
Choice ==
    {[op |-> n, a |-> i, b |-> j] : n \in {"add", "mul"}, i, j \in K({"func"})} \cup
    {[op |-> "set", a |-> i, b |-> j] : i \in K({"func"}), j \in OfKind({"vec"})} \cup
    {[op |-> "get", a |-> i] : i \in K({"func"})} \cup
    {[op |-> "put", a |-> i, i |-> 1, v |-> 0] : i \in OfKind({"vec"})} \cup
    {[op |-> "save", a |-> i, args |-> q, file |-> "f1"] : i \in OfKind({"func", "data"}), q \in {0, 6}} \cup
    {[op |-> "load", a |-> i, file |-> "f1"] : i \in K({"func"})} \cup
    {[op |-> "loadf", file |-> "f1"], [op |-> "dload", name |-> "data_grid", file |-> "f1"]} \cup
    {[op |-> "b2d", a |-> i, b |-> j] : i \in K({"func"}), j \in K({"data"})} \cup
    {[op |-> "stats", a |-> i, b |-> j] : i, j \in OfKind({"data"})}
ANext == Len(ops) < MaxLen /\ \E o \in Choice : TRUE = Allowed(Deref(vs, o)) /\ Do(o)
ASpec == AInit /\ [][ANext]_vars
\* Only setting and loading change the parameters of functions that exist; and
\* then of all functions with a part in common.
Touched(o) == LET d == Deref(vs, o) IN
    {i \in Funcs : \E x \in {LeafIds(h, d.a)[q] : q \in DOMAIN LeafIds(h, d.a)} : \E y \in DOMAIN LeafIds(h, i) : LeafIds(h, i)[y] = x}
Frame == [][\A i \in Funcs : LET o == ops'[Len(ops')] IN
                (o.op \in {"set", "load"} /\ i \in (IF Deref(vs, o).a = 0 THEN {} ELSE Touched(o))) \/ Get(h', i) = Get(h, i)]_vars
\* a function that is set has the parameters it was given, if no part is in it twice
SetThenGet == [][LET o == ops'[Len(ops')]  d == Deref(vs, o) IN
                   (o.op = "set" /\ last' = OK /\ Cardinality({LeafIds(h, d.a)[q] : q \in DOMAIN LeafIds(h, d.a)}) = Len(LeafIds(h, d.a)))
                       => Get(h', d.a) = h[d.b].v]_vars
\* saving and loading back changes nothing
SaveThenLoad == [][LET o == ops'[Len(ops')]  d == Deref(vs, o) IN
                   (o.op = "load" /\ d.a # 0 /\ ops # <<>> /\ ops[Len(ops)].op = "save" /\ ops[Len(ops)].a = o.a /\ last = OK)
                       => last' = OK /\ h' = h]_vars
\* loading a saved function yields one of the same values
LoadsSame == [][LET o == ops'[Len(ops')] IN
                 (o.op = "loadf" /\ last' = OK /\ Len(LeafIds(h', Len(h) + 1)) = Len(fs["f1"].leaves)) => [q \in DOMAIN fs["f1"].leaves |-> fs["f1"].leaves[q].p]
                      = [q \in DOMAIN LeafIds(h', Len(h) + 1) |-> h'[LeafIds(h', Len(h) + 1)[q]].p]]_vars
=============================================================================
