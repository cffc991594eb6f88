------------------------------ MODULE MCTools ------------------------------
(* Every short history of tool runs on a store of three files.                  *)
EXTENDS Tools
CONSTANTS Depth, Vals, Nodes
Names == {"a", "b", "o"}
Confs == {1, 2} \cup {99} \cup (101..113)
D0 == {[k |-> "data", par |-> p, bin |-> b, dy |-> 1, rows |-> r] :
         p \in {"CARTESIAN", "UNKNOWN_INPUT"}, b \in BOOLEAN,
         r \in {<<>>} \cup {<<[c |-> x, y |-> <<v>>], [c |-> 2, y |-> <<w>>]>> : x \in {1, 2}, v \in Vals, w \in Vals}}
     \cup {[k |-> "data", par |-> "COS_TH", bin |-> FALSE, dy |-> 1, rows |-> <<[c |-> 104, y |-> <<v>>], [c |-> 113, y |-> <<w>>]>>] : v \in Vals, w \in Vals}
G0 == {[k |-> "grid", dy |-> 1, y |-> y] : y \in [1..Nodes -> {<<12 * v>> : v \in Vals}]}
F0 == {[k |-> "func", par |-> "CARTESIAN", dy |-> 1, f |-> [c \in Confs |-> <<a + b * c>>]] : a \in Vals, b \in Vals}
Init == /\ fs \in {[n \in Names |-> CASE n = "a" -> x [] n = "b" -> y [] OTHER -> None] :
                      x \in D0 \cup G0 \cup {Junk}, y \in F0 \cup G0 \cup {None}}
        /\ up = [c \in Confs |-> c # 2] /\ wgt = [c \in Confs |-> 50]
        /\ last = [cmd |-> [t |-> "", out |-> "o"], ok |-> TRUE]
Base == [fault |-> "", in |-> "a", data |-> "a", out |-> "o", infmt |-> "", outfmt |-> "", par |-> "", all |-> TRUE,
         ymin |-> NoY, diff |-> FALSE, err |-> FALSE, lin |-> FALSE, cos |-> FALSE, n |-> 4, start |-> ""]
Cmds == {[Base EXCEPT !.fault = x, !.in = i, !.out = o, !.infmt = g, !.outfmt = h, !.par = p, !.all = q, !.ymin = m] @@ [t |-> "data2data"] :
           x \in {"", "x"}, i \in Names, o \in {"o", "b"}, g \in {"", "data_grid"}, h \in {"", "alta-binary", "data_grid"},
           p \in {"", "SPHERICAL_TL_PL_TV_PV", "BAD"}, q \in BOOLEAN, m \in {NoY, 1}}
     \cup {[Base EXCEPT !.in = i, !.data = d, !.infmt = g, !.diff = e] @@ [t |-> t] :
           i \in Names, d \in Names, g \in {"", "data_grid"}, e \in BOOLEAN, t \in {"brdf2data", "brdf2gnuplot", "brdf2stats", "data2stats"}}
     \cup {[Base EXCEPT !.in = i, !.start = v, !.n = 1] @@ [t |-> "data2brdf"] : i \in Names, v \in {"yes", "no"}}
     \cup {[Base EXCEPT !.in = i, !.infmt = g] @@ [t |-> t] : i \in Names, g \in {"", "data_grid"}, t \in {"brdf2brdf", "data2moments", "polar"}}
\* a grid is compared on the domain it covers only
Fair(c) == c.t = "data2stats" => \A j \in DOMAIN AsData(fs[c.data]).rows : AsData(fs[c.data]).rows[j].c > 100
Next == TLCGet("level") <= Depth /\ \E c \in Cmds : (Ok(c) => Fair(c)) /\ Run(c)
Spec == Init /\ [][Next]_vars

Data == {n \in Names : fs[n].k \in {"data", "grid"}}
Funcs == {n \in Names : fs[n].k = "func"}
D(c, t) == [Base EXCEPT !.in = c] @@ [t |-> t]
Known1(n) == AsData(fs[n]).par # "UNKNOWN_INPUT"
\* a conversion keeps the samples in order, and all of them when asked to
Kept == \A n \in Data : Known1(n) =>
    LET c == D(n, "data2data")  o == Out(c)  p == Out([c EXCEPT !.all = FALSE]) IN
    /\ Ok(c) /\ o.rows = AsData(fs[n]).rows
    /\ p.rows = SelectSeq(o.rows, LAMBDA r : up[r.c])
\* a function has no distance to the data made from it
EvalThenEqual == \A f \in Funcs : \A n \in Data : (Known1(n) /\ AsData(fs[n]).rows # <<>>) =>
    LET o == Out([D(f, "brdf2data") EXCEPT !.data = n])
        s == [fs[f] EXCEPT !.f = fs[f].f]
    IN \A j \in DOMAIN o.rows : o.rows[j].y = fs[f].f[o.rows[j].c] /\ o.rows[j].c = AsData(fs[n]).rows[j].c
\* the same grid, refined or not, is the same function on the nodes of the first
Refined == \A n \in Names : fs[n].k = "grid" =>
    LET o == Out([D(n, "data2data") EXCEPT !.infmt = "data_grid", !.outfmt = "data_grid", !.n = 13]) IN
    \A j \in DOMAIN fs[n].y : o.y[Node(Len(fs[n].y), j) - 100] = fs[n].y[j]
\* a start is nowhere above the data
Below == \A n \in Data : LET c == [D(n, "data2brdf") EXCEPT !.start = "yes"] IN
    Ok(c) => \A r \in Range(AsData(fs[n]).rows) : \A e \in DOMAIN r.y : Out(c).f[r.c][e] <= r.y[e]
\* moments: the mean position lies in the domain
Moments == \A n \in Names : fs[n].k = "grid" =>
    LET m == Out([D(n, "data2moments") EXCEPT !.infmt = "data_grid"]).m[1] IN
    m.m0 >= 0 /\ m.mx >= 0 /\ m.mx <= 4 * m.m0 /\ m.mx * m.mx <= m.m0 * m.mxx
=============================================================================
