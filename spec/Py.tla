--------------------------------- MODULE Py ---------------------------------
(* The Python module: scripts create objects -- vectors, arguments,            *)
(* parametrizations, functions, data, fitters -- and call operations on them.  *)
(* A script names an object by the index of the operation that created it; an  *)
(* operation that fails leaves every object as it was and, if it had to create *)
(* one, leaves None in its place.  Sums and products refer to their parts:     *)
(* parameters set through the one are seen through the other.                  *)
EXTENDS Integers, Sequences, FiniteSets

Keys == <<"np", "nq", "func", "grid-size", "other">>
Normal == <<0, 0, 1, 0, 0, 1>>      \* both directions along the normal
Below == <<0, 0, 0 - 1, 0, 0, 0 - 1>>
Dim == [COS_TH |-> 1, RUSIN_TH_TD |-> 2, CARTESIAN |-> 6]
OutDim == [ENERGY |-> 1, RGB_COLOR |-> 3]
None == [k |-> "none"]

\* ---- parametrizations ----
\* The configuration at the normal, where conversions are exact
AtNormal(in) == CASE in = "COS_TH" -> <<1>> [] in = "RUSIN_TH_TD" -> <<0, 0>> [] in = "CARTESIAN" -> Normal [] OTHER -> <<>>
Convertible(x, a, b) == \/ a = b
                        \/ a \in DOMAIN Dim /\ b \in DOMAIN Dim /\ x = AtNormal(a)
                        \/ a = "CARTESIAN" /\ b = "COS_TH" /\ x = Below
Conv(x, a, b) == IF a = b THEN x ELSE IF x = Below THEN <<0 - 1>> ELSE AtNormal(b)

\* ---- functions ----
IsF(h, i) == i \in 1..Len(h) /\ h[i].k = "func"
IsNL(h, i) == IsF(h, i) /\ h[i].t # "rat"
RECURSIVE FIn(_, _)
FIn(h, f) == CASE h[f].t \in {"blinn", "diff", "rat"} -> h[f].in
               [] OTHER -> LET s == {FIn(h, h[f].parts[i]) : i \in DOMAIN h[f].parts}
                           IN IF Cardinality(s) = 1 THEN CHOOSE v \in s : TRUE ELSE "CARTESIAN"
FDx(h, f) == IF h[f].t = "rat" THEN h[f].dx ELSE Dim[FIn(h, f)]
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
RECURSIVE NbPar(_, _), Get(_, _), Value(_, _, _), SumOf(_, _, _, _), ProdOf(_, _, _, _), GetParts(_, _, _), SetPar(_, _, _), SetParts(_, _, _, _), LeafIds(_, _), LeafParts(_, _, _), NbParts(_, _, _)
NbParts(h, ps, i) == IF i > Len(ps) THEN 0 ELSE NbPar(h, ps[i]) + NbParts(h, ps, i + 1)
NbPar(h, f) == CASE h[f].t = "blinn" -> 2 * h[f].dy [] h[f].t \in {"diff", "rat"} -> 0 [] OTHER -> NbParts(h, h[f].parts, 1)
GetParts(h, ps, i) == IF i > Len(ps) THEN <<>> ELSE Get(h, ps[i]) \o GetParts(h, ps, i + 1)
Get(h, f) == CASE h[f].t = "blinn" -> h[f].p [] h[f].t \in {"diff", "rat"} -> <<>> [] OTHER -> GetParts(h, h[f].parts, 1)
\* the parts are set in order: the last one decides for a part that is used twice
SetParts(h, ps, i, v) == IF i > Len(ps) THEN h
    ELSE LET n == NbPar(h, ps[i]) IN SetParts(SetPar(h, ps[i], SubSeq(v, 1, n)), ps, i + 1, SubSeq(v, n + 1, Len(v)))
SetPar(h, f, v) == CASE h[f].t = "blinn" -> [h EXCEPT ![f].p = v]
                     [] h[f].t \in {"diff", "rat"} -> h
                     [] OTHER -> SetParts(h, h[f].parts, 1, v)
SumOf(h, f, x, i) == LET ps == h[f].parts
                         a == Value(h, ps[i], Conv(x, FIn(h, f), FIn(h, ps[i])))
                     IN IF i = Len(ps) THEN a ELSE LET b == SumOf(h, f, x, i + 1) IN [k \in DOMAIN a |-> a[k] + b[k]]
ProdOf(h, f, x, i) == LET ps == h[f].parts
                          a == Value(h, ps[i], Conv(x, FIn(h, f), FIn(h, ps[i])))
                      IN IF i = Len(ps) THEN a ELSE LET b == ProdOf(h, f, x, i + 1) IN [k \in DOMAIN a |-> a[k] * b[k]]
\* coefficients of the constant and of each variable
RECURSIVE Terms(_, _, _)
Terms(c, x, i) == IF i > Len(c) THEN 0 ELSE c[i] * x[i - 1] + Terms(c, x, i + 1)
Poly(c, x) == c[1] + Terms(c, x, 2)
Value(h, f, x) == CASE h[f].t = "blinn" -> [k \in 1..h[f].dy |-> IF x[1] > 0 THEN h[f].p[2 * k - 1] * Pow(x[1], h[f].p[2 * k]) ELSE 0]
                    [] h[f].t = "diff" -> h[f].p
                    [] h[f].t = "rat" -> [k \in 1..h[f].dy |-> Poly(h[f].p[k], x)]
                    [] h[f].t = "sum" -> SumOf(h, f, x, 1)
                    [] OTHER -> ProdOf(h, f, x, 1)
\* a rational function has no value before it is loaded or fitted
Defined(h, f) == h[f].t # "rat" \/ h[f].p # <<>>
LeafParts(h, ps, i) == IF i > Len(ps) THEN <<>> ELSE LeafIds(h, ps[i]) \o LeafParts(h, ps, i + 1)
LeafIds(h, f) == IF h[f].t \in {"sum", "prod"} THEN LeafParts(h, h[f].parts, 1) ELSE <<f>>

\* ---- files ----
Leaf(h, i) == [t |-> h[i].t, p |-> h[i].p]
FuncFile(h, f, cmd) == [k |-> "func", leaves |-> [i \in DOMAIN LeafIds(h, f) |-> Leaf(h, LeafIds(h, f)[i])],
                        dx |-> FDx(h, f), dy |-> h[f].dy, in |-> FIn(h, f), out |-> h[f].out, cmd |-> cmd]
\* Loading: the parts take their parameters in the order of the file, up to
\* the first one of another kind.
RECURSIVE LoadFrom(_, _, _)
LoadFrom(h, ids, ls) ==
    IF ids = <<>> THEN [h |-> h, ok |-> TRUE]
    ELSE IF ls = <<>> \/ h[ids[1]].t # ls[1].t \/ (ls[1].t = "rat" /\ ls[1].p = <<>>) THEN [h |-> h, ok |-> FALSE]
    ELSE LoadFrom([h EXCEPT ![ids[1]].p = ls[1].p], Tail(ids), Tail(ls))
Plugin == [nonlinear_function_blinn |-> "blinn", nonlinear_function_diffuse |-> "diff", rational_function |-> "rat"]
\* the functions that the value of the argument "func" names
Named == [c \in {"", "nonlinear_function_blinn", "nonlinear_function_diffuse", "rational_function", "[nonlinear_function_blinn]",
                 "[nonlinear_function_blinn,nonlinear_function_diffuse]", "[nonlinear_function_blinn,nonlinear_function_blinn]"} |->
    CASE c \in {"", "rational_function"} -> [list |-> FALSE, ts |-> <<"rat">>]
      [] c = "nonlinear_function_blinn" -> [list |-> FALSE, ts |-> <<"blinn">>]
      [] c = "nonlinear_function_diffuse" -> [list |-> FALSE, ts |-> <<"diff">>]
      [] c = "[nonlinear_function_blinn]" -> [list |-> TRUE, ts |-> <<"blinn">>]
      [] c = "[nonlinear_function_blinn,nonlinear_function_diffuse]" -> [list |-> TRUE, ts |-> <<"blinn", "diff">>]
      [] OTHER -> [list |-> TRUE, ts |-> <<"blinn", "blinn">>]]
Zeros(n) == [i \in 1..n |-> 0]
NewLeaf(t, par) == [k |-> "func", t |-> t, dy |-> par.dy, out |-> par.out,
                    in |-> CASE t = "blinn" -> "COS_TH" [] t = "diff" -> "CARTESIAN" [] OTHER -> par.in,
                    dx |-> CASE t = "blinn" -> 1 [] t = "diff" -> 6 [] OTHER -> par.dx,
                    p |-> CASE t = "blinn" -> Zeros(2 * par.dy) [] t = "diff" -> Zeros(par.dy) [] OTHER -> <<>>,
                    parts |-> <<>>]
\* The heap also holds the parts that no variable of the script names: they
\* come after the object they belong to.
Create(h, cmd, par) == LET c == Named[cmd]
                           n == Len(h) + 1
                       IN IF ~c.list THEN Append(h, NewLeaf(c.ts[1], par))
                          ELSE Append(h, [k |-> "func", t |-> "sum", dy |-> par.dy, out |-> par.out, in |-> "", dx |-> 0, p |-> <<>>,
                                          parts |-> [i \in DOMAIN c.ts |-> n + i]])
                               \o [i \in DOMAIN c.ts |-> NewLeaf(c.ts[i], par)]

\* ---- data ----
Is(h, i, k) == i \in 1..Len(h) /\ h[i].k = k
RowLen(d) == d.par.dx + d.par.dy
Xs(d, i) == SubSeq(d.rows[i], 1, d.par.dx)
Ys(d, i) == SubSeq(d.rows[i], d.par.dx + 1, RowLen(d))
RECURSIVE SumSeq(_, _)
SumSeq(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumSeq(f, n - 1)
\* outputs: one value stands for all, several for their mean
OutConv(y, n) == IF Len(y) = n THEN y ELSE IF Len(y) = 1 THEN [k \in 1..n |-> y[1]] ELSE <<SumSeq(y, Len(y)) \div Len(y)>>
\* value of tables over COS_TH with two nodes, 0 and 1
Lookup(d, c) == IF c <= 0 THEN Ys(d, 1) ELSE Ys(d, Len(d.rows))
CanStats(h, a, b) == /\ h[a].grid /\ h[a].par.dy = h[b].par.dy
                     /\ h[b].par.in # "UNKNOWN"
AbsV(v) == IF v < 0 THEN 0 - v ELSE v
MaxSeq(f) == CHOOSE m \in {f[i] : i \in DOMAIN f} : \A i \in DOMAIN f : f[i] <= m
Stats(h, a, b) ==
    LET d == h[b]
        diff(i, k) == AbsV(Lookup(h[a], Conv(Xs(d, i), d.par.in, "COS_TH")[1])[k] - Ys(d, i)[k])
        n == Len(d.rows)
    IN [l1 |-> [k \in 1..d.par.dy |-> SumSeq([i \in 1..n |-> diff(i, k)], n)],
        ss |-> [k \in 1..d.par.dy |-> SumSeq([i \in 1..n |-> diff(i, k) * diff(i, k)], n)],
        linf |-> [k \in 1..d.par.dy |-> MaxSeq([i \in 1..n |-> diff(i, k)])]]

\* ---- operations ----
Val(v) == [t |-> "val", v |-> v]
OK == [t |-> "ok"]
Fail == [t |-> "fail"]
S(h, fs, r) == [h |-> h, fs |-> fs, r |-> r]
Quiet(h, fs) == S(h, fs, Fail)                          \* fails, creates nothing
NotMade(h, fs) == S(Append(h, None), fs, Fail)          \* fails, was to create
Made(h, fs, o) == S(Append(h, o), fs, OK)
Vec(v) == [k |-> "vec", v |-> v]
PutFile(fs, n, c) == [m \in DOMAIN fs \cup {n} |-> IF m = n THEN c ELSE fs[m]]
ArgOf(h, i, key) == LET ks == {j \in DOMAIN Keys : Keys[j] = key} IN h[i].m[CHOOSE j \in ks : TRUE]
KeyAt(key) == CHOOSE j \in DOMAIN Keys : Keys[j] = key

Combine(h, fs, o, t) ==
    LET a == o.a  b == o.b
    IN IF /\ IsNL(h, a) /\ IsNL(h, b) /\ h[a].dy = h[b].dy /\ (t = "prod" \/ h[a].out = h[b].out)
       THEN Made(h, fs, [k |-> "func", t |-> t, dy |-> h[a].dy, out |-> h[a].out, in |-> "", dx |-> 0, p |-> <<>>, parts |-> <<a, b>>])
       ELSE NotMade(h, fs)
VecOp(h, fs, o, s) ==
    IF Is(h, o.a, "vec") /\ Is(h, o.b, "vec") /\ Len(h[o.a].v) = Len(h[o.b].v)
    THEN Made(h, fs, Vec([i \in DOMAIN h[o.a].v |-> h[o.a].v[i] + s * h[o.b].v[i]]))
    ELSE NotMade(h, fs)
Reload(h, fs, ids, file) == LoadFrom(h, ids, fs[file].leaves)
LoadOp(h, fs, o) ==
    IF IsF(h, o.a) /\ o.file \in DOMAIN fs /\ fs[o.file].k = "func"
    THEN LET r == Reload(h, fs, LeafIds(h, o.a), o.file) IN S(r.h, fs, IF r.ok THEN OK ELSE Fail)
    ELSE Quiet(h, fs)
LoadFOp(h, fs, o) ==
    IF o.file \in DOMAIN fs /\ fs[o.file].k = "func"
    THEN LET f == fs[o.file]
             h2 == Create(h, f.cmd, [dx |-> f.dx, dy |-> f.dy, in |-> f.in, out |-> f.out])
             n == Len(h) + 1
             r == Reload(h2, fs, LeafIds(h2, n), o.file)
         IN IF r.ok THEN S(r.h, fs, OK) ELSE NotMade(h, fs)
    ELSE NotMade(h, fs)
DataOp(h, fs, o) ==
    IF ~Is(h, o.par, "par") \/ (o.args # 0 /\ ~Is(h, o.args, "args")) THEN NotMade(h, fs)
    ELSE IF o.name = "vertical_segment"
    THEN Made(h, fs, [k |-> "data", grid |-> FALSE, par |-> h[o.par], rows |-> [i \in 1..o.n |-> Zeros(h[o.par].dx + h[o.par].dy)]])
    ELSE IF o.name = "data_grid"
    THEN LET dy == OutDim[h[o.par].out]     \* grids have the outputs of their parametrization
         IN Made(h, fs, [k |-> "data", grid |-> TRUE, par |-> [h[o.par] EXCEPT !.dy = dy],
                         rows |-> [i \in 1..2 |-> <<i - 1>> \o Zeros(dy)]])
    ELSE NotMade(h, fs)
B2DOk(h, f, d) ==
    /\ Len(h[d].rows) > 0 /\ h[f].dy = h[d].par.dy /\ Defined(h, f)
    /\ FIn(h, f) = "UNKNOWN" => FDx(h, f) = h[d].par.dx
FitOk(h, o) == /\ Is(h, o.fi, "fit") /\ Is(h, o.a, "data") /\ IsF(h, o.b) /\ h[o.b].t = "rat"
               /\ (o.args = 0 \/ Is(h, o.args, "args"))

\* Created functions are given parameters at once: they have none that are defined.
CreateSet(h, fs, cmd, o) ==
    LET h2 == Create(h, cmd, h[o.par])  n == Len(h) + 1
    IN S(IF Len(o.v) = NbPar(h2, n) THEN SetPar(h2, n, o.v) ELSE h2, fs, OK)

Apply(h, fs, o) ==
    CASE o.op = "vec" -> Made(h, fs, Vec(o.v))
      [] o.op = "copy" -> IF Is(h, o.a, "vec") THEN Made(h, fs, h[o.a]) ELSE NotMade(h, fs)
      [] o.op = "put" -> IF Is(h, o.a, "vec") /\ o.i \in 0..(Len(h[o.a].v) - 1)
                         THEN S([h EXCEPT ![o.a].v[o.i + 1] = o.v], fs, OK) ELSE Quiet(h, fs)
      [] o.op = "at" -> IF Is(h, o.a, "vec") /\ o.i \in 0..(Len(h[o.a].v) - 1)
                        THEN S(h, fs, Val(h[o.a].v[o.i + 1])) ELSE Quiet(h, fs)
      [] o.op = "list" -> IF Is(h, o.a, "vec") THEN S(h, fs, Val(h[o.a].v))
                          ELSE IF Is(h, o.a, "data") THEN S(h, fs, Val(h[o.a].rows)) ELSE Quiet(h, fs)
      [] o.op = "len" -> IF Is(h, o.a, "vec") THEN S(h, fs, Val(Len(h[o.a].v)))
                         ELSE IF Is(h, o.a, "data") THEN S(h, fs, Val(Len(h[o.a].rows))) ELSE Quiet(h, fs)
      [] o.op = "norm2" -> IF Is(h, o.a, "vec") THEN S(h, fs, Val(SumSeq([i \in DOMAIN h[o.a].v |-> h[o.a].v[i] * h[o.a].v[i]], Len(h[o.a].v))))
                           ELSE Quiet(h, fs)
      [] o.op = "add" -> IF IsF(h, o.a) \/ IsF(h, o.b) THEN Combine(h, fs, o, "sum") ELSE VecOp(h, fs, o, 1)
      [] o.op = "sub" -> VecOp(h, fs, o, 0 - 1)
      [] o.op = "mul" -> Combine(h, fs, o, "prod")
      [] o.op = "args" -> Made(h, fs, [k |-> "args", m |-> o.m])
      [] o.op = "aput" -> IF Is(h, o.a, "args") THEN S([h EXCEPT ![o.a].m[KeyAt(o.key)] = o.v], fs, OK) ELSE Quiet(h, fs)
      [] o.op = "aget" -> IF Is(h, o.a, "args") THEN S(h, fs, Val(ArgOf(h, o.a, o.key))) ELSE Quiet(h, fs)
      [] o.op = "par" -> Made(h, fs, [k |-> "par", dx |-> o.dx, dy |-> o.dy, in |-> o.in, out |-> o.out])
      [] o.op = "func" -> IF Is(h, o.par, "par") /\ o.name \in DOMAIN Plugin THEN CreateSet(h, fs, o.name, o)
                          ELSE NotMade(h, fs)
      [] o.op = "funca" -> IF Is(h, o.a, "args") /\ Is(h, o.par, "par") THEN CreateSet(h, fs, ArgOf(h, o.a, "func"), o)
                           ELSE NotMade(h, fs)
      [] o.op = "value" -> IF IsF(h, o.a) /\ Is(h, o.b, "vec") /\ Len(h[o.b].v) = FDx(h, o.a) /\ Defined(h, o.a)
                           THEN S(h, fs, Val(Value(h, o.a, h[o.b].v))) ELSE
                           IF Is(h, o.a, "data") /\ h[o.a].grid /\ Is(h, o.b, "vec") /\ Len(h[o.b].v) \in {1, RowLen(h[o.a])}
                           THEN S(h, fs, Val(Lookup(h[o.a], h[o.b].v[1]))) ELSE Quiet(h, fs)
      [] o.op = "get" -> IF IsF(h, o.a) THEN Made(h, fs, Vec(Get(h, o.a))) ELSE NotMade(h, fs)
      [] o.op = "set" -> IF IsNL(h, o.a) /\ Is(h, o.b, "vec") /\ Len(h[o.b].v) = NbPar(h, o.a)
                         THEN S(SetPar(h, o.a, h[o.b].v), fs, OK) ELSE Quiet(h, fs)
      [] o.op = "save" -> IF IsF(h, o.a) /\ (o.args = 0 \/ Is(h, o.args, "args"))
                          THEN S(h, PutFile(fs, o.file, FuncFile(h, o.a, IF o.args = 0 THEN "" ELSE ArgOf(h, o.args, "func"))), OK)
                          ELSE IF Is(h, o.a, "data") /\ o.args = 0
                          THEN S(h, PutFile(fs, o.file, [h[o.a] EXCEPT !.k = "data"]), OK)
                          ELSE Quiet(h, fs)
      [] o.op = "rat" -> S(h, PutFile(fs, o.file, [k |-> "func", leaves |-> <<[t |-> "rat", p |-> o.p]>>, dx |-> o.dx, dy |-> Len(o.p),
                                                   in |-> o.in, out |-> "ENERGY", cmd |-> ""]), OK)
      [] o.op = "diff" -> S(h, PutFile(fs, o.file, [k |-> "func", leaves |-> <<[t |-> "diff", p |-> o.p]>>, dx |-> 6, dy |-> Len(o.p),
                                                    in |-> "CARTESIAN", out |-> "ENERGY", cmd |-> "nonlinear_function_diffuse"]), OK)
      [] o.op = "load" -> LoadOp(h, fs, o)
      [] o.op = "loadf" -> LoadFOp(h, fs, o)
      [] o.op = "data" -> DataOp(h, fs, o)
      [] o.op = "dget" -> IF Is(h, o.a, "data") /\ o.i \in 0..(Len(h[o.a].rows) - 1) THEN Made(h, fs, Vec(h[o.a].rows[o.i + 1])) ELSE NotMade(h, fs)
      [] o.op = "dset" -> IF Is(h, o.a, "data") /\ Is(h, o.b, "vec") /\ o.i \in 0..(Len(h[o.a].rows) - 1)
                             /\ Len(h[o.b].v) \in {RowLen(h[o.a]), RowLen(h[o.a]) + 2 * h[o.a].par.dy}    \* with confidence intervals
                          THEN S([h EXCEPT ![o.a].rows[o.i + 1] = SubSeq(h[o.b].v, 1, RowLen(h[o.a]))], fs, OK) ELSE Quiet(h, fs)
      [] o.op = "dload" -> IF o.file \in DOMAIN fs /\ fs[o.file].k = "data" /\ (o.name = "vertical_segment" \/ fs[o.file].grid)
                           THEN Made(h, fs, [fs[o.file] EXCEPT !.grid = (o.name = "data_grid")]) ELSE NotMade(h, fs)
      [] o.op = "d2d" -> IF /\ Is(h, o.a, "data") /\ Is(h, o.par, "par")
                            /\ (h[o.par].dy = h[o.a].par.dy \/ h[o.par].dy = 1 \/ h[o.a].par.dy = 1)
                            /\ h[o.par].in \in DOMAIN Dim /\ h[o.a].par.in \in DOMAIN Dim /\ h[o.par].dx = Dim[h[o.par].in]
                         THEN Made(h, fs, [k |-> "data", grid |-> FALSE, par |-> h[o.par],
                                           rows |-> [i \in DOMAIN h[o.a].rows |-> Conv(Xs(h[o.a], i), h[o.a].par.in, h[o.par].in) \o OutConv(Ys(h[o.a], i), h[o.par].dy)]])
                         ELSE NotMade(h, fs)
      [] o.op = "b2d" -> IF IsF(h, o.a) /\ Is(h, o.b, "data") /\ B2DOk(h, o.a, o.b)
                         THEN S([h EXCEPT ![o.b].rows = [i \in DOMAIN @ |-> Xs(h[o.b], i) \o
                                Value(h, o.a, IF FIn(h, o.a) = "UNKNOWN" THEN Xs(h[o.b], i) ELSE Conv(Xs(h[o.b], i), h[o.b].par.in, FIn(h, o.a)))]], fs, OK)
                         ELSE Quiet(h, fs)
      [] o.op = "stats" -> IF Is(h, o.a, "data") /\ Is(h, o.b, "data") /\ CanStats(h, o.a, o.b) THEN S(h, fs, Val(Stats(h, o.a, o.b))) ELSE Quiet(h, fs)
      [] o.op = "fitter" -> IF o.name = "rational_fitter_leastsquare" THEN Made(h, fs, [k |-> "fit"]) ELSE NotMade(h, fs)
      \* of data that is constant, with one coefficient
      [] o.op = "fit" -> IF FitOk(h, o)
                         THEN S([h EXCEPT ![o.b].p = [c \in 1..h[o.b].dy |-> <<Ys(h[o.a], 1)[c]>>]], fs, OK)
                         ELSE Quiet(h, fs)
      [] OTHER -> Quiet(h, fs)

\* Scripts name objects by variables: vs[j] is the object of variable j.
Refs == {"a", "b", "par", "args", "fi"}
Deref(vs, o) == [k \in DOMAIN o |-> IF k \in Refs THEN (IF o[k] \in 1..Len(vs) THEN vs[o[k]] ELSE o[k]) ELSE o[k]]
NewVars(vs, h, h2) == IF Len(h2) > Len(h) THEN Append(vs, Len(h) + 1) ELSE vs

\* What a script can see of an object: parameters, samples, values at probes.
Probes == <<<<1>>, <<2>>, <<0, 0>>, <<1, 2>>, Normal, Below>>
View(h, i) ==
    CASE h[i].k = "vec" -> h[i]
      [] h[i].k = "args" -> h[i]
      [] h[i].k = "func" -> [k |-> "func", p |-> Get(h, i),
                             y |-> [j \in DOMAIN Probes |-> IF Len(Probes[j]) = FDx(h, i) /\ Defined(h, i) THEN Value(h, i, Probes[j]) ELSE <<>>]]
      [] h[i].k = "data" -> [k |-> "data", rows |-> h[i].rows]
      [] OTHER -> [k |-> h[i].k]
=============================================================================
