-------------------------------- MODULE MCPy --------------------------------
(* Scripts: random ones for replay, and all short ones of a few operations.    *)
EXTENDS Py, TLC, Json
CONSTANTS MaxLen
VARIABLES h, fs, vs, ops, last, prev, theme
vars == <<h, fs, vs, ops, last, prev, theme>>
R(set) == RandomElement(set)
Max2(a, b) == IF a > b THEN a ELSE b
Num(v) == Max2(v, 0 - v)
SmallV(v, n) == \A i \in DOMAIN v : Num(v[i]) <= n
Files == {"f1", "f2", "g1"}

\* ---- what a script may ask: configurations where everything is exact ----
RECURSIVE ConvOK(_, _, _)
ConvOK(hh, f, x) == hh[f].t \notin {"sum", "prod"} \/
    \A i \in DOMAIN hh[f].parts : LET q == hh[f].parts[i]
        IN Convertible(x, FIn(hh, f), FIn(hh, q)) /\ ConvOK(hh, q, Conv(x, FIn(hh, f), FIn(hh, q)))
GoodPar(p) == p.in \in DOMAIN Dim => p.dx = Dim[p.in]
Leaves(hh, i) == Len(LeafIds(hh, i))
GoodRow(hh, i, v) == /\ SmallV(v, 1000)
                     /\ hh[i].grid => \A k \in 1..2 : TRUE
LoadSafe(hh, ids, f) == /\ f.dy = hh[ids[1]].dy
                        /\ \A i \in DOMAIN ids : i <= Len(f.leaves) /\ hh[ids[i]].t = f.leaves[i].t =>
                               (hh[ids[i]].t = "rat" => f.dx = hh[ids[i]].dx)
                        /\ LoadFrom(hh, ids, f.leaves).ok \/ LoadFrom(hh, ids, f.leaves).h = hh
ConstRows(d) == \A i, j \in DOMAIN d.rows : SubSeq(d.rows[i], d.par.dx + 1, RowLen(d)) = SubSeq(d.rows[j], d.par.dx + 1, RowLen(d))
Allowed(o) ==
    CASE o.op \in {"vec", "copy", "put", "list", "len", "at", "args", "aput", "aget", "par", "rat", "diff", "fitter", "get", "dget"} -> TRUE
      [] o.op \in {"add", "sub", "mul"} ->
             \/ IsF(h, o.a) /\ IsF(h, o.b) /\ (IsNL(h, o.a) /\ IsNL(h, o.b) => Leaves(h, o.a) + Leaves(h, o.b) <= 3) /\ o.op # "sub"
             \/ Is(h, o.a, "vec") /\ Is(h, o.b, "vec") /\ SmallV(h[o.a].v, 1000) /\ SmallV(h[o.b].v, 1000) /\ o.op # "mul"
             \/ Is(h, o.a, "func") /\ ~IsF(h, o.b) /\ o.op # "sub"
             \/ Is(h, o.a, "vec") /\ ~Is(h, o.b, "vec") /\ ~IsF(h, o.b) /\ o.op # "mul"
      [] o.op = "norm2" -> Is(h, o.a, "vec") => SmallV(h[o.a].v, 1000)
      [] o.op = "func" -> Is(h, o.par, "par") => /\ GoodPar(h[o.par])
                                                 /\ o.name \in DOMAIN Plugin => LET h2 == Create(h, o.name, h[o.par]) IN Len(o.v) = NbPar(h2, Len(h) + 1)
      [] o.op = "funca" -> (Is(h, o.par, "par") /\ Is(h, o.a, "args")) =>
             /\ GoodPar(h[o.par])
             /\ LET h2 == Create(h, ArgOf(h, o.a, "func"), h[o.par]) IN Len(o.v) = NbPar(h2, Len(h) + 1)
      [] o.op = "value" -> /\ Is(h, o.b, "vec") => SmallV(h[o.b].v, 4)
                           /\ (IsF(h, o.a) /\ Is(h, o.b, "vec")) => (Len(h[o.b].v) # FDx(h, o.a) \/ ConvOK(h, o.a, h[o.b].v))
                           /\ Is(h, o.a, "data") => h[o.a].grid
      [] o.op = "set" -> IsF(h, o.a) /\ (Is(h, o.b, "vec") => \A i \in DOMAIN h[o.b].v : h[o.b].v[i] \in 0..2)
      [] o.op = "save" -> /\ IsF(h, o.a) => Defined(h, o.a) /\ \A i \in DOMAIN LeafIds(h, o.a) : TRUE
                          /\ IsF(h, o.a) => SmallV(Get(h, o.a), 1000)
                          /\ Is(h, o.a, "data") => o.args = 0 /\ h[o.a].rows # <<>>
      [] o.op = "load" -> (IsF(h, o.a) /\ o.file \in DOMAIN fs /\ fs[o.file].k = "func") => LoadSafe(h, LeafIds(h, o.a), fs[o.file])
      [] o.op = "loadf" -> (o.file \in DOMAIN fs /\ fs[o.file].k = "func") =>
             LET f == fs[o.file]
                 h2 == Create(h, f.cmd, [dx |-> f.dx, dy |-> f.dy, in |-> f.in, out |-> f.out])
             IN /\ f.out # "UNKNOWN"
                /\ LoadSafe(h2, LeafIds(h2, Len(h) + 1), f)
      [] o.op = "data" -> /\ (o.name = "data_grid" /\ Is(h, o.par, "par")) =>
                                 /\ o.args # 0
                                 /\ Is(h, o.args, "args") => h[o.par].in = "COS_TH" /\ ArgOf(h, o.args, "grid-size") = "[2]"
                          /\ Is(h, o.par, "par") => GoodPar(h[o.par])
      [] o.op = "dset" -> (Is(h, o.a, "data") /\ Is(h, o.b, "vec")) =>
                             /\ SmallV(h[o.b].v, 1000)
                             /\ (h[o.a].grid /\ h[o.b].v # <<>>) => h[o.b].v[1] = o.i
      [] o.op = "dload" -> (o.file \in DOMAIN fs /\ fs[o.file].k = "data") => o.name = "vertical_segment" \/ fs[o.file].grid
      [] o.op = "d2d" -> (Is(h, o.a, "data") /\ Is(h, o.par, "par")) =>
                            /\ h[o.par].dy = 1 => \A i \in DOMAIN h[o.a].rows :
                                   LET y == SubSeq(h[o.a].rows[i], h[o.a].par.dx + 1, RowLen(h[o.a])) IN SumSeq(y, Len(y)) % Len(y) = 0
                            /\ \A i \in DOMAIN h[o.a].rows : Convertible(SubSeq(h[o.a].rows[i], 1, h[o.a].par.dx), h[o.a].par.in, h[o.par].in)
                                                             \/ h[o.par].in = "UNKNOWN" \/ h[o.a].par.in = "UNKNOWN"
      [] o.op = "b2d" -> (IsF(h, o.a) /\ Is(h, o.b, "data")) =>
                            /\ h[o.b].par.in = "UNKNOWN" => FIn(h, o.a) = "UNKNOWN" \/ h[o.a].dy # h[o.b].par.dy
                            /\ FIn(h, o.a) = "UNKNOWN" \/
                               \A i \in DOMAIN h[o.b].rows :
                                  LET x == SubSeq(h[o.b].rows[i], 1, h[o.b].par.dx)
                                  IN SmallV(x, 4) /\ Convertible(x, h[o.b].par.in, FIn(h, o.a)) /\ ConvOK(h, o.a, Conv(x, h[o.b].par.in, FIn(h, o.a)))
                            /\ \A i \in DOMAIN h[o.b].rows : SmallV(SubSeq(h[o.b].rows[i], 1, h[o.b].par.dx), 4)
                            /\ Len(h[o.b].rows) > 0 => Defined(h, o.a)
      [] o.op = "stats" -> (Is(h, o.a, "data") /\ Is(h, o.b, "data")) =>
                            /\ h[o.a].grid /\ h[o.b].rows # <<>>
                            /\ h[o.b].par.in # "UNKNOWN"
                            /\ \A i \in DOMAIN h[o.b].rows : /\ SmallV(h[o.b].rows[i], 1000)
                                   /\ Convertible(SubSeq(h[o.b].rows[i], 1, h[o.b].par.dx), h[o.b].par.in, "COS_TH")
                                   /\ Conv(SubSeq(h[o.b].rows[i], 1, h[o.b].par.dx), h[o.b].par.in, "COS_TH")[1] \in 0..1
                            /\ \A i \in DOMAIN h[o.a].rows : SmallV(h[o.a].rows[i], 1000)
      [] o.op = "fit" -> (Is(h, o.fi, "fit") /\ Is(h, o.a, "data") /\ IsF(h, o.b)) =>
                            /\ Is(h, o.args, "args")
                            /\ ArgOf(h, o.args, "np") = "1" /\ ArgOf(h, o.args, "nq") = "1"
                            /\ h[o.b].t = "rat" =>
                                 /\ h[o.a].rows # <<>> /\ ConstRows(h[o.a])
                                 /\ h[o.a].par.dx = h[o.b].dx /\ h[o.a].par.dy = h[o.b].dy /\ h[o.a].par.in = h[o.b].in
                                 /\ \A k \in (h[o.a].par.dx + 1)..RowLen(h[o.a]) : h[o.a].rows[1][k] # 0 /\ Num(h[o.a].rows[1][k]) <= 100
      [] OTHER -> FALSE

\* ---- random operations ----
OfKind(ks) == {j \in DOMAIN vs : h[vs[j]].k \in ks}
AnyVar(z) == IF R(1..12) = 1 \/ vs = <<>> THEN 0 ELSE R(DOMAIN vs)
Pick(ks) == IF OfKind(ks) # {} /\ R(1..9) > 1 THEN R(OfKind(ks)) ELSE AnyVar(0)
PickArgs(n) == IF R(1..n) = 1 THEN 0 ELSE Pick({"args"})
PickIf(set) == IF set # {} /\ R(1..9) > 1 THEN R(set) ELSE AnyVar(0)
VecsOf(n) == {j \in OfKind({"vec"}) : Len(h[vs[j]].v) = n}
\* a vector, of a size or at a place that is useful for a function or data
OneOf(s) == s[R(DOMAIN s)]
RVec(z) == CASE R(1..3) = 1 -> OneOf(<<<<1>>, <<2>>, <<0, 0>>, Normal, Below, <<0 - 1>>>>)
          [] OTHER -> LET n == OneOf(<<0, 1, 2, 2, 2, 3, 4, 4, 6>>) IN [i \in 1..n |-> R(0..2)]
\* a row for one of the data
RRow(z) == LET ds == OfKind({"data"})
        IN IF ds = {} THEN RVec(0)
           ELSE LET d == h[vs[R(ds)]]
                IN (IF d.grid THEN <<R(0..1)>> ELSE IF R(1..4) > 1 THEN (IF d.par.in \in DOMAIN Dim THEN AtNormal(d.par.in) ELSE [i \in 1..d.par.dx |-> 1])
                    ELSE [i \in 1..d.par.dx |-> R(0..2)])
                   \o (LET c == R(1..9) IN [i \in 1..d.par.dy |-> c])
SetVec(z) == LET f == OfKind({"func"}) IN IF f = {} THEN RVec(0) ELSE [i \in 1..NbPar(h, vs[R(f)]) |-> R(0..2)]
Nb(op, par, cmd) == IF par \in DOMAIN vs /\ h[vs[par]].k = "par" /\ cmd \in DOMAIN Named THEN NbPar(Create(h, cmd, h[vs[par]]), Len(h) + 1) ELSE 1
FName(z) == OneOf(<<"nonlinear_function_blinn", "nonlinear_function_blinn", "nonlinear_function_diffuse", "rational_function", "rational_function", "nope">>)
RFunc(par, name) == [op |-> "func", name |-> name, par |-> par, v |-> [i \in 1..Nb("", par, name) |-> R(0..2)]]
RFunca(par, a) == [op |-> "funca", a |-> a, par |-> par,
                   v |-> [i \in 1..(IF a \in DOMAIN vs /\ h[vs[a]].k = "args" THEN Nb("", par, ArgOf(h, vs[a], "func")) ELSE 0) |-> R(0..2)]]
RKey(z) == R(DOMAIN Keys)
KeyVals(k) == CASE k \in {1, 2} -> {"1"} [] k = 3 -> DOMAIN Named \ {""} [] k = 4 -> {"[2]"} [] OTHER -> {"x", "y"}
RAput(k) == [op |-> "aput", a |-> Pick({"args"}), key |-> Keys[k], v |-> R(KeyVals(k))]
RIn(z) == OneOf(<<"COS_TH", "COS_TH", "COS_TH", "RUSIN_TH_TD", "CARTESIAN", "UNKNOWN">>)
RPar(in) == [op |-> "par", in |-> in, dx |-> IF in \in DOMAIN Dim /\ R(1..8) > 1 THEN Dim[in] ELSE R(1..2), dy |-> R({1, 2}),
             out |-> OneOf(<<"ENERGY", "ENERGY", "ENERGY", "RGB_COLOR">>)]
Needs(n) == CASE n \in {"copy", "put", "at", "norm2", "sub"} -> {"vec"}
              [] n \in {"setvec", "get", "load", "mul"} -> {"func"} [] n \in {"value", "set"} -> {"func", "vec"}
              [] n = "funca" -> {"par", "args"} [] n \in {"func", "data"} -> {"par"} [] n \in {"aput", "aget"} -> {"args"}
              [] n \in {"row", "dget"} -> {"data"} [] n = "dset" -> {"data", "vec"} [] n = "d2d" -> {"data", "par"}
              [] n = "b2d" -> {"data", "func"} [] n = "stats" -> {"data"} [] n = "fit" -> {"fit", "data", "func", "args"} [] OTHER -> {}
RValue(a) == [op |-> "value", a |-> a,
              b |-> IF a \in DOMAIN vs /\ h[vs[a]].k \in {"func", "data"}
                    THEN PickIf(VecsOf(IF h[vs[a]].k = "func" THEN FDx(h, vs[a]) ELSE 1)) ELSE AnyVar(0)]
RSet(a) == [op |-> "set", a |-> a, b |-> IF a \in DOMAIN vs /\ h[vs[a]].k = "func" THEN PickIf(VecsOf(NbPar(h, vs[a]))) ELSE AnyVar(0)]
RDset(a) == LET d == a \in DOMAIN vs /\ h[vs[a]].k = "data"
            IN [op |-> "dset", a |-> a, i |-> IF d /\ h[vs[a]].rows # <<>> /\ R(1..6) > 1 THEN R(DOMAIN h[vs[a]].rows) - 1 ELSE R((0 - 1)..3),
                b |-> IF d THEN PickIf(VecsOf(IF R(1..4) > 1 THEN RowLen(h[vs[a]]) ELSE RowLen(h[vs[a]]) + 2 * h[vs[a]].par.dy)) ELSE AnyVar(0)]
RFit(a) == [op |-> "fit", fi |-> Pick({"fit"}), a |-> a, args |-> Pick({"args"}),
            b |-> IF a \in DOMAIN vs /\ h[vs[a]].k = "data"
                  THEN PickIf({j \in OfKind({"func"}) : h[vs[j]].t = "rat" /\ h[vs[j]].dx = h[vs[a]].par.dx /\ h[vs[j]].dy = h[vs[a]].par.dy /\ h[vs[j]].in = h[vs[a]].par.in})
                  ELSE AnyVar(0)]
RFile(k) == IF R(1..9) = 1 THEN R(Files \cup {"none"}) ELSE LET g == {n \in DOMAIN fs : fs[n].k = k} IN IF g = {} THEN R(Files \cup {"none"}) ELSE R(g)
GridPars == {j \in OfKind({"par"}) : h[vs[j]].in = "COS_TH" /\ h[vs[j]].dx = 1}
GridArgs == {j \in OfKind({"args"}) : h[vs[j]].m[4] = "[2]"}
RData(name) == IF name = "data_grid" THEN [op |-> "data", name |-> name, n |-> R(0..3), par |-> PickIf(GridPars), args |-> PickIf(GridArgs)]
               ELSE [op |-> "data", name |-> name, n |-> R(0..3), par |-> Pick({"par"}), args |-> PickArgs(3)]
OpNames == <<"vec", "vec", "vec", "row", "row", "setvec", "copy", "put", "list", "len", "at", "norm2", "add", "add", "sub", "mul", "mul",
             "args", "aput", "aget", "par", "par", "func", "func", "func", "funca", "value", "value", "get", "set", "set", "save", "save", "save", "rat", "diff",
             "load", "load", "loadf", "data", "data", "data", "dget", "dset", "dset", "dset", "dload", "d2d", "b2d", "b2d", "stats", "fitter", "fit", "fit">>
ROp(n) ==
    CASE n = "vec" -> [op |-> "vec", v |-> RVec(0)]
      [] n = "row" -> [op |-> "vec", v |-> RRow(0)]
      [] n = "setvec" -> [op |-> "vec", v |-> SetVec(0)]
      [] n \in {"copy", "norm2"} -> [op |-> n, a |-> Pick({"vec"})]
      [] n \in {"list", "len"} -> [op |-> n, a |-> Pick({"vec", "data"})]
      [] n = "put" -> [op |-> n, a |-> Pick({"vec"}), i |-> R((0 - 1)..6), v |-> R(0..2)]
      [] n = "at" -> [op |-> n, a |-> Pick({"vec"}), i |-> R((0 - 1)..6)]
      [] n \in {"add", "mul"} -> LET ks == IF R(1..3) > 1 THEN {"func"} ELSE {"vec"} IN [op |-> n, a |-> Pick(ks), b |-> Pick(ks)]
      [] n = "sub" -> [op |-> n, a |-> Pick({"vec"}), b |-> Pick({"vec"})]
      [] n = "args" -> [op |-> n, m |-> [k \in DOMAIN Keys |-> IF R(1..3) = 1 THEN "" ELSE R(KeyVals(k))]]
      [] n = "aput" -> RAput(RKey(0))
      [] n = "aget" -> [op |-> n, a |-> Pick({"args"}), key |-> Keys[RKey(0)]]
      [] n = "par" -> RPar(RIn(0))
      [] n = "func" -> RFunc(Pick({"par"}), FName(0))
      [] n = "funca" -> RFunca(Pick({"par"}), Pick({"args"}))
      [] n = "value" -> RValue(Pick({"func", "data"}))
      [] n = "get" -> [op |-> n, a |-> Pick({"func"})]
      [] n = "set" -> RSet(Pick({"func"}))
      [] n = "save" -> [op |-> n, a |-> Pick({"func", "data"}), args |-> PickArgs(2), file |-> R(Files)]
      [] n = "rat" -> LET in == RIn(0)  dx == IF in \in DOMAIN Dim THEN Dim[in] ELSE R(1..2)
                      IN [op |-> n, in |-> in, dx |-> dx, file |-> R(Files),
                          p |-> [k \in 1..R({1, 2}) |-> [i \in 1..R(1..(1 + dx)) |-> R((0 - 3)..3)]]]
      [] n = "diff" -> [op |-> n, file |-> R(Files), p |-> [k \in 1..R({1, 2}) |-> R(0..3)]]
      [] n = "load" -> [op |-> n, a |-> Pick({"func"}), file |-> RFile("func")]
      [] n = "loadf" -> [op |-> n, file |-> RFile("func")]
      [] n = "data" -> RData(OneOf(<<"vertical_segment", "vertical_segment", "data_grid", "data_grid", "nope">>))
      [] n = "dget" -> [op |-> n, a |-> Pick({"data"}), i |-> R((0 - 1)..3)]
      [] n = "dset" -> RDset(Pick({"data"}))
      [] n = "dload" -> [op |-> n, name |-> OneOf(<<"vertical_segment", "vertical_segment", "data_grid">>), file |-> RFile("data")]
      [] n = "d2d" -> [op |-> n, a |-> Pick({"data"}), par |-> Pick({"par"})]
      [] n = "b2d" -> [op |-> n, a |-> Pick({"func"}), b |-> Pick({"data"})]
      [] n = "stats" -> [op |-> n, a |-> Pick({"data"}), b |-> Pick({"data"})]
      [] n = "fitter" -> [op |-> n, name |-> OneOf(<<"rational_fitter_leastsquare", "rational_fitter_leastsquare", "nope">>)]
      [] OTHER -> RFit(PickIf({j \in OfKind({"data"}) : h[vs[j]].rows # <<>> /\ ConstRows(h[vs[j]]) /\ \A k \in (h[vs[j]].par.dx + 1)..RowLen(h[vs[j]]) : h[vs[j]].rows[1][k] # 0}))
\* scripts about data
DataNames == <<"row", "row", "row", "row", "vec", "put", "list", "len", "par", "aput", "func", "func", "value", "value", "set", "setvec", "save", "save", "rat", "load", "loadf",
               "data", "data", "dget", "dget", "dset", "dset", "dset", "dset", "dset", "dload", "dload", "d2d", "d2d", "b2d", "b2d", "b2d", "stats", "stats", "fitter", "fit", "fit", "fit", "fit">>
DataStart == <<[op |-> "par", dx |-> 1, dy |-> 1, in |-> "COS_TH", out |-> "ENERGY"],
               [op |-> "args", m |-> <<"1", "1", "", "[2]", "">>],
               [op |-> "fitter", name |-> "rational_fitter_leastsquare"],
               [op |-> "data", name |-> "data_grid", n |-> 1, par |-> 1, args |-> 2],
               [op |-> "data", name |-> "vertical_segment", n |-> 2, par |-> 1, args |-> 0],
               [op |-> "vec", v |-> <<1, 7>>], [op |-> "dset", a |-> 5, i |-> 0, b |-> 6], [op |-> "dset", a |-> 5, i |-> 1, b |-> 6],
               [op |-> "func", name |-> "rational_function", par |-> 1, v |-> <<>>]>>
RECURSIVE Run(_, _, _, _)
Run(hh, ff, vv, os) == IF os = <<>> THEN <<hh, ff, vv>>
                       ELSE LET s == Apply(hh, ff, Deref(vv, os[1])) IN Run(s.h, s.fs, NewVars(vv, hh, s.h), Tail(os))
After(os) == LET s == Run(<<>>, <<>>, <<>>, os) IN h = s[1] /\ fs = s[2] /\ vs = s[3] /\ last = OK /\ prev = <<s[1], s[2]>>
Do(o) == LET s == Apply(h, fs, Deref(vs, o))
         IN /\ h' = s.h /\ fs' = s.fs /\ vs' = NewVars(vs, h, s.h)
            /\ ops' = Append(ops, o) /\ last' = s.r /\ prev' = <<h, fs>> /\ UNCHANGED theme
Init == \/ After(<<>>) /\ ops = <<>> /\ theme = "all"
        \/ After(DataStart) /\ ops = DataStart /\ theme = "data"
Next == /\ Len(ops) < MaxLen
        /\ \E n \in 1..14 : \E nm \in {OneOf(IF theme = "all" THEN OpNames ELSE DataNames)} :
             /\ TRUE = ((\A k \in Needs(nm) : OfKind({k}) # {}) \/ R(1..20) = 1)
             /\ \E o \in {ROp(nm)} : TRUE = Allowed(Deref(vs, o)) /\ Do(o)
Emit == Len(ops) = MaxLen => PrintT(<<"BEH", ToJson([h |-> ops])>>)

\* ---- properties of the design, on every script explored ----
Funcs == {i \in DOMAIN h : h[i].k = "func"}
\* parameters of a sum or product are those of its parts, in order
PartsSeen == \A i \in Funcs : h[i].t \in {"sum", "prod"} => Get(h, i) = GetParts(h, h[i].parts, 1) /\ Len(Get(h, i)) = NbPar(h, i)
\* values of a sum (product) are sums (products) of values
Pointwise == \A i \in Funcs : \A j \in DOMAIN Probes :
    (h[i].t \in {"sum", "prod"} /\ Len(Probes[j]) = FDx(h, i)) =>
        \A k \in 1..h[i].dy :
            LET ys == [q \in DOMAIN h[i].parts |-> Value(h, h[i].parts[q], Conv(Probes[j], FIn(h, i), FIn(h, h[i].parts[q])))[k]]
            IN Value(h, i, Probes[j])[k] = IF h[i].t = "sum" THEN SumSeq(ys, Len(ys)) ELSE IF Len(ys) = 2 THEN ys[1] * ys[2] ELSE ys[1]
\* an operation that fails changes nothing but for the None it leaves
FailKeeps == last = Fail => SubSeq(h, 1, Len(prev[1])) = prev[1] /\ fs = prev[2] /\ \A i \in (Len(prev[1]) + 1)..Len(h) : h[i] = None
\* what a loaded function was saved from has the same value
Shapes == \A i \in DOMAIN h : h[i].k = "data" => \A r \in DOMAIN h[i].rows : Len(h[i].rows[r]) = RowLen(h[i])
=============================================================================
