----------------------------- MODULE TraceTools -----------------------------
(* Runs of the real tools in a directory of files, checked against Tools.       *)
(* Contents of an output file are read back by the driver.                      *)
EXTENDS Tools, Regrid, TraceBase
tvars == <<vars, l>>
Abs(v) == IF v < 0 THEN 0 - v ELSE v
Near(a, b, rel) == Abs(a - b) <= 1 + (Abs(b) \div rel)

Same(o, e) ==
    CASE o.k = "data" -> e.k = "data" /\ e.par = o.par /\ e.bin = o.bin /\ e.dy = o.dy /\ e.rows = o.rows
      [] o.k = "grid" -> e.k = "grid" /\ e.dy = o.dy /\ e.y = o.y
      [] o.k = "func" -> e.k = "func" /\ e.par = o.par /\ e.dy = o.dy /\ \A c \in Dom(o) : e.f[c] = o.f[c]
      \* what the fitter was asked for: values within a tenth, in thousandths
      [] o.k = "fit" -> e.k = "fit" /\ Len(e.err) = Len(o.of.rows) /\ \A j \in DOMAIN e.err : \A d \in DOMAIN e.err[j] : e.err[j][d] <= 101
      [] o.k = "report" /\ o.kind = "plot" -> e.k = "plot" /\ e.rows = o.rows
      [] o.k = "report" /\ o.kind = "linear" ->
            /\ e.k = "linear" /\ Len(e.rows) = Len(o.rows)
            /\ \A j \in DOMAIN o.rows : LET r == o.rows[j] IN
                 /\ e.rows[j].i = j - 1 /\ Len(e.rows[j].y) = Len(r.y)
                 /\ \A d \in DOMAIN r.y : r.y[d] # 0 => LET w == 1000 * (r.y[d] - r.f[d])  v == r.y[d] IN
                      Abs(e.rows[j].y[d] * v - w) <= Abs(v)
      [] o.k = "report" /\ o.kind = "polar" ->
            /\ e.k = "polar" /\ Len(e.at) = o.n
            /\ \A j \in 1..o.n : /\ Near(e.at[j], (o.at[j - 1] * 1570796) \div (o.n \div 2), 100000)
                                 /\ Len(e.y[j]) = o.dy
                                 /\ o.y[j - 1] # <<>> => e.y[j] = o.y[j - 1]
      [] o.k = "report" /\ o.kind = "stats" -> e.k = "stats" /\ \A d \in DOMAIN o.l1 : Near(e.l1[d], o.l1[d], 20000)
      [] o.k = "report" /\ o.kind = "moments" ->
            e.k = "moments" /\ \A d \in DOMAIN o.m :
                LET m == o.m[d]  n == Ev.cmd.n IN
                /\ Near(e.m0[d], (1000 * m.m0) \div (n * n), 20000)
                /\ m.m0 > 0 => /\ Near(e.mx[d], (1000 * m.mx) \div (n * m.m0), 20000)
                               /\ Near(e.mxx[d], (1000 * m.mxx) \div (n * n * m.m0), 20000)

\* there is no plot of no data
NothingToWrite == LET c == [Ev.cmd EXCEPT !.fault = ""] IN
    Ev.cmd.fault \in {"full", "limit"} /\ c.t = "brdf2gnuplot" /\ Ok(c) /\ Out(c).rows = <<>> /\ Ev.status = 0
Refused == Ev.status \in 1..255
TBegin == /\ IsEvent("Begin")
          /\ fs' = Ev.fs /\ up' = Ev.up /\ wgt' = Ev.wgt /\ last' = [cmd |-> [t |-> ""], ok |-> TRUE]
TRun == /\ IsEvent("Run")
        /\ Run(Ev.cmd)
        /\ TRUE = (Ev.others /\
             (IF Ok(Ev.cmd) THEN Ev.status = 0 /\ Same(Out(Ev.cmd), Ev.out)
              ELSE Ev.same /\ (Refused \/ NothingToWrite)))
\* help is no failure, and writes no file
THelp == /\ IsEvent("Help") /\ Ev.status = 0 /\ Ev.same /\ Ev.others /\ UNCHANGED vars
\* one table made from another
TGrid == /\ IsEvent("Grid") /\ UNCHANGED vars
         /\ TRUE = (/\ Ev.status = 0 /\ Ev.kept /\ Ev.par = Ev.topar /\ Ev.m = Ev.to
                    /\ Len(Ev.y) = Prod(Ev.to)
                    /\ \A i \in DOMAIN Ev.y : (~Ev.splat /\ NoHalf(Angles(Ev.to, i - 1))) \/ Ev.y[i] \in (IF Ev.splat THEN Splat(Ev.t, Ev.all, i - 1) ELSE Into(Ev.t, Ev.to, i - 1)))
\* m * a / b by thousands, without large intermediate results (a <= b)
Ratio(m, a, b) == LET q == a \div b  r == (a % b) * 10  r2 == (r % b) * 10  r3 == (r2 % b) * 10
                  IN (1000 * q) + (100 * (r \div b)) + (10 * (r2 \div b)) + (r3 \div b)
\* the plane of incidence: light on the side of negative angles, elevations 90 j / h on either side;
\* the function is a + 100 b (x of the view) + 10 c (x of the light), the light at the sine k / 10
TPolar == /\ IsEvent("Polar") /\ UNCHANGED vars
          /\ TRUE = LET h == Ev.n \div 2 IN
                    /\ Ev.status = 0 /\ Len(Ev.at) = 2 * h /\ Len(Ev.y) = 2 * h
                    /\ \A j \in 0..(h - 1) : LET y0 == Ev.y[j + 1]  y1 == Ev.y[h + j + 1]  at == (j * 1570796) \div h
                                                 mid == Ev.a - (Ev.c * Ev.s) IN
                         /\ Near(Ev.at[j + 1], 0 - at, 100000) /\ Near(Ev.at[h + j + 1], at, 100000)
                         /\ Abs(y0[1] + y1[1] - 2 * mid * 1000) <= 2000 \div 100
                         /\ j = 0 => Abs(y0[1] - mid * 1000) <= 10
                         /\ 3 * j = h => Abs(y1[1] - ((mid + (50 * Ev.b)) * 1000)) <= 10
\* moments of a table over the unit square, in thousandths
Exponents == <<<<0, 0>>, <<1, 0>>, <<0, 1>>, <<2, 0>>, <<1, 1>>, <<0, 2>>, <<3, 0>>, <<2, 1>>, <<1, 2>>, <<0, 3>>>>
TMoments == /\ IsEvent("Moments") /\ UNCHANGED vars
            /\ TRUE = (/\ Ev.kept
                       /\ IF Ev.bad THEN Refused /\ Ev.m = <<>>
                          ELSE /\ Ev.status = 0 /\ Len(Ev.m) = 10
                               /\ \A e \in 1..Ev.t.dy :
                                    LET m0 == MomentSum(Ev.t, Ev.s, Ev.dx, Ev.dy, e, 0, 0)  den == Prod(Ev.s) IN
                                    /\ Near(Ev.m[1][e], (1000 * m0) \div (den * den), 20000)
                                    /\ m0 > 0 => \A j \in 2..10 : LET x == Exponents[j] IN
                                         Near(Ev.m[j][e], Ratio(1000, MomentSum(Ev.t, Ev.s, Ev.dx, Ev.dy, e, x[1], x[2]),
                                                                m0 * PowI(Ev.s[Ev.dx], x[1]) * PowI(Ev.s[Ev.dy], x[2])), 20000))
Match == TMoments \/ TPolar \/ TBegin \/ TRun \/ THelp \/ TGrid
TInit == fs = <<>> /\ up = <<>> /\ wgt = <<>> /\ last = <<>> /\ l = 1
TNext == \/ Match
         \/ ~ENABLED Match /\ RejectLine /\ UNCHANGED vars
         \/ Done /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
