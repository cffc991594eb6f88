------------------------------- MODULE Tools -------------------------------
(* The command line tools as transitions of a store of files.                   *)
(* A file is absent, unreadable (junk), or holds                                *)
(*   data  : [k, par, bin, dy, rows], rows of [c |-> configuration, y |-> values] *)
(*   grid  : [k, dy, y], values at equally spaced nodes of the COS_TH domain    *)
(*   func  : [k, par, dy, f], values of the function at every configuration     *)
(*   report: [k, kind, ...], what an analysis tool wrote                        *)
(* Configurations 101 .. 113 are the nodes k/12 of the COS_TH domain, the       *)
(* others are pairs of directions (99: light along the normal, view at 60       *)
(* degrees); up tells which are in the upper hemisphere.                        *)
(* A command [t, ...] is run on the store: it succeeds and writes its output,   *)
(* or it is refused and changes no file but, if the output cannot be written    *)
(* in full, that output.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt

VARIABLES fs, up, wgt, last
vars == <<fs, up, wgt, last>>

None == [k |-> "none"]
Junk == [k |-> "junk"]
Full == {"CARTESIAN", "SPHERICAL_TL_PL_TV_PV", "RUSIN_TH_PH_TD_PD", "STEREOGRAPHIC"}
Known == Full \cup {"COS_TH", "ISOTROPIC_TV_TL_DPHI", "ISOTROPIC_TV_PROJ_DPHI", "RUSIN_TH_TD_PD", "RUSIN_TH_TD", "COS_TH_TD"}

\* nodes of a grid of n nodes
Node(n, j) == 100 + 1 + (12 * (j - 1)) \div (n - 1)
GridRows(g) == [j \in 1..Len(g.y) |-> [c |-> Node(Len(g.y), j), y |-> g.y[j]]]
\* value of grid g at position a/b of its domain, times b (Len(g.y) - 1 divides 12)
At(g, a, b) == LET n == Len(g.y) - 1
                   p == a * n
                   i == IF p \div b >= n THEN n - 1 ELSE p \div b
                   w == p - i * b
               IN [d \in 1..g.dy |-> (b - w) * g.y[i + 1][d] + w * g.y[i + 2][d]]

\* what a loader makes of a file
AsData(f) == IF f.k = "grid" THEN [k |-> "data", par |-> "COS_TH", bin |-> FALSE, dy |-> f.dy, rows |-> GridRows(f)] ELSE f
Loads(f, as) == IF as = "data_grid" THEN f.k = "grid" ELSE f.k \in {"data", "grid"}

NoY == 0 - 9999
Keep(c, y) == c.ymin = NoY \/ \A d \in DOMAIN y : y[d] >= c.ymin
Filter(c, d) == IF d.bin THEN d.rows ELSE SelectSeq(d.rows, LAMBDA r : Keep(c, r.y))
Sub(y, z) == [d \in DOMAIN y |-> y[d] - z[d]]

Par(c) == IF c.par = "UNKNOWN_INPUT" THEN "" ELSE c.par
\* a function can be evaluated at the configurations of data
Fit1(f, d) == (f.par = "UNKNOWN_INPUT") = (d.par = "UNKNOWN_INPUT") /\ f.dy = d.dy
Dom(f) == {c \in DOMAIN f.f : f.f[c] # <<>>}

\* a constant is fitted to values known within a tenth
Fits(c, d) == c.n = 1 /\ \A j \in DOMAIN d.rows : d.rows[j].y = d.rows[1].y

\* whether and what a command writes
Ok(c) ==
    LET i == fs[c.in] IN
    /\ c.fault = ""
    /\ CASE c.t = "data2data" ->
              /\ Loads(i, c.infmt)
              /\ Par(c) # "" => Par(c) \in Known
              /\ AsData(i).par # "UNKNOWN_INPUT" \/ Par(c) # ""
              /\ Par(c) # "" => (AsData(i).par # "UNKNOWN_INPUT" \/ Filter(c, AsData(i)) = <<>>)
              /\ c.outfmt = "data_grid" => (i.k = "grid" /\ c.infmt = "data_grid")
         [] c.t = "brdf2data" ->
              /\ i.k = "func" /\ Loads(fs[c.data], c.infmt)
              /\ Fit1(i, AsData(fs[c.data]))
         [] c.t = "brdf2brdf" -> i.k = "func"
         [] c.t = "data2brdf" ->
              /\ Loads(i, c.infmt) /\ c.infmt # "data_grid"
              /\ Len(AsData(i).rows) > 0
              /\ IF c.start = "" THEN Fits(c, AsData(i)) ELSE c.start = "yes" /\ AsData(i).par # "UNKNOWN_INPUT"
         [] c.t = "brdf2gnuplot" ->
              /\ i.k = "func" /\ Loads(fs[c.data], c.infmt) /\ Fit1(i, AsData(fs[c.data]))
         [] c.t = "polar" -> i.k = "func" /\ i.par # "UNKNOWN_INPUT"
         [] c.t = "data2stats" ->
              /\ Loads(i, c.infmt) /\ c.infmt = "data_grid" /\ Loads(fs[c.data], "")
              /\ fs[c.data].dy = i.dy /\ Len(AsData(fs[c.data]).rows) > 0
         [] c.t = "brdf2stats" ->
              /\ i.k = "func" /\ Loads(fs[c.data], "") /\ Fit1(i, AsData(fs[c.data]))
              /\ Len(AsData(fs[c.data]).rows) > 0
         [] c.t = "data2moments" -> Loads(i, c.infmt) /\ c.infmt = "data_grid"

Out(c) ==
    LET i == fs[c.in] IN
    CASE c.t = "data2data" ->
           LET d == AsData(i) IN
           IF c.outfmt = "data_grid" THEN
               [k |-> "grid", dy |-> i.dy, y |-> [j \in 1..c.n |-> LET v == At(i, j - 1, c.n - 1) IN [e \in 1..i.dy |-> v[e] \div (c.n - 1)]]]
           ELSE [k |-> "data", par |-> IF Par(c) = "" THEN d.par ELSE c.par, bin |-> c.outfmt = "alta-binary", dy |-> d.dy,
                 rows |-> SelectSeq(IF c.infmt = "data_grid" THEN d.rows ELSE Filter(c, d), LAMBDA r : c.all \/ up[r.c])]
      [] c.t = "brdf2data" ->
           IF c.infmt = "data_grid" THEN
               LET r == GridRows(fs[c.data]) IN
               [k |-> "grid", dy |-> i.dy, y |-> [j \in DOMAIN r |-> IF c.diff THEN Sub(r[j].y, i.f[r[j].c]) ELSE i.f[r[j].c]]]
           ELSE LET d == AsData(fs[c.data]) IN
               [k |-> "data", par |-> d.par, bin |-> FALSE, dy |-> d.dy,
                rows |-> [j \in DOMAIN d.rows |-> [c |-> d.rows[j].c, y |-> IF c.diff THEN Sub(d.rows[j].y, i.f[d.rows[j].c]) ELSE i.f[d.rows[j].c]]]]
      [] c.t = "brdf2brdf" -> i
      [] c.t = "data2brdf" ->
           IF c.start = "" THEN [k |-> "fit", of |-> AsData(i)]
           \* the function a nonlinear fit starts from: the least value of each output, everywhere
           ELSE LET d == AsData(i)  low == [e \in 1..d.dy |-> Min({d.rows[j].y[e] : j \in DOMAIN d.rows})]
                IN [k |-> "func", par |-> "CARTESIAN", dy |-> d.dy, f |-> [x \in {y \in DOMAIN up : wgt[y] # 0 \/ y > 100} |-> low]]
      [] c.t = "brdf2gnuplot" ->
           LET d == AsData(fs[c.data]) IN
           IF c.lin THEN
           [k |-> "report", kind |-> "linear",     \* relative errors
            rows |-> [j \in DOMAIN d.rows |-> [y |-> d.rows[j].y, f |-> i.f[d.rows[j].c]]]] ELSE
           [k |-> "report", kind |-> "plot",
            rows |-> [j \in DOMAIN d.rows |-> [c |-> d.rows[j].c, y |->
                LET r == d.rows[j]
                    v == [e \in 1..d.dy |-> IF c.cos THEN wgt[r.c] * i.f[r.c][e] ELSE 100 * i.f[r.c][e]]
                IN IF c.err THEN [e \in 1..d.dy |-> 100 * r.y[e] - v[e]] ELSE v]]]
      [] c.t = "polar" -> \* light along the normal; elevations 90 j / h degrees, on either side
           LET h == c.n \div 2 IN
           [k |-> "report", kind |-> "polar", n |-> 2 * h, dy |-> i.dy,
            at |-> [j \in 0..(2 * h - 1) |-> IF j < h THEN 0 - j ELSE j - h],
            y |-> [j \in 0..(2 * h - 1) |-> LET p == j % h IN IF p = 0 THEN i.f[113] ELSE IF 3 * p = 2 * h THEN i.f[99] ELSE <<>>]]
      [] c.t = "data2stats" ->
           LET d == AsData(fs[c.data]) IN
           [k |-> "report", kind |-> "stats", n |-> Len(d.rows),
            l1 |-> [e \in 1..d.dy |-> MapThenSumSet(LAMBDA j : LET v == At(i, d.rows[j].c - 101, 12)[e] - 12 * d.rows[j].y[e] IN IF v < 0 THEN 0 - v ELSE v, DOMAIN d.rows)]]
      [] c.t = "brdf2stats" ->
           LET d == AsData(fs[c.data]) IN
           [k |-> "report", kind |-> "stats", n |-> Len(d.rows),
            l1 |-> [e \in 1..d.dy |-> MapThenSumSet(LAMBDA j : LET v == 12 * (i.f[d.rows[j].c][e] - d.rows[j].y[e]) IN IF v < 0 THEN 0 - v ELSE v, DOMAIN d.rows)]]
      [] c.t = "data2moments" ->
           \* c.n samples at k/c.n, k < c.n; values above the least one; times c.n
           [k |-> "report", kind |-> "moments",
            m |-> [e \in 1..i.dy |->
                LET low == Min({i.y[j][e] : j \in DOMAIN i.y})
                    v(k) == At(i, k, c.n)[e] - c.n * low
                    S(g(_)) == MapThenSumSet(LAMBDA k : v(k) * g(k), 0..(c.n - 1))
                    one(k) == 1  id(k) == k  sq(k) == k * k
                IN [m0 |-> S(one), mx |-> S(id), mxx |-> S(sq)]]]

Run(c) == /\ last' = [cmd |-> c, ok |-> Ok(c)]
          /\ fs' = IF Ok(c) THEN [fs EXCEPT ![c.out] = Out(c)] ELSE fs
          /\ UNCHANGED <<up, wgt>>

\* what is relied on
RefusedChangesNothing == [][~ last'.ok => fs' = fs]_vars
InputsKept == [][\A n \in DOMAIN fs : n # last'.cmd.out => fs'[n] = fs[n]]_vars
=============================================================================
