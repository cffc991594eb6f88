------------------------------ MODULE TraceFit -------------------------------
EXTENDS FitSearch, Feasible, TraceBase
VARIABLES dat,   \* [dx, dy, D]
          seen   \* key -> <<size, values>>: fits that have to give the same function
tvars == <<svars, dat, seen, l>>
Scale == 10000
Zone(m) == (1..m) \X (1..m)
F(m) == [s \in Zone(m) |-> s \in dat.ok]
T(m) == [s \in Zone(m) |-> <<s[1] - s[2], s[2]>> \in dat.ok]
\* over the domain of the data, inside every interval, with a denominator of one sign
Inside == Ev.dom /\ \A k \in 1..dat.dy :
    /\ \A i \in DOMAIN dat.D : Ev.v[k][i] >= dat.D[i].lo[k] * Scale - 1 /\ Ev.v[k][i] <= dat.D[i].hi[k] * Scale + 1
    /\ Ev.q[k][1] # 0 /\ \A i \in DOMAIN dat.D : Ev.q[k][i] = Ev.q[k][1]
Agrees == Ev.key \in DOMAIN seen =>
    LET o == seen[Ev.key] IN o[1] = Ev.size /\ \A k \in DOMAIN o[2] : \A i \in DOMAIN o[2][k] : Abs(o[2][k][i] - Ev.v[k][i]) <= 2
Record == seen' = IF Ev.key \in DOMAIN seen THEN seen ELSE (Ev.key :> <<Ev.size, Ev.v>>) @@ seen
Sizes(np, nq) == Len(Ev.size) = dat.dy /\ \A k \in DOMAIN Ev.size : Ev.size[k] = <<np, nq>>

FBegin == /\ IsEvent("Begin") /\ dat' = [dx |-> Ev.dx, dy |-> Ev.dy, D |-> Ev.D, ok |-> IF Ev.D = <<>> THEN {} ELSE LET E == Tight(Ev.D, Ev.dy) IN
                              {Ev.sizes[i] : i \in {i \in DOMAIN Ev.sizes : Feasible(E, Ev.dy, Ev.sizes[i][1], Ev.sizes[i][2])}}]
          /\ seen' = <<>>
          /\ seq' = 0 /\ par' = 0
\* options left out follow the others
Or(a, b) == IF a = 0 THEN b ELSE a
SeqE == /\ IsEvent("Seq")
        /\ LET o == Ev.opt  mp == Or(o["np"], 10)  mq == Or(o["nq"], 10)
               s == Start(Or(o["min-np"], mp), Or(o["min-nq"], mq), mp, mq)
           IN  seq' = IF dat.D = <<>> THEN [s EXCEPT !.verdict = "failed"] ELSE Walk(s, F(MaxOf(s.maxp, s.maxq)))
        /\ TRUE = (/\ Ev.ok = (seq'.verdict = "found")
                   /\ Ev.ok => Sizes(seq'.np, seq'.nq) /\ Inside /\ Agrees)
        /\ Record /\ UNCHANGED <<par, dat>>
\* A sample left out of the program need not be kept with a margin: then sizes that are feasible without one may be taken too.
ParE == /\ IsEvent("Par")
        /\ LET o == Ev.opt  mn == Or(o["min-np"], 10)  mx == Or(o["np"], mn)  step == Or(o["np-step"], 1)
               N == IF dat.D = <<>> THEN 0 ELSE FirstTotal(mn, mx, step, T(mx))
               all == Or(o["nb-starting-points"], 100) >= Len(dat.D)
               js == {Ev.tried[i][2] : i \in DOMAIN Ev.tried}
               C(a, j) == LET i == CHOOSE i \in DOMAIN Ev.tried : Ev.tried[i][2] = j IN Ev.tried[i][3]
               G == IF Ev.ok THEN Ev.size[1][1] + Ev.size[1][2] ELSE N
               TN(a, j) == T(mx)[<<a, j>>]
               strict == {j \in 1..(G - 1) : TN(G, j)}
           IN  /\ par' = N
               /\ TRUE = (/\ N # 0 => Ev.ok
                          /\ Ev.ok => /\ G >= mn /\ G <= (IF N = 0 THEN mx ELSE N) /\ (G - mn) % step = 0
                                      /\ all => G = N
                          \* every feasible candidate is compared, once, and no other
                          /\ Ev.traced => /\ \A i \in DOMAIN Ev.tried : Ev.tried[i][1] + Ev.tried[i][2] = G
                                          /\ Cardinality(js) = Len(Ev.tried)
                                          /\ strict \subseteq js /\ (all => js = strict)
                          /\ Ev.ok => /\ \E j \in 1..(G - 1) : (all => j \in strict) /\ Sizes(G - j, j)
                                      /\ Ev.traced /\ ~Ev.delta => IF Ev.exact THEN LET j == Winner(G, TN, C) IN Sizes(G - j, j)
                                                                ELSE \E j \in js : Sizes(G - j, j) /\ \A i \in js : C(G, j) <= C(G, i)
                                      /\ Inside /\ Agrees)
        /\ Record /\ UNCHANGED <<seq, dat>>
Match == FBegin \/ SeqE \/ ParE
TInit == seq = 0 /\ par = 0 /\ dat = 0 /\ seen = <<>> /\ l = 1
TNext == \/ Match
         \/ ~ENABLED Match /\ RejectLine /\ UNCHANGED <<svars, dat, seen>>
         \/ Done /\ UNCHANGED <<svars, dat, seen>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
