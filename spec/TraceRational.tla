---------------------------- MODULE TraceRational ----------------------------
EXTENDS Rational, TraceBase
tvars == <<rvars, l>>
TBegin == IsEvent("Begin") /\ objs' = <<>> /\ tab' = [d |-> 1, i |-> 0, v |-> <<0>>] /\ act' = [a |-> "Begin"]
TCreate == IsEvent("Create") /\ Create([basis |-> Ev.basis, dx |-> Ev.dx, dy |-> Ev.dy, lo |-> Ev.lo, hi |-> Ev.hi, par |-> Ev.par,
                                        np |-> Ev.np, nq |-> Ev.nq, rs |-> <<>>])
\* every event shows the coefficients of all functions afterwards
Same(r, e) == IF r = <<>> THEN e.some = FALSE ELSE e.some = TRUE /\ e.p = r[1].p /\ e.q = r[1].q /\ e.each = TRUE
State == TRUE = \A i \in DOMAIN objs' : \A k \in DOMAIN objs'[i].rs : Same(objs'[i].rs[k], Ev.st[i][k])
TGet == IsEvent("Get") /\ Get(Ev.i, Ev.k) /\ State
TSize == IsEvent("Size") /\ SetSize(Ev.i, Ev.np, Ev.nq) /\ State
TDomain == IsEvent("Domain") /\ SetDomain(Ev.i, Ev.lo, Ev.hi) /\ State
TResize == IsEvent("Resize") /\ Resize(Ev.i, Ev.k, Ev.np, Ev.nq) /\ State
TUpdate == IsEvent("Update") /\ Update(Ev.i, Ev.k, Ev.a, Ev.b) /\ State
TCopy == IsEvent("Copy") /\ Copy(Ev.i, Ev.k, Ev.j, Ev.m) /\ State
TCopyAll == IsEvent("CopyAll") /\ CopyAll(Ev.i, Ev.j) /\ State
TLoad == IsEvent("Load") /\ TRUE = Ev.ok /\ Load(Ev.i, Ev.lo, Ev.hi, Ev.ps, Ev.qs) /\ State
\* not decided where the denominator vanishes, which round-off may miss
Blur(o, k) == QAt(o, k, Ev.x)[1] = 0
TValue == /\ IsEvent("Value")
          /\ TRUE = (Len(Ev.v) = objs[Ev.i].dy /\ \A k \in DOMAIN Ev.v : Blur(objs[Ev.i], k) \/ Ev.v[k] = At(objs[Ev.i], k, Ev.x))
          /\ Read
TPQ == /\ IsEvent("PQ")
       /\ TRUE = (/\ Ev.p = PAt(objs[Ev.i], Ev.k, Ev.x) /\ Ev.q = QAt(objs[Ev.i], Ev.k, Ev.x)
                  /\ Blur(objs[Ev.i], Ev.k) \/ Ev.v = At(objs[Ev.i], Ev.k, Ev.x))
       /\ Read
TStart == IsEvent("TableStart") /\ StartTable(Ev.d)
TMore == IsEvent("Table") /\ Len(Ev.degs) = Ev.n /\ MoreTable(Ev.degs)
Match == TBegin \/ TCreate \/ TGet \/ TSize \/ TDomain \/ TResize \/ TUpdate \/ TCopy \/ TCopyAll \/ TLoad \/ TValue \/ TPQ \/ TStart \/ TMore
TInit == objs = <<>> /\ tab = 0 /\ act = 0 /\ l = 1
TNext == \/ Match
         \/ ~ENABLED Match /\ RejectLine /\ UNCHANGED rvars
         \/ Done /\ UNCHANGED rvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
