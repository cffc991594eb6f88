------------------------------ MODULE TraceArgs ------------------------------
EXTENDS Args, TraceBase
VARIABLE m          \* the options
tvars == <<m, l>>
ToMap(ps) == [k \in {ps[i][1] : i \in 1..Len(ps)} |-> ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = k][2]]
\* a bracketed value has its closing bracket
Closed(o, k) == IsVec(o, k) => Closes(o[k])
TBegin  == IsEvent("Begin") /\ m' = Empty
TParse  == IsEvent("Parse") /\ m' = Parse(Ev.ws) /\ ToMap(Ev.map) = m'
TUpdate == IsEvent("Update") /\ m' = Update(m, Ev.k, Ev.v) /\ ToMap(Ev.map) = m'
TGet ==
    /\ IsEvent("Get") /\ UNCHANGED m
    /\ Ev.ret = CASE Ev.r = "has"   -> (Ev.k \in DOMAIN m)
                  [] Ev.r = "isvec" -> IsVec(m, Ev.k)
                  [] Ev.r = "op"    -> GetString(m, Ev.k, "")
                  [] Ev.r = "str"   -> GetString(m, Ev.k, Ev.d)
                  [] Ev.r = "int"   -> GetInt(m, Ev.k, Ev.d)
                  [] Ev.r \in {"float", "double"} -> GetReal(m, Ev.k, Ev.d)
                  [] Ev.r = "vec"   -> IF Closed(m, Ev.k) THEN GetVec(m, Ev.k, Ev.n, Ev.d) ELSE Ev.ret
                  [] Ev.r = "reals" -> GetReals(m, Ev.k)
                  [] Ev.r = "list"  -> IF Closed(m, Ev.k) THEN List(m, Ev.k) ELSE Ev.ret
                  [] Ev.r = "pair"  -> IF PairText(m, Ev.k) THEN GetPair(m, Ev.k) ELSE Ev.ret
                  [] OTHER -> 0
\* the options are what they were
TSame == IsEvent("Map") /\ ToMap(Ev.map) = m /\ UNCHANGED m
\* the recorded command means the same options, to the grammar and to the library
TRecord == /\ IsEvent("Record") /\ UNCHANGED m
           /\ WellFormed(m) => Parse(Words(Ev.cmd)) = Named(m) /\ ToMap(Ev.again) = Named(m)
           /\ LET p == Parse(Words(Ev.cmd)) IN
                (\A k \in DOMAIN p : Closed(p, k)) => ToMap(Ev.again) = p
THeader == /\ IsEvent("Header")
           /\ LET h == Header(Ev.ls) IN
                /\ m' = h.m /\ ToMap(Ev.map) = h.m
                /\ Ev.rest = SubSeq(Ev.ls, h.i, Len(Ev.ls))
Match == TBegin \/ TParse \/ TUpdate \/ TGet \/ TSame \/ TRecord \/ THeader
TInit == m = Empty /\ l = 1
TNext == \/ Match
         \/ ~ENABLED Match /\ RejectLine /\ UNCHANGED m
         \/ Done /\ UNCHANGED m
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
