--------------------------- MODULE TraceTextLoad ---------------------------
EXTENDS TextLoad, TraceBase
CONSTANT Aspect        \* "rows" (C02) or "ci" (C03)
tvars == <<tlvars, l>>
TBegin == IsEvent("Begin") /\ o' = Ev.o /\ file' = Ev.file /\ st' = Reader0
Flat(s) == s.x \o s.y
TLoad ==
    /\ IsEvent("TextLoad")
    /\ LET r == ReadAll(o, Reader0, file) IN
        /\ st' = r
        /\ Ev.ok = ~r.failed
        /\ Ev.ok =>
            /\ Ev.dx = o.dx /\ Ev.dy = o.dy /\ Ev.n = Len(r.rows)
            /\ Aspect = "rows" =>
                /\ Ev.rows = [i \in 1..Len(r.rows) |-> Flat(r.rows[i])]
                /\ Len(r.rows) > 0 => /\ Ev.min = [j \in 1..o.dx |-> HullMin(r.rows, j)]
                                      /\ Ev.max = [j \in 1..o.dx |-> HullMax(r.rows, j)]
            /\ Aspect = "ci" =>
                /\ Ev.ci = [i \in 1..Len(r.rows) |-> <<r.rows[i].lo, r.rows[i].up>>]
                /\ o.pos => Ev.rows = [i \in 1..Len(r.rows) |-> Flat(r.rows[i])]
    /\ UNCHANGED <<o, file>>
Match == TBegin \/ TLoad
TInit == o = [dx |-> 0] /\ file = <<>> /\ st = Reader0 /\ l = 1
TNext == \/ Match
         \/ ~ENABLED Match /\ RejectLine /\ UNCHANGED tlvars
         \/ Done /\ UNCHANGED tlvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
