----------------------------- MODULE TraceBase -----------------------------
(* Reading a recorded trace (ndjson, one event per line, several scenarios in  *)
(* one file; each scenario starts with a "Begin" event).  A trace module       *)
(* defines Match (the disjunction of its event actions) and uses SkipTo/Done.  *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l      \* position in Trace

IsEvent(name) == /\ l <= Len(Trace)
                 /\ Trace[l].ev = name
                 /\ l' = l + 1
Ev == Trace[l]

RECURSIVE NextBegin(_)
NextBegin(k) == IF k > Len(Trace) THEN k
                ELSE IF Trace[k].ev = "Begin" THEN k ELSE NextBegin(k + 1)

(* A line that no action explains: report it and go on with the next scenario. *)
RejectLine == /\ l <= Len(Trace)
              /\ PrintT(<<"REJECT", l>>)
              /\ l' = NextBegin(l + 1)
Done == /\ l = Len(Trace) + 1
        /\ PrintT(<<"TRACE-END", Len(Trace)>>)
        /\ l' = l + 1
=============================================================================
