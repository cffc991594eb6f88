---------------------------- MODULE TraceStorage ----------------------------
(* Traces of the real vertical_segment, checked against Storage.  Values are   *)
(* logged in thousandths (all driver inputs are multiples of 1/8).             *)
EXTENDS Storage, TraceBase
tvars == <<svars, l>>

Dt == 100     \* 0.1: the documented default half width

TBegin == /\ IsEvent("Begin")
          /\ LET c == Ev.cfg IN
               /\ cfg' = c
               /\ rows' = [i \in 0..(c.n - 1) |-> Ev.content[i + 1]]
               /\ mem' = [a \in 0..(c.n * Stride(c) - 1) |-> Ev.content[(a \div Stride(c)) + 1][(a % Stride(c)) + 1]]
               /\ act' = [a |-> "Init", ret |-> <<>>]
TSet == IsEvent("Set") /\ Set(Ev.i, Ev.v)
TGet == IsEvent("Get") /\ Get(Ev.i) /\ Ev.ret = act'.ret
TInterval == IsEvent("Interval") /\ Interval(Ev.i, Dt)
             /\ Ev.ret = act'.ret
             /\ Ev.ret2 = <<act'.ret[2], act'.ret[3]>>      \* the two-result overload agrees
TView == IsEvent("View") /\ View /\ Ev.ret = act'.ret
\* saving the data set, or changing a copy that was handed out, changes nothing
TPure == IsEvent("Pure") /\ UNCHANGED svars
Match == TBegin \/ TSet \/ TGet \/ TInterval \/ TView \/ TPure

TInit == cfg = [n |-> 0] /\ mem = <<>> /\ rows = <<>> /\ act = [a |-> "None"] /\ l = 1
TNext == \/ Match
         \/ ~ENABLED Match /\ RejectLine /\ UNCHANGED svars
         \/ Done /\ UNCHANGED svars
TSpec == TInit /\ [][TNext]_tvars
TraceRefines == cfg.n > 0 => Refines
=============================================================================
