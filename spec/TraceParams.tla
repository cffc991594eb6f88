----------------------------- MODULE TraceParams -----------------------------
EXTENDS Params, TraceBase
VARIABLES seen    \* registry: names seen so far
tvars == <<pvars, seen, l>>
Tol == 40            \* millionths
UNDEF == 2147483646  \* not defined for this configuration (degenerate)
NAN == 2147483647
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b) == a = UNDEF \/ b = UNDEF \/ (a # NAN /\ b # NAN /\ Abs(a - b) <= Tol)
Agree(a, b, K) == TRUE = \A k \in K \cap DOMAIN a \cap DOMAIN b : Near(a[k], b[k])
TBegin == IsEvent("Begin") /\ q' = <<>> /\ known' = {} /\ cur' = "" /\ valid' = FALSE /\ seen' = {}
TConfig == IsEvent("Config") /\ SetConfig(Ev.q) /\ UNCHANGED seen
TConv == /\ IsEvent("Conv")
         /\ Ev.p \in Names
         /\ Convert(Ev.p, Ev.q.vz >= -3 /\ Ev.q.lz >= -3)
         /\ Ev.n = Dim(Ev.p)                                         \* as many values as declared
         /\ Agree(q, Ev.q, known')                                   \* the configuration, as far as carried
         /\ Agree(q, Ev.r, known')                                   \* the values mean what the parametrization names
         /\ TRUE = (valid => \A k \in DOMAIN Ev.q : Ev.q[k] # NAN)
         /\ TRUE = (valid' => Agree(Ev.r, Ev.r2, DOMAIN Ev.r))               \* and are their own image
         /\ UNCHANGED seen
TAbove == /\ IsEvent("Above")
          /\ Ev.below = ~Ev.above
          /\ {"vz", "lz"} \subseteq known /\ Abs(q["vz"]) > 3 /\ Abs(q["lz"]) > 3 =>
               Ev.above = (q["vz"] > 0 /\ q["lz"] > 0)
          /\ UNCHANGED <<pvars, seen>>
\* registry
TInput == /\ IsEvent("Input")
          /\ IF Ev.name = "UNKNOWN_INPUT" THEN Ev.dim = -1 /\ UNCHANGED seen
             ELSE /\ Ev.name \in Names /\ Ev.name \notin seen
                  /\ Ev.parsed = Ev.i /\ Ev.dim = Dim(Ev.name)
                  /\ seen' = seen \cup {Ev.name}
          /\ Ev.last => seen' = Names                                 \* every parametrization is registered
          /\ UNCHANGED pvars
OutDim == [INV_STERADIAN |-> 1, INV_STERADIAN_COSINE_FACTOR |-> 1, ENERGY |-> 1, RGB_COLOR |-> 3, XYZ_COLOR |-> 3]
TOutput == /\ IsEvent("Output")
           /\ Ev.name \in DOMAIN OutDim /\ Ev.dim = OutDim[Ev.name] /\ Ev.parsed = Ev.i
           /\ Ev.name \notin seen /\ seen' = seen \cup {Ev.name}
           /\ UNCHANGED pvars
TParse == /\ IsEvent("Parse")
          /\ Ev.known = (Ev.txt \in Names)
          /\ Ev.back = IF Ev.known THEN Ev.txt ELSE "UNKNOWN_INPUT"
          /\ UNCHANGED <<pvars, seen>>
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
TOutConv == /\ IsEvent("OutConv")
            /\ Ev.clean
            /\ LET n == Len(Ev.in) m == Len(Ev.out)
               IN  CASE n = m -> Ev.out = Ev.in
                     [] n # m /\ n = 1 -> Ev.out = [k \in 1..m |-> Ev.in[1]]
                     [] n # m /\ n # 1 /\ m = 1 -> Ev.out[1] * n = Sum(Ev.in)
            /\ UNCHANGED <<pvars, seen>>
Match == TBegin \/ TConfig \/ TConv \/ TAbove \/ TInput \/ TOutput \/ TParse \/ TOutConv
TInit == q = <<>> /\ known = {} /\ cur = "" /\ valid = FALSE /\ seen = {} /\ l = 1
TNext == \/ Match
         \/ ~ENABLED Match /\ RejectLine /\ UNCHANGED <<pvars, seen>>
         \/ Done /\ UNCHANGED <<pvars, seen>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
