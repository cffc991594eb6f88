------------------------------ MODULE MCParams -------------------------------
EXTENDS Params, Json
CONSTANT MaxLen
VARIABLE hist
vars == <<pvars, hist>>
Q0 == [n \in ALL |-> 0]
Init == q = Q0 /\ known = ALL /\ cur = "CARTESIAN" /\ valid = TRUE /\ hist = <<>>
\* only a parametrization that drops the elevations can lead below the hemisphere
Next == \E p \in Names : \E above \in BOOLEAN :
          /\ (~above => ~({"vz", "lz"} \subseteq known \cap Keeps(p)))
          /\ Convert(p, above) /\ UNCHANGED hist
Spec == Init /\ [][Next]_vars
\* generation: every chain of MaxLen parametrizations
GNext == /\ Len(hist) < MaxLen
         /\ \E p \in Names : Convert(p, TRUE) /\ hist' = Append(hist, p)
Emit == Len(hist) = MaxLen => PrintT(<<"BEH", ToJson([h |-> hist])>>)
\* a chain through full parametrizations only leaves the whole configuration
RoundTrip == (\A k \in DOMAIN hist : hist[k] \in Full) => known = ALL \/ hist = <<>>
IsoTrip == (hist # <<>> /\ \A k \in DOMAIN hist : hist[k] \in Full \cup Isotropic) => INV \subseteq known
=============================================================================
