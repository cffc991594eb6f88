------------------------------ MODULE MCPlugins ------------------------------
EXTENDS Plugins, TLC, Json, FiniteSets
CONSTANTS MaxFiles, MaxLen, Gen
VARIABLE hist
vars == <<pvars, hist>>
Ds == {"d1", "d2", "sys"}
Names == {"p", "also"}
Paths == {"", "d1", "d2", "d1:d2", "d2:d1", ":", "d1:", ":d1", "d1::d2", "no:d2", "::"}
Kinds == {{"FUNC", "DATA", "LOAD", "FIT"}, {"FUNC"}, {"DATA", "LOAD"}, {}}
Rec(op) == hist' = IF Gen THEN Append(hist, op) ELSE hist
Init == path = "" /\ fs = [d \in Ds |-> [y \in {} |-> {}]] /\ act = [a |-> "Init"] /\ hist = <<>>
Count == IF Gen THEN Len(hist) ELSE 0
Next == \/ \E p \in Paths : SetPath(p) /\ Rec(<<"path", p>>)
        \/ \E d \in Ds, n \in Names, s \in Kinds : File(n) \notin DOMAIN fs[d] /\ Install(d, File(n), s) /\ Rec(<<"put", d, File(n), s>>)
        \/ \E k \in DOMAIN Symbol, n \in Names : Query(k, n) /\ Rec(<<"query", k, n>>)
Spec == Init /\ [][Next]_vars
\* number of files installed
Files == LET c(d) == Cardinality(DOMAIN fs[d]) IN c("d1") + c("d2") + c("sys")
Bound == Files <= MaxFiles
Emit == (Gen /\ Len(hist) = MaxLen) => PrintT(<<"BEH", ToJson([h |-> hist])>>)
GBound == Len(hist) <= MaxLen
View == IF Gen THEN vars ELSE <<path, fs, act>>
=============================================================================
