------------------------------- MODULE Plugins -------------------------------
(* Where plugins come from: the directories of the search path in order, an empty *)
(* entry standing for the installation directory; the first library that can be    *)
(* loaded and provides what is asked for wins.                                      *)
EXTENDS Args

VARIABLES path,   \* the value of ALTA_PLUGIN_PATH, "" also when it is not set
          fs,     \* directory -> (file name -> what it provides; {} for what is not a library)
          act
pvars == <<path, fs, act>>
SYS == "sys"      \* the installation directory

Dirs(p) == IF p = "" THEN <<SYS>> ELSE LET es == SplitAt(p, ":") IN [i \in DOMAIN es |-> IF es[i] = "" THEN SYS ELSE es[i]]
EndsInSo(n) == Len(n) >= 3 /\ SubSeq(n, Len(n) - 2, Len(n)) = ".so"
File(n) == IF EndsInSo(n) THEN n ELSE "lib" \o n \o ".so"
Symbol == [function |-> "FUNC", data |-> "DATA", load |-> "LOAD", fitter |-> "FIT"]

Has(f, d, n, s) == d \in DOMAIN f /\ n \in DOMAIN f[d] /\ s \in f[d][n]
RECURSIVE FirstDir(_, _, _, _, _)
FirstDir(f, ds, n, s, i) == IF i > Len(ds) THEN "" ELSE IF Has(f, ds[i], n, s) THEN ds[i] ELSE FirstDir(f, ds, n, s, i + 1)
None == "none"
\* what a query for a provider of a kind named n finds
Find(p, f, kind, n) ==
    IF kind = "function" /\ n = "rational_function" THEN "builtin"
    ELSE IF kind \in {"data", "load"} /\ n \in {"", "vertical_segment"} THEN "builtin"
    ELSE IF kind \in {"function", "fitter"} /\ n = "" THEN None
    ELSE LET d == FirstDir(f, Dirs(p), File(n), Symbol[kind], 1) IN IF d = "" THEN None ELSE d \o "/" \o File(n)

SetPath(p) == path' = p /\ act' = [a |-> "Path"] /\ UNCHANGED fs
Install(d, n, s) == /\ fs' = [x \in DOMAIN fs \cup {d} |->
                                 IF x = d THEN LET old == IF d \in DOMAIN fs THEN fs[d] ELSE [y \in {} |-> {}]
                                               IN [y \in DOMAIN old \cup {n} |-> IF y = n THEN s ELSE old[y]]
                                 ELSE fs[x]]
                    /\ act' = [a |-> "Install", d |-> d, n |-> n] /\ UNCHANGED path
Query(kind, n) == act' = [a |-> "Query", kind |-> kind, n |-> n, ret |-> Find(path, fs, kind, n)] /\ UNCHANGED <<path, fs>>

(* ---- what a user relies on ---- *)
\* an earlier directory that has a suitable plugin is never passed over, and what is found is suitable
EarliestWins == act.a = "Query" /\ act.ret \notin {"builtin", None} =>
    \E i \in DOMAIN Dirs(path) :
        /\ act.ret = Dirs(path)[i] \o "/" \o File(act.n)
        /\ Has(fs, Dirs(path)[i], File(act.n), Symbol[act.kind])
        /\ \A j \in 1..(i - 1) : ~Has(fs, Dirs(path)[j], File(act.n), Symbol[act.kind])
FoundIfThere == act.a = "Query" /\ act.ret = None => act.n = "" \/ \A i \in DOMAIN Dirs(path) : ~Has(fs, Dirs(path)[i], File(act.n), Symbol[act.kind])
\* the installation directory is searched exactly when the path is empty or has an empty entry
SystemOnlyIfAsked == act.a = "Query" /\ act.ret = SYS \o "/" \o File(act.n) =>
    path = "" \/ (\E i \in DOMAIN SplitAt(path, ":") : SplitAt(path, ":")[i] \in {"", SYS})
=============================================================================
