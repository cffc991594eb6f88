------------------------------- MODULE MCArgs -------------------------------
(* All command lines over a small alphabet, read step by step.                 *)
EXTENDS Args, TLC, FiniteSets
CONSTANT MaxWords
VARIABLES ws, p
Alphabet == {"--a", "--b", "-x", "v", "[p", "--q]", "r]", "[s]"}
Init == /\ ws \in UNION {[1..n -> Alphabet] : n \in 0..MaxWords}
        /\ p = [i |-> 1, m |-> Empty]
Next == p.i <= Len(ws) /\ p' = ReadOption(ws, p) /\ ws' = ws
vars == <<ws, p>>
Spec == Init /\ [][Next]_vars
Done == p.i > Len(ws)
\* declarative: the words inside an open bracket that is an option's value
RECURSIVE Starts(_)
Starts(k) == /\ IsOption(ws[k])
             /\ ~\E o \in 1..(k - 2) : /\ Opens(ws[o + 1]) /\ \A x \in (o + 1)..(k - 1) : ~Closes(ws[x])
                                      /\ Starts(o)
OptionsAt == {k \in 1..Len(ws) : Starts(k)}
Keys == {Key(ws[k]) : k \in OptionsAt}
FirstOf(x) == CHOOSE k \in OptionsAt : Key(ws[k]) = x /\ \A j \in OptionsAt : Key(ws[j]) = x => k <= j
ValueAt(k) == IF k = Len(ws) \/ (k < Len(ws) /\ IsDashed(ws[k + 1])) THEN ""
              ELSE IF Opens(ws[k + 1]) /\ \E j \in (k + 1)..Len(ws) : Closes(ws[j])
              THEN Join(SubSeq(ws, k + 1, CHOOSE j \in (k + 1)..Len(ws) : Closes(ws[j]) /\ \A x \in (k + 1)..(j - 1) : ~Closes(ws[x])))
              ELSE IF Opens(ws[k + 1]) THEN Join(SubSeq(ws, k + 1, Len(ws)))
              ELSE ws[k + 1]
Grammar == Done => p.m = [x \in Keys |-> ValueAt(FirstOf(x))]
\* the first occurrence wins: an option once read never changes
Stable == [][\A x \in DOMAIN p.m : x \in DOMAIN p'.m /\ p'.m[x] = p.m[x]]_vars
RoundTrip == Done /\ WellFormed(p.m) => Parse(Words(Recorded(p.m))) = Named(p.m)
ASSUME Header(<<"#ALTA FUNC HEADER", "#DIM 1 2", "# c", "#", "#CMD  --a [x, y]", "#ALTA HEADER END", "#Z 1", "0">>)
       = [i |-> 7, done |-> TRUE, m |-> [x \in {"TYPE", "DIM", "CMD"} |->
             CASE x = "TYPE" -> "FUNC" [] x = "DIM" -> "1 2" [] OTHER -> "--a [x, y]"]]
ASSUME <<Thousandths(" -1.25"), Thousandths("2"), Thousandths("x"), Thousandths("+.5,"), IntOf("-3.9")>> = <<-1250, 2000, 0, 500, -3>>
=============================================================================
