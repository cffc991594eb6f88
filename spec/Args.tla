-------------------------------- MODULE Args --------------------------------
(* ALTA options: the command-line grammar, the typed readers, recorded command *)
(* strings and file headers, at the level of characters.                       *)
EXTENDS Integers, Sequences

Ch(s, i) == SubSeq(s, i, i)
From(s, i) == SubSeq(s, i, Len(s))
First(s) == Ch(s, 1)
Last(s) == Ch(s, Len(s))
Blank == {" ", "\t"}

(* ---- tokens and numbers ---- *)
RECURSIVE SkipBlank(_)
SkipBlank(s) == IF Len(s) > 0 /\ First(s) \in Blank THEN SkipBlank(From(s, 2)) ELSE s
RECURSIVE TokLen(_, _)
TokLen(s, k) == IF k < Len(s) /\ Ch(s, k + 1) \notin Blank THEN TokLen(s, k + 1) ELSE k
RECURSIVE Words(_)        \* split at blanks
Words(s) == LET t == SkipBlank(s)
                n == TokLen(t, 0)
            IN  IF t = "" THEN <<>> ELSE <<SubSeq(t, 1, n)>> \o Words(From(t, n + 1))
RECURSIVE Join(_)
Join(ws) == IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o " " \o Join(Tail(ws))
RECURSIVE CutAt(_, _, _)
CutAt(s, c, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE CutAt(s, c, i + 1)
RECURSIVE SplitAt(_, _)   \* split at a separator character
SplitAt(s, c) == LET k == CutAt(s, c, 1) IN
                 IF k = 0 THEN <<s>> ELSE <<SubSeq(s, 1, k - 1)>> \o SplitAt(From(s, k + 1), c)

Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(c) == \E d \in 1..10 : Digits[d] = c
DigitOf(c) == (CHOOSE d \in 1..10 : Digits[d] = c) - 1
RECURSIVE IntPart(_, _)
IntPart(s, acc) == IF Len(s) > 0 /\ IsDigit(First(s)) THEN IntPart(From(s, 2), 10 * acc + DigitOf(First(s))) ELSE <<acc, s>>
RECURSIVE FracPart(_, _, _)
FracPart(s, w, acc) == IF Len(s) > 0 /\ IsDigit(First(s)) THEN FracPart(From(s, 2), w \div 10, acc + w * DigitOf(First(s))) ELSE acc
\* the number a text starts with, in thousandths (0 if it starts with none)
Thousandths(s0) ==
    LET s == SkipBlank(s0)
        neg == Len(s) > 0 /\ First(s) = "-"
        b == IF Len(s) > 0 /\ First(s) \in {"-", "+"} THEN From(s, 2) ELSE s
        ip == IntPart(b, 0)
        fr == IF Len(ip[2]) > 0 /\ First(ip[2]) = "." THEN FracPart(From(ip[2], 2), 100, 0) ELSE 0
        v == 1000 * ip[1] + fr
    IN  IF neg THEN -v ELSE v
IntOf(s0) == LET v == Thousandths(s0) IN IF v < 0 THEN -((-v) \div 1000) ELSE v \div 1000

(* ---- the command line ---- *)
IsOption(w)  == Len(w) >= 2 /\ First(w) = "-" /\ Ch(w, 2) = "-"
IsDashed(w)  == Len(w) >= 1 /\ First(w) = "-"
Opens(w)     == Len(w) >= 1 /\ First(w) = "["
Closes(w)    == Len(w) >= 1 /\ Last(w) = "]"
Key(w)       == From(w, 3)

Put(m, k, v) == IF k \in DOMAIN m THEN m ELSE [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Update(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Empty == [x \in {} |-> ""]

RECURSIVE CloseAt(_, _)   \* where the bracketed value that is open at word j ends
CloseAt(ws, j) == IF j >= Len(ws) THEN Len(ws) ELSE IF Closes(ws[j]) THEN j ELSE CloseAt(ws, j + 1)

(* one step of the reader: p = [i, m], the position and the options so far *)
ReadOption(ws, p) ==
    LET w == ws[p.i] n == p.i + 1 IN
    IF ~IsOption(w) THEN [p EXCEPT !.i = n]
    ELSE IF n > Len(ws) \/ (n <= Len(ws) /\ IsDashed(ws[n])) THEN [i |-> n, m |-> Put(p.m, Key(w), "")]
    ELSE IF Opens(ws[n]) /\ ~Closes(ws[n])
    THEN LET j == CloseAt(ws, n) IN [i |-> j + 1, m |-> Put(p.m, Key(w), Join(SubSeq(ws, n, j)))]
    ELSE [i |-> n + 1, m |-> Put(p.m, Key(w), ws[n])]
RECURSIVE ReadOptions(_, _)
ReadOptions(ws, p) == IF p.i > Len(ws) THEN p.m ELSE ReadOptions(ws, ReadOption(ws, p))
Parse(ws) == ReadOptions(ws, [i |-> 1, m |-> Empty])

(* ---- typed readers ---- *)
GetString(m, k, d) == IF k \in DOMAIN m THEN m[k] ELSE d
GetInt(m, k, d)    == IF k \in DOMAIN m THEN IntOf(m[k]) ELSE d
GetReal(m, k, d)   == IF k \in DOMAIN m THEN Thousandths(m[k]) ELSE d
IsVec(m, k)        == k \in DOMAIN m /\ Opens(m[k])
\* components of "[a, b, c]"
List(m, k) == IF IsVec(m, k) THEN SplitAt(SubSeq(m[k], 2, Len(m[k]) - 1), ",") ELSE <<>>
GetVec(m, k, n, d) ==
    [j \in 1..n |-> IF k \notin DOMAIN m THEN d
                    ELSE IF ~IsVec(m, k) THEN Thousandths(m[k])
                    ELSE IF j <= Len(List(m, k)) THEN Thousandths(List(m, k)[j]) ELSE d]
GetReals(m, k) == IF IsVec(m, k) /\ Closes(m[k]) THEN [j \in 1..Len(List(m, k)) |-> Thousandths(List(m, k)[j])] ELSE <<>>
GetPair(m, k) == LET ws == IF k \in DOMAIN m THEN Words(m[k]) ELSE <<>> IN
                 <<IF Len(ws) >= 1 THEN IntOf(ws[1]) ELSE 0, IF Len(ws) >= 2 THEN IntOf(ws[2]) ELSE 0>>

\* texts a pair of integers can be read from without a conversion error half way
IntText(w) == LET b == IF First(w) = "-" THEN From(w, 2) ELSE w IN
              b # "" /\ \A i \in 1..Len(b) : IsDigit(Ch(b, i))
PairText(m, k) == k \in DOMAIN m => LET ws == Words(m[k]) IN
                     (Len(ws) >= 1 => IntText(ws[1])) /\ (Len(ws) >= 2 => IntText(ws[2]))

(* ---- recorded commands ---- *)
RECURSIVE Record(_, _)
Record(m, ks) == IF ks = {} THEN "" ELSE
    LET k == CHOOSE k \in ks : TRUE IN " --" \o k \o " " \o m[k] \o Record(m, ks \ {k})
Recorded(m) == Record(m, DOMAIN m \ {""})
\* a value survives recording if its blanks are single and inside brackets that close at its end only
Sound(v) == LET ws == Words(v) IN
            /\ v = "" \/ v = Join(ws)
            /\ v # "" => /\ ~IsDashed(ws[1])
                         /\ Len(ws) > 1 => Opens(ws[1]) /\ \A j \in 1..Len(ws) : Closes(ws[j]) <=> j = Len(ws)
                         /\ Opens(ws[1]) => Closes(ws[Len(ws)])
WellFormed(m) == \A k \in DOMAIN m : Sound(m[k]) /\ (k # "" => Words(k) = <<k>>)
Named(m) == [k \in DOMAIN m \ {""} |-> m[k]]

(* ---- file headers: the leading lines that start with '#' ---- *)
HashLine(s) == Len(s) >= 1 /\ First(s) = "#"
StripCR(s) == LET k == CutAt(s, "\r", 1) IN IF k = 0 THEN s ELSE SubSeq(s, 1, k - 1)
\* p = [i, m, done]
ReadHeaderLine(ls, p) ==
    IF p.i > Len(ls) \/ ~HashLine(ls[p.i]) THEN [p EXCEPT !.done = TRUE]
    ELSE LET s == StripCR(From(ls[p.i], 2))
             ws == Words(s)
             n == p.i + 1
         IN  IF s = "" \/ First(s) = " " \/ ws = <<>> THEN [p EXCEPT !.i = n]
             ELSE IF ws[1] = "BEGIN_STREAM" THEN [i |-> n, m |-> Update(p.m, "BEGIN_STREAM", ""), done |-> TRUE]
             ELSE IF ws[1] = "ALTA"
             THEN IF Len(ws) >= 3 /\ (<<ws[2], ws[3]>> = <<"END", "HEADER">> \/ <<ws[2], ws[3]>> = <<"HEADER", "END">>)
                  THEN [p EXCEPT !.i = n, !.done = TRUE]
                  ELSE IF Len(ws) >= 3 /\ ws[3] = "HEADER"
                  THEN [p EXCEPT !.i = n, !.m = Update(p.m, "TYPE", ws[2])]
                  ELSE [p EXCEPT !.i = n]
             ELSE [p EXCEPT !.i = n, !.m = Update(p.m, ws[1], SkipBlank(From(SkipBlank(s), Len(ws[1]) + 1)))]
RECURSIVE ReadHeader(_, _)
ReadHeader(ls, p) == IF p.done THEN p ELSE ReadHeader(ls, ReadHeaderLine(ls, p))
Header(ls) == ReadHeader(ls, [i |-> 1, m |-> Empty, done |-> FALSE])
=============================================================================
