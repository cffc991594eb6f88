------------------------------ MODULE TextLoad ------------------------------
(* Loading an ALTA text data file: a reader that goes through the lines of the *)
(* body once, builds each sample (inputs, outputs, lower and upper bounds),    *)
(* drops what the range options exclude and keeps the rest in file order.      *)
(* Numbers are integers in units of 1/640 (One); see the drivers.              *)
EXTENDS Integers, Sequences, FiniteSets

One == 640
None == 1000000000       \* an absent bound

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Times(a, b) == (a * b) \div One           \* exact for the values used

VARIABLES o,      \* options and header: [dx, dy, kind, min, max, ymin, ymax, dt, mode, pos, cos]
                  \* cos: <<>>, or the columns of the cosines that values are divided by
          file,   \* the lines of the body: [t |-> "data"|"comment"|"blank"|"short", v |-> values]
          st      \* the reader: [pos, rows, failed]
tlvars == <<o, file, st>>

\* columns a data line of kind k carries: the interval columns belong to the first output
LineCols(op) == op.dx + op.dy + op.kind

InRange(v, lo, hi) == (lo = None \/ v >= lo) /\ (hi = None \/ v <= hi)

(* distances below/above output j that a line prescribes *)
Below(op, v, j) == IF j = 1 /\ op.kind # 0 THEN v[op.dx + op.dy + 1] ELSE op.dt
Above(op, v, j) == IF j = 1 /\ op.kind # 0 THEN v[op.dx + op.dy + op.kind] ELSE op.dt

Interval(op, v, j) ==
    LET y == v[op.dx + j]
        b == Below(op, v, j)
        a == Above(op, v, j)
        raw == CASE op.mode = "rel" -> <<y - Times(y, b), y + Times(y, a)>>
                 [] op.mode = "max" -> <<y - Max2(Times(y, b), b), y + Max2(Times(y, a), a)>>
                 [] OTHER           -> <<y - b, y + a>>
    IN  IF op.pos THEN <<Max2(raw[1], 0), Max2(raw[2], 0)>> ELSE raw

Sample(op, v) ==
    [x  |-> SubSeq(v, 1, op.dx),
     y  |-> [j \in 1..op.dy |-> IF op.pos THEN Max2(v[op.dx + j], 0) ELSE v[op.dx + j]],
     lo |-> [j \in 1..op.dy |-> Interval(op, v, j)[1]],
     up |-> [j \in 1..op.dy |-> Interval(op, v, j)[2]]]

Kept(op, s) == /\ \A j \in 1..op.dx : InRange(s.x[j], op.min[j], op.max[j])
               /\ \A j \in 1..op.dy : InRange(s.y[j], op.ymin[j], op.ymax[j])

\* cosine correction of a sample that is kept; what is not above the surface is dropped
Over(a, b) == (a * One) \div b              \* exact for the values used
Lit(op, s) == op.cos = <<>> \/ (s.x[op.cos[1]] > 0 /\ s.x[op.cos[2]] > 0)
Corrected(op, s) ==
    IF op.cos = <<>> THEN s
    ELSE LET C(f) == [j \in DOMAIN f |-> Over(Over(f[j], s.x[op.cos[1]]), s.x[op.cos[2]])]
         IN [s EXCEPT !.y = C(s.y), !.lo = C(s.lo), !.up = C(s.up)]

Reader0 == [pos |-> 1, rows |-> <<>>, failed |-> FALSE]
(* one step of the reader on line ln *)
ReadLine(op, r, ln) ==
    CASE ln.t \in {"comment", "blank"} -> [r EXCEPT !.pos = @ + 1]
      [] ln.t = "short"                -> [r EXCEPT !.failed = TRUE]
      [] OTHER -> LET s == Sample(op, ln.v) IN
                  [r EXCEPT !.pos = @ + 1, !.rows = IF Kept(op, s) /\ Lit(op, s) THEN Append(@, Corrected(op, s)) ELSE @]

RECURSIVE ReadAll(_, _, _)
ReadAll(op, r, f) == IF r.failed \/ r.pos > Len(f) THEN r ELSE ReadAll(op, ReadLine(op, r, f[r.pos]), f)

Init == st = Reader0
Read == /\ ~st.failed /\ st.pos <= Len(file)
        /\ st' = ReadLine(o, st, file[st.pos])
        /\ UNCHANGED <<o, file>>
Finished == st.failed \/ st.pos > Len(file)

HullMin(rows, j) == CHOOSE m \in {rows[i].x[j] : i \in 1..Len(rows)} : \A i \in 1..Len(rows) : m <= rows[i].x[j]
HullMax(rows, j) == CHOOSE m \in {rows[i].x[j] : i \in 1..Len(rows)} : \A i \in 1..Len(rows) : m >= rows[i].x[j]

(* ---- what a user relies on ---- *)
Wanted(s) == Kept(o, s) /\ Lit(o, s)
DataLines == SelectSeq(file, LAMBDA ln : ln.t \in {"data", "short"})
\* exactly the wanted rows, in file order, with their values
RowsExact ==
    Finished /\ ~st.failed =>
        st.rows = [i \in 1..Len(SelectSeq(DataLines, LAMBDA ln : Wanted(Sample(o, ln.v)))) |->
                     Corrected(o, Sample(o, SelectSeq(DataLines, LAMBDA ln : Wanted(Sample(o, ln.v)))[i].v))]
Refused == Finished => (st.failed <=> \E i \in 1..Len(file) : file[i].t = "short")
Unbounded == o.min = [j \in 1..o.dx |-> None] /\ o.max = o.min /\ o.ymin = [j \in 1..o.dy |-> None] /\ o.ymax = o.ymin
NothingExcluded == Finished /\ ~st.failed /\ Unbounded /\ o.cos = <<>> => Len(st.rows) = Len(DataLines)
NonNegative(s) == \A j \in 1..o.dy : s.y[j] >= 0
WidthsNonNegative == o.dt >= 0 /\ \A i \in 1..Len(file) : \A k \in 1..Len(file[i].v) : k > o.dx + o.dy => file[i].v[k] >= 0
Contains == WidthsNonNegative =>
    \A i \in 1..Len(st.rows) : (NonNegative(st.rows[i]) /\ (o.mode = "abs" \/ ~o.pos)) =>
        \A j \in 1..o.dy : st.rows[i].lo[j] <= st.rows[i].y[j] /\ st.rows[i].y[j] <= st.rows[i].up[j]
Positive == o.pos => \A i \in 1..Len(st.rows) : \A j \in 1..o.dy :
                        st.rows[i].y[j] >= 0 /\ st.rows[i].lo[j] >= 0 /\ st.rows[i].up[j] >= 0
=============================================================================
