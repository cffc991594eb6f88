----------------------------- MODULE MCTextLoad -----------------------------
EXTENDS TextLoad, TLC, Json
CONSTANTS Vals, Dys, MaxLines, GenLines
VARIABLE h
V3 == {-640, 0, 1280}
V2 == {-640, 1280}
Bounds == {None} \cup Vals
AllNone(n) == [j \in 1..n |-> None]
Opts == [dx : {1}, dy : Dys, kind : {0, 1, 2}, b : {"none", "min", "max", "ymin", "ymax"}, bv : Vals,
         dt : {64}, mode : {"abs", "rel", "max"}, pos : BOOLEAN, cos : {<<>>, <<1, 1>>}]
OptOf(c) == [dx |-> c.dx, dy |-> c.dy, kind |-> c.kind, dt |-> c.dt, mode |-> c.mode, pos |-> c.pos, cos |-> c.cos,
             min |-> [j \in 1..c.dx |-> IF c.b = "min" THEN c.bv ELSE None],
             max |-> [j \in 1..c.dx |-> IF c.b = "max" THEN c.bv ELSE None],
             ymin |-> [j \in 1..c.dy |-> IF c.b = "ymin" /\ j = 1 THEN c.bv ELSE None],
             ymax |-> [j \in 1..c.dy |-> IF c.b = "ymax" THEN c.bv ELSE None]]
Line(op) == {[t |-> "blank", v |-> <<>>], [t |-> "short", v |-> <<>>]}
            \cup {[t |-> "data", v |-> w] :
                   w \in [1..LineCols(op) -> Vals]}
\* the file grows line by line while it is read
MCInit == /\ \E c \in Opts : (c.cos # <<>> => c.b \in {"none", "ymin"}) /\ o = OptOf(c)
          /\ file = <<>> /\ Init /\ h = <<>>
Grow == /\ Finished /\ ~st.failed /\ Len(file) < MaxLines
        /\ \E ln \in Line(o) : file' = Append(file, ln)
        /\ UNCHANGED <<o, st>>
MCNext == (Grow \/ Read) /\ UNCHANGED h
(* ---- generation ---- *)
Rnd(S) == RandomElement(S)
GenVals == {80 * k : k \in -24..40}
Sel(k, n, w) == [j \in 1..n |-> IF k = 1 \/ (k = 2 /\ j = 1) THEN w[j] ELSE None]
Vec(n) == [j \in 1..n |-> 80 * Rnd(-24..40)]
GInit == /\ o = [dx |-> 1, dy |-> 1, kind |-> 0, b |-> "none", cos |-> <<>>] /\ file = <<>> /\ st = Reader0 /\ h = <<>>
(* singleton quantifiers fix each random choice *)
GNext == /\ Len(h) < 1
         /\ \E dx \in {Rnd(1..4)}, dy \in {Rnd(1..3)}, kind \in {Rnd(0..2)}, n \in {Rnd(0..GenLines)},
               short \in {Rnd(1..12)}, d \in {Rnd({0, 1, 8, 8, 8, 10, 20, 40})},
               k1 \in {Rnd(1..6)}, k2 \in {Rnd(1..6)}, k3 \in {Rnd(1..6)}, k4 \in {Rnd(1..6)},
               mode \in {Rnd({"abs", "rel", "max"})}, pos \in {Rnd({TRUE, FALSE, FALSE})} :
            \E mn \in {Vec(dx)}, mx \in {Vec(dx)}, yn \in {Vec(dy)}, yx \in {Vec(dy)} :
            \E op \in {[dx |-> dx, dy |-> dy, kind |-> kind, dt |-> 8 * d, mode |-> mode, pos |-> pos, cos |-> <<>>,
                       min |-> Sel(k1, dx, mn), max |-> Sel(k2, dx, mx), ymin |-> Sel(k3, dy, yn), ymax |-> Sel(k4, dy, yx)]} :
            /\ o' = op
            /\ \E ks \in {[i \in 1..n |-> Rnd(1..10)]}, less \in {Rnd(1..(dy + kind))} :
               \E f \in {[i \in 1..n |->
                     IF ks[i] = 1 THEN [t |-> "comment", v |-> <<>>]
                     ELSE IF ks[i] = 2 THEN [t |-> "blank", v |-> <<>>]
                     ELSE IF ks[i] = 3 /\ short = 1
                     THEN [t |-> "short", v |-> [c \in 1..(LineCols(op) - less) |-> 80 * Rnd(-24..40)]]
                     ELSE [t |-> "data", v |-> [c \in 1..LineCols(op) |->
                                    IF c <= dx + dy THEN 80 * Rnd(-24..40) ELSE 8 * Rnd(0..60)]]]} :
                 /\ file' = f
                 /\ st' = ReadAll(op, Reader0, f)
            /\ h' = <<"x">>
Emit == Len(h) = 1 => PrintT(<<"BEH", ToJson([o |-> o, file |-> file, h |-> <<file, "x">>])>>)
=============================================================================
