----------------------------- MODULE MCDataFile -----------------------------
(* Values are 0..3; values 0/1 and 2/3 agree to 15 digits.  `orig` remembers    *)
(* the data set the history started with.                                       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Files, MaxLen
VARIABLES mem, disk, act, orig, hist, lossy
D(v) == v \div 2
M == INSTANCE DataFile WITH Dig <- D
vars == <<mem, disk, act, orig, hist, lossy>>
Vals == {0, 1, 2}
DsSet == UNION {UNION {{[dx |-> 1, dy |-> 1, pin |-> "P", pout |-> "Q", kind |-> k, rows |-> r] :
                  r \in [1..n -> [1..(2 + k) -> Vals]]} : n \in 0..2} : k \in {0, 1, 2}}
SmallDs == {d \in DsSet : Len(d.rows) * (2 + d.kind) <= 4}
\* candidates a loader could produce for file content c
Cands(c) == {M!None} \cup {d \in SmallDs : "ds" \in DOMAIN c /\ Len(d.rows) = Len(c.ds.rows)
                                              /\ (c.fmt = "binary" => d = c.ds) /\ (c.fmt = "text" => d.kind = 2)}
Init == /\ mem \in SmallDs /\ orig = mem /\ lossy = FALSE
        /\ disk = [f \in Files |-> M!None] /\ act = [a |-> "Init"] /\ hist = <<>>
Next == /\ \E f \in Files : M!SaveText(f) \/ M!SaveBin(f) \/ (\E t \in BOOLEAN : M!Cut(f, t)) \/ M!Foreign(f)
                             \/ \E ds \in Cands(disk[f]) : M!Load(f, ds)
        /\ lossy' = (lossy \/ act'.a = "SaveText")
        /\ UNCHANGED <<orig, hist>>
Spec == Init /\ [][Next]_vars
\* through any chain, sizes and (to 15 digits) values are those of the original ...
Preserved == /\ Len(mem.rows) = Len(orig.rows)
             /\ \A i \in 1..Len(mem.rows) : \A j \in 1..2 : D(mem.rows[i][j]) = D(orig.rows[i][j])
\* ... and bit-exact, intervals included, as long as only binary files were involved
BinExact == ~lossy => mem = orig
NoTornLoad == [][act'.a = "Load" /\ "torn" \in DOMAIN disk[act'.f] /\ disk[act'.f].torn => ~act'.ok /\ mem' = mem]_<<act, mem>>
View0 == <<mem, disk, orig, lossy, act>>
\* generation: chains of operations (the driver instantiates the data)
GInit == /\ mem = [dx |-> 1, dy |-> 1, pin |-> "P", pout |-> "Q", kind |-> 2, rows |-> <<>>]
         /\ orig = mem /\ lossy = FALSE
         /\ disk = [f \in Files |-> M!None] /\ act = [a |-> "Init"] /\ hist = <<>>
GNext == /\ Len(hist) < MaxLen
         /\ \E f \in Files : M!SaveText(f) \/ M!SaveBin(f) \/ M!Cut(f, TRUE)
                              \/ \E ds \in {M!None, mem} : M!Load(f, ds)
         /\ hist' = Append(hist, act') /\ UNCHANGED <<orig, lossy>>
Emit == Len(hist) = MaxLen => PrintT(<<"BEH", ToJson([h |-> hist])>>)
=============================================================================
