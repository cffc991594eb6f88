------------------------------ MODULE DataFile ------------------------------
(* Saving and loading data sets: text and binary files, chains of saves and     *)
(* loads, and files that stop early (a crash while writing, a full disk).       *)
(* A value is an exact token; Dig(v) is its first 15 significant digits, which  *)
(* is what the text format carries.                                             *)
EXTENDS Integers, Sequences

CONSTANT Dig(_)

VARIABLES mem,    \* data set in memory: [dx, dy, pin, pout, kind, rows] or None
          disk,   \* file name -> None or what was written there
          act

dvars == <<mem, disk, act>>
None == [none |-> TRUE]
IsDs(x) == "rows" \in DOMAIN x

XYof(ds, r) == SubSeq(r, 1, ds.dx + ds.dy)
Cols(ds)    == ds.dx + ds.dy + ds.kind * ds.dy
PayloadBytes(ds) == 8 * Cols(ds) * Len(ds.rows)

SaveText(f) ==
    /\ IsDs(mem)
    /\ disk' = [disk EXCEPT ![f] = [fmt |-> "text", ds |-> mem, cut |-> FALSE, torn |-> FALSE]]
    /\ act' = [a |-> "SaveText", f |-> f]
    /\ UNCHANGED mem

SaveBin(f) ==
    /\ IsDs(mem)
    /\ disk' = [disk EXCEPT ![f] = [fmt |-> "binary", ds |-> mem, cut |-> FALSE, torn |-> FALSE]]
    /\ act' = [a |-> "SaveBin", f |-> f]
    /\ UNCHANGED mem

(* The file stops early.  `torn`: somewhere between its format declaration and  *)
(* the last byte of its samples.                                                *)
Cut(f, torn) ==
    /\ "ds" \in DOMAIN disk[f] /\ disk[f].fmt = "binary"
    /\ disk' = [disk EXCEPT ![f].cut = TRUE, ![f].torn = torn]
    /\ act' = [a |-> "Cut", f |-> f]
    /\ UNCHANGED mem

(* The header declares another encoding of the samples (byte order, precision,  *)
(* version), or more samples than the file has.                                 *)
Foreign(f) ==
    /\ "ds" \in DOMAIN disk[f] /\ disk[f].fmt = "binary"
    /\ disk' = [disk EXCEPT ![f].cut = TRUE, ![f].torn = TRUE]
    /\ act' = [a |-> "Foreign", f |-> f]
    /\ UNCHANGED mem

SameShape(d, e) == d.dx = e.dx /\ d.dy = e.dy /\ d.pin = e.pin /\ d.pout = e.pout /\ Len(d.rows) = Len(e.rows)

(* What a load of file content c may yield (ds: candidate data set, or None for an error). *)
LoadAllowed(c, ds) ==
    IF "ds" \notin DOMAIN c THEN ~IsDs(ds)
    ELSE IF c.fmt = "binary"
    THEN IF c.torn THEN ~IsDs(ds)
         ELSE \/ IsDs(ds) /\ SameShape(c.ds, ds) /\ ds.kind = c.ds.kind /\ ds.rows = c.ds.rows
              \/ c.cut /\ ~IsDs(ds)
    ELSE /\ IsDs(ds) /\ SameShape(c.ds, ds)
         /\ \A i \in 1..Len(ds.rows) : \A j \in 1..(ds.dx + ds.dy) :
               Dig(ds.rows[i][j]) = Dig(c.ds.rows[i][j])

Load(f, ds) ==
    /\ LoadAllowed(disk[f], ds)
    /\ mem' = IF IsDs(ds) THEN ds ELSE mem
    /\ act' = [a |-> "Load", f |-> f, ok |-> IsDs(ds)]
    /\ UNCHANGED disk
=============================================================================
