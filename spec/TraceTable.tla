----------------------------- MODULE TraceTable -----------------------------
(* Traces of the real tables, checked against Table.  The tables are large, so  *)
(* their content is a formula (the last fill) and the samples written since.     *)
EXTENDS Table, TraceBase
VARIABLES base,  \* 0: all samples are zero; otherwise the salt of the last fill
          disk   \* what was last saved: <<base, over>>, or <<>>
\* vals: the samples written since; of the state of Table, only tab and vals are used
tvars == <<vars, base, disk, l>>

Fill(s, i) == IF s = 0 THEN [p \in 1..Planes |-> 0]
              ELSE [p \in 1..Planes |-> (((i % 9973) * 7 + (i \div 9973) * 3 + p * 331 + s) % 1009) + 1]
V(i) == IF i \in DOMAIN vals THEN vals[i] ELSE Fill(base, i)
Rest == <<tab, mem, file, saved>>

Tol == IF tab.approx THEN 16 ELSE 0
Near(a, b) == LET d == a - b IN d <= Tol /\ d >= 0 - Tol

TBegin == /\ IsEvent("Begin")
          /\ tab' = Ev.tab
          /\ vals' = <<>> /\ base' = 0 /\ disk' = <<>>
          /\ mem' = <<>> /\ file' = <<>> /\ saved' = <<>> /\ act' = [a |-> "Init"]
Same == UNCHANGED <<Rest, act>>
TNew == IsEvent("New") /\ Ev.n = Size(tab) /\ vals' = <<>> /\ base' = 0 /\ UNCHANGED disk /\ Same
TFill == IsEvent("Fill") /\ vals' = <<>> /\ base' = Ev.salt /\ UNCHANGED disk /\ Same
TSet == IsEvent("Set") /\ vals' = (Ev.i :> Ev.y) @@ vals /\ UNCHANGED <<base, disk>> /\ Same
TGet == /\ IsEvent("Get")
        /\ TRUE = (Ev.q = Config(tab, Ev.i) /\ Ev.y = V(Ev.i))
        /\ UNCHANGED <<vals, base, disk>> /\ Same
\* the value at configuration q, times Scale
TAt == /\ IsEvent("At")
       /\ TRUE = (LET y == ValueAt(tab, V, Ev.q) IN \A p \in 1..Planes : Near(Ev.y[p], y[p]))
       /\ UNCHANGED <<vals, base, disk>> /\ Same
\* the value at the configuration that the table itself gives for sample i
TSelf == /\ IsEvent("Self")
         /\ TRUE = (LET y == ValueAt(tab, V, Config(tab, Ev.i)) IN \A p \in 1..Planes : Near(Ev.y[p], y[p]))
         /\ UNCHANGED <<vals, base, disk>> /\ Same
\* all samples, compared to the last fill by the driver: those in disagreement
TSweep == IsEvent("Sweep") /\ vals = <<>> /\ Ev.salt = base /\ Ev.gets = 0 /\ Ev.selves = 0 /\ Ev.seen = Size(tab)
          /\ UNCHANGED <<vals, base, disk>> /\ Same
\* the range declared for the inputs holds every configuration
TRange == /\ IsEvent("Range")
          /\ TRUE = (\A c \in 1..Len(tab.perm) :
                /\ tab.perm[c] = 0 \/ (LET ax == tab.axes[tab.perm[c]] IN Ev.lo[c] <= Centre(ax, 0) /\ Ev.hi[c] >= Centre(ax, ax.n - 1)))
          /\ UNCHANGED <<vals, base, disk>> /\ Same
TSave == IsEvent("Save") /\ Ev.ok = (Ev.where = "good")
         /\ disk' = (IF Ev.ok THEN <<base, vals>> ELSE disk) /\ UNCHANGED <<vals, base>> /\ Same
\* the driver writes a file in the native format itself, holding the fill
TForge == IsEvent("Forge") /\ disk' = <<Ev.salt, <<>>>> /\ UNCHANGED <<vals, base>> /\ Same
\* a value as it lies in the file
TRaw == /\ IsEvent("Raw")
        /\ TRUE = (disk # <<>> /\ Ev.y = (IF Ev.i \in DOMAIN disk[2] THEN disk[2][Ev.i] ELSE Fill(disk[1], Ev.i)))
        /\ UNCHANGED <<vals, base, disk>> /\ Same
TLoad == /\ IsEvent("Load")
         /\ Ev.ok = (Ev.what = "whole")
         /\ TRUE = (Ev.ok => Ev.n = Size(tab) /\ Ev.dim = <<Len(tab.perm), Planes>> /\ Ev.params = tab.params)
         /\ vals' = (IF Ev.ok THEN disk[2] ELSE vals)
         /\ base' = (IF Ev.ok THEN disk[1] ELSE base)
         /\ UNCHANGED disk /\ Same
\* all the digits of a value survive a file
TPrecise == IsEvent("Precise") /\ Ev.close /\ UNCHANGED <<vals, base, disk>> /\ Same
\* plain lists of samples (ASTM)
TList == /\ IsEvent("List")
         /\ Ev.ok = (Ev.what = "whole")
         /\ TRUE = (Ev.ok => Ev.dim = Ev.wantdim /\ Ev.rows = Ev.want
                          /\ Ev.params = <<IF Ev.dim[1] = 4 THEN "SPHERICAL_TL_PL_TV_PV" ELSE "UNKNOWN_INPUT",
                                            IF Ev.dim[2] = 3 THEN "RGB_COLOR" ELSE "INV_STERADIAN">>)
         /\ UNCHANGED <<vals, base, disk>> /\ Same

Match == TBegin \/ TNew \/ TFill \/ TSet \/ TGet \/ TAt \/ TSelf \/ TSweep \/ TRange \/ TSave \/ TForge \/ TRaw \/ TLoad \/ TPrecise \/ TList
TInit == /\ tab = <<>> /\ mem = <<>> /\ vals = <<>> /\ file = <<>> /\ saved = <<>> /\ act = [a |-> "None"]
         /\ base = 0 /\ disk = <<>> /\ l = 1
TNext == \/ Match
         \/ ~ENABLED Match /\ RejectLine /\ UNCHANGED <<vars, base, disk>>
         \/ Done /\ UNCHANGED <<vars, base, disk>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
