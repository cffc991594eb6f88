--------------------------- MODULE TraceDataFile ---------------------------
(* Values are records [h |-> exact token, d |-> 15-digit token].               *)
EXTENDS TraceBase
VARIABLES mem, disk, act
TDig(v) == v.d
M == INSTANCE DataFile WITH Dig <- TDig
svars == <<mem, disk, act>>
tvars == <<svars, l>>
Files == {"f", "g", "missing"}

ToDs(e) == [dx |-> e.dx, dy |-> e.dy, pin |-> e.pin, pout |-> e.pout, kind |-> e.kind,
            rows |-> [i \in 1..Len(e.h) |-> [j \in 1..Len(e.h[i]) |-> [h |-> e.h[i][j], d |-> e.d[i][j]]]]]

TBegin == IsEvent("Begin") /\ mem' = M!None /\ disk' = [f \in Files |-> M!None] /\ act' = [a |-> "Begin"]
\* a data set built in memory shows what it was built from (expected tokens come from the scenario)
TBuild == /\ IsEvent("Build") /\ mem' = ToDs(Ev) /\ act' = [a |-> "Build"]
          /\ Ev.dx = Ev.want.dx /\ Ev.dy = Ev.want.dy /\ Ev.pin = Ev.want.pin /\ Ev.pout = Ev.want.pout
          /\ Len(Ev.h) = Ev.want.n /\ UNCHANGED disk
TSaveText == IsEvent("SaveText") /\ M!SaveText(Ev.f) /\ Ev.ok
\* the written binary file holds every sample and interval column
TSaveBin == IsEvent("SaveBin") /\ M!SaveBin(Ev.f) /\ Ev.ok
            /\ Ev.payEnd - Ev.payBegin >= M!PayloadBytes(mem)
\* (a file without samples has no payload to lose: its header alone is a whole file)
TCut == IsEvent("Cut") /\ M!Cut(Ev.f, disk[Ev.f].ds.rows # <<>> /\ Ev.at >= Ev.fmtEnd /\ Ev.at < Ev.payBegin + M!PayloadBytes(disk[Ev.f].ds))
TForeign == IsEvent("Foreign") /\ Ev.ok /\ M!Foreign(Ev.f)
\* a large data set: what the file and the loaded set hold, in numbers; without its last bytes it does not load
TBig == IsEvent("Big") /\ Ev.saved /\ Ev.ok /\ Ev.same = Ev.n /\ ~Ev.cutok
        /\ Ev.payload = Ev.n * (Ev.dx + Ev.dy + Ev.kind * Ev.dy) * 8 /\ UNCHANGED svars
\* a cut inside the header, before the file says it is binary, is not this property's business
TLoadAny == /\ IsEvent("Load") /\ "ds" \in DOMAIN disk[Ev.f] /\ disk[Ev.f].cut /\ ~disk[Ev.f].torn /\ (Ev.early \/ disk[Ev.f].ds.rows = <<>>)
            /\ act' = [a |-> "LoadAny"] /\ UNCHANGED <<mem, disk>>
TLoad == /\ IsEvent("Load") /\ ~Ev.early
         /\ \/ Ev.ok /\ M!Load(Ev.f, ToDs(Ev))
            \/ ~Ev.ok /\ M!Load(Ev.f, M!None)
\* reloading into the same state is reported equal by the library itself
TSame == IsEvent("Same") /\ Ev.ok /\ UNCHANGED svars
Match == TBegin \/ TBuild \/ TSaveText \/ TSaveBin \/ TCut \/ TForeign \/ TBig \/ TLoad \/ TLoadAny \/ TSame
TInit == mem = M!None /\ disk = [f \in Files |-> M!None] /\ act = [a |-> "None"] /\ l = 1
TNext == \/ Match
         \/ ~ENABLED Match /\ RejectLine /\ UNCHANGED svars
         \/ Done /\ UNCHANGED svars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
