------------------------------- MODULE Params --------------------------------
(* Input parametrizations of a light/view configuration as an information        *)
(* lattice.  A configuration has quantities (cosines, components...), each        *)
(* parametrization names some of them and carries everything that follows from   *)
(* those.  `known` is the set of quantities of the configuration the user started *)
(* from that the values at hand must still determine after a history of          *)
(* conversions.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES q,      \* quantities of the configuration the user set: name -> value (millionths)
          known,  \* names of those still carried
          cur,    \* current parametrization
          valid   \* is the current configuration above the hemisphere?
pvars == <<q, known, cur, valid>>

\* rotation-invariant quantities: elevations, l.v, sign of the azimuth difference and what follows
INV == {"lz", "vz", "lv", "det", "hz", "hd", "kz", "lr", "Hp", "Bp", "B", "cbh", "sbh",
        "px", "py", "cd", "sd", "dx", "dy"}
AZ  == {"lx", "ly", "vx", "vy", "hx", "hy", "kx", "ky"}
ALL == INV \cup AZ

\* what follows from what (Euclidean geometry of two unit vectors above the plane)
Rules == << <<{"vx", "vy", "vz", "lx", "ly", "lz"}, ALL>>,
            <<{"hx", "hy", "hz", "hd", "dx", "dy"}, ALL>>,
            <<{"lz", "vz", "lv", "det"}, INV>>,
            <<{"lz", "vz", "cd", "sd"}, INV>>,
            <<{"lz", "vz", "px", "py"}, INV>>,
            <<{"hz", "hd", "dx", "dy"}, INV>>,
            <<{"Hp", "B", "cbh", "sbh"}, INV>>,
            <<{"Hp", "Bp", "cbh", "sbh"}, INV>>,
            <<{"hz", "hd"}, {"Hp"}>>, <<{"Hp", "B"}, {"hz"}>>,
            <<{"hd"}, {"lv", "B"}>>, <<{"lv"}, {"hd", "B"}>>, <<{"B"}, {"hd", "lv"}>>,
            <<{"lz", "vz", "lv"}, {"lr", "hz", "kz", "cbh", "cd", "px", "dx", "Hp", "Bp"}>> >>
RECURSIVE Close(_)
Close(S) == LET T == S \cup UNION {IF Rules[k][1] \subseteq S THEN Rules[k][2] ELSE {} : k \in DOMAIN Rules}
            IN  IF T = S THEN S ELSE Close(T)

\* name, number of values, quantities it names
Table == <<
  <<"COS_TH", 1, {"hz"}>>, <<"COS_TK", 1, {"kz"}>>, <<"COS_TLV", 1, {"lv"}>>, <<"COS_TLR", 1, {"lr"}>>,
  <<"RUSIN_TH_TD", 2, {"hz", "hd"}>>, <<"COS_TH_TD", 2, {"hz", "hd"}>>,
  <<"ISOTROPIC_TV_PROJ_DPHI", 2, {"vz"}>>,
  <<"STARK_2D", 2, {"Hp", "B"}>>, <<"NEUMANN_2D", 2, {"Hp", "Bp"}>>,
  <<"RUSIN_TH_PH_TD", 3, {"hx", "hy", "hz", "hd"}>>,
  <<"RUSIN_TH_TD_PD", 3, {"hz", "hd", "dx", "dy"}>>,
  <<"ISOTROPIC_TV_TL_DPHI", 3, {"vz", "lz", "cd", "sd"}>>,
  <<"RUSIN_VH", 3, {"hx", "hy", "hz"}>>, <<"SCHLICK_VK", 3, {"kx", "ky", "kz"}>>,
  <<"ISOTROPIC_TL_TV_PROJ_DPHI", 3, {"lz", "vz", "px", "py"}>>,
  <<"SCHLICK_TL_TK_PROJ_DPHI", 3, {"lz", "vz", "lv", "det"}>>,
  <<"RETRO_TL_TVL_PROJ_DPHI", 3, {"lz", "vz", "lv", "det"}>>,
  <<"STARK_3D", 3, {"Hp", "B", "cbh", "sbh"}>>, <<"NEUMANN_3D", 3, {"Hp", "Bp", "cbh", "sbh"}>>,
  <<"RUSIN_TH_PH_TD_PD", 4, {"hx", "hy", "hz", "hd", "dx", "dy"}>>,
  <<"SPHERICAL_TL_PL_TV_PV", 4, {"vx", "vy", "vz", "lx", "ly", "lz"}>>,
  <<"STEREOGRAPHIC", 4, {"vx", "vy", "vz", "lx", "ly", "lz"}>>,
  <<"CARTESIAN", 6, {"vx", "vy", "vz", "lx", "ly", "lz"}>> >>
Names == {Table[k][1] : k \in DOMAIN Table}
KeepsAll == TLCEval([n \in Names |-> TLCEval(LET k == CHOOSE k \in DOMAIN Table : Table[k][1] = n IN Close(Table[k][3]))])
Keeps(n) == KeepsAll[n]
Dim(n) == LET k == CHOOSE k \in DOMAIN Table : Table[k][1] = n IN Table[k][2]
Full == {n \in Names : Keeps(n) = ALL}
Isotropic == {n \in Names : Keeps(n) = INV}

SetConfig(qq) == q' = qq /\ known' = DOMAIN qq /\ cur' = "CARTESIAN" /\ valid' = TRUE

\* above: is the configuration above the hemisphere after this conversion?  One that is
\* not leaves the domain: nothing is promised for later conversions.
Convert(p, above) == /\ known' = IF valid THEN known \cap Keeps(p) ELSE {}
                     /\ cur' = p
                     /\ valid' = (valid /\ above)
                     /\ UNCHANGED q

(* ---- design ---- *)
\* an input value of two parametrizations is complete iff the quantities named determine it
TypeOK == known \subseteq ALL /\ cur \in Names \cup {""}
Closed == \A n \in Names : Close(Keeps(n)) = Keeps(n)
\* conversions among full parametrizations never lose anything; isotropic ones keep the invariants
NoLoss == [][ /\ (valid /\ cur' \in Full) => known' = known
              /\ (valid /\ cur' \in Isotropic) => known' = known \cap INV
              /\ known' \subseteq known ]_pvars
=============================================================================
