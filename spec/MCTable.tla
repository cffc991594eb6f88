------------------------------ MODULE MCTable ------------------------------
(* Small tables of every kind: all histories of writes, saves, cuts and loads. *)
EXTENDS Table
CONSTANTS Big
Cell(n) == [n |-> n, node |-> FALSE, wrap |-> FALSE, fold |-> FALSE]
Mirror(n) == [Cell(n) EXCEPT !.fold = TRUE]
Node(n) == [Cell(n) EXCEPT !.node = TRUE]
Turn(n) == [Node(n) EXCEPT !.wrap = TRUE]
T(axes, perm, fix, layout, measured) == [axes |-> axes, perm |-> perm, fix |-> fix, layout |-> layout, measured |-> measured]
Small == { T(<<Cell(2), Cell(1), Mirror(2)>>, <<1, 2, 3>>, 0, "planar", TRUE),
           T(<<Cell(2), Cell(2)>>, <<2, 1>>, 0, "interleaved", FALSE),
           T(<<Cell(1), Cell(3)>>, <<0, 1, 2>>, 7, "interleaved", FALSE),
           T(<<Node(2), Turn(2)>>, <<1, 2>>, 0, "planar", FALSE),
           T(<<Node(2), Node(2)>>, <<1, 2>>, 0, "interleaved", FALSE),
           T(<<Node(4)>>, <<1>>, 0, "interleaved", FALSE) }
Large == { T(<<Cell(3), Cell(1), Mirror(2)>>, <<1, 2, 3>>, 0, "planar", TRUE),
           T(<<Cell(2), Cell(3)>>, <<2, 1, 0>>, 7, "interleaved", FALSE),
           T(<<Node(2), Node(1), Turn(2), Turn(2)>>, <<1, 2, 3, 4>>, 0, "planar", FALSE),
           T(<<Node(2), Node(3)>>, <<1, 2>>, 0, "interleaved", FALSE) }
Tables == Small \cup IF Big THEN Large ELSE {}
Ys(t) == IF Big /\ Size(t) < 4 THEN {<<1, 2, 4>>, <<8, 0 - 1, 3>>} ELSE {<<8, 0 - 1, 3>>}
Init == Init0(Tables)
Next == \/ \E i \in DOMAIN vals, y \in Ys(tab) : Set(i, y)
        \/ Save \/ Cut \/ Deform \/ Load
Spec == Init /\ [][Next]_vars
\* cutting further tells nothing new
Few == file.cells = <<>> \/ Len(file.cells) >= Planes * Size(tab) - 1
\* queries: every quarter step from outside to outside
Reach(ax) == (0 - 2)..(4 * ax.n + 2)
RECURSIVE Grid(_, _)
Grid(t, c) == IF c = 0 THEN {<<>>}
              ELSE {Append(g, x) : g \in Grid(t, c - 1), x \in IF t.perm[c] = 0 THEN {t.fix} ELSE Reach(t.axes[t.perm[c]])}
AllAt == TLCGet("level") = 1 => Partition(Grid(tab, Len(tab.perm)))
OnceOneToOne == TLCGet("level") = 1 => OneToOne
=============================================================================
