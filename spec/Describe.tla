------------------------------ MODULE Describe ------------------------------
(* The function a list of options describes: a plugin by name, a sum of such      *)
(* descriptions, or one of these times a Fresnel term.                             *)
(* reg: what the plugins provide, name -> [kind |-> "leaf", pin, n, p, lo, up, a,  *)
(* b] | [kind |-> "plain"] (a function that is not non-linear) | [kind |-> "null"] *)
EXTENDS Args, Layout

VARIABLE reg
None == [k |-> "none"]
Nonlinear(t) == t.k \in {"leaf", "sum", "prod"}

\* results: [t |-> tree, ps |-> initial parameters of its leaves, in order]; g: the
\* parametrization asked for, [pin, dx, dy]; id: number of leaves built before
Nothing == [t |-> None, ps |-> <<>>]
\* a plugin may be named by its library's file name
EndsInSo(n) == Len(n) > 3 /\ SubSeq(n, Len(n) - 2, Len(n)) = ".so"
Short(n) == IF EndsInSo(n) /\ SubSeq(n, 1, 3) = "lib" THEN SubSeq(n, 4, Len(n) - 3) ELSE n
Provided(name0, r, g, id) ==
    LET name == Short(name0) IN
    IF name \notin DOMAIN r \/ (name \in DOMAIN r /\ r[name].kind = "null")
    THEN IF name = "rational_function" THEN [t |-> [k |-> "rational"], ps |-> <<>>] ELSE Nothing
    ELSE IF r[name].kind = "plain" THEN [t |-> [k |-> "plain"], ps |-> <<>>]
    ELSE LET d == r[name] IN
         [t |-> [k |-> "leaf", id |-> id + 1, n |-> d.n, lo |-> d.lo, up |-> d.up, a |-> d.a, b |-> d.b, dy |-> g.dy,
                 pin |-> IF d.pin = "given" THEN g.pin ELSE d.pin, dx |-> IF d.pin = "given" THEN g.dx ELSE d.dx],
          ps |-> <<d.p>>]

RECURSIVE Described(_, _, _, _)
RECURSIVE Members(_, _, _, _)     \* of a sum: <<results>>, in order
Members(txts, r, g, id) ==
    IF txts = <<>> THEN <<>>
    ELSE LET x == Described(Parse(Words("--func " \o Head(txts))), r, g, id)
         IN  <<x>> \o Members(Tail(txts), r, g, id + Len(x.ps))
Sum(txts, r, g, id) ==
    LET ms == Members(txts, r, g, id) IN
    IF \E i \in DOMAIN ms : ~Nonlinear(ms[i].t) THEN Nothing
    ELSE [t |-> [k |-> "sum", parts |-> [i \in DOMAIN ms |-> ms[i].t],
                 fixed |-> [i \in DOMAIN ms |-> "fixed" \in DOMAIN Parse(Words("--func " \o txts[i]))]],
          ps |-> Flat([i \in DOMAIN ms |-> ms[i].ps])]
Described(m, r, g, id) ==
    IF "func" \notin DOMAIN m THEN [t |-> [k |-> "rational"], ps |-> <<>>]
    ELSE LET lobe == IF IsVec(m, "func") THEN Sum(List(m, "func"), r, g, id) ELSE Provided(m["func"], r, g, id)
         IN  IF "fresnel" \notin DOMAIN m \/ lobe.t = None THEN lobe
             ELSE IF ~Nonlinear(lobe.t) THEN Nothing
             ELSE LET v == m["fresnel"]
                      txt == IF IsVec(m, "fresnel") THEN SubSeq(v, 2, Len(v) - 1) ELSE v
                      term == Described(Parse(Words("--func " \o txt)), r, g, id + Len(lobe.ps))
                  IN  IF ~Nonlinear(term.t) THEN Nothing
                      ELSE [t |-> [k |-> "prod", l |-> lobe.t, r |-> term.t,
                                   fl |-> "fixed-lobe" \in DOMAIN m, fr |-> "fixed-fresnel" \in DOMAIN m],
                            ps |-> lobe.ps \o term.ps]

Describe(ws, g) == /\ LET x == Described(Parse(ws), reg, g, 0) IN tree' = x.t /\ par' = x.ps
                   /\ act' = [a |-> "Build"] /\ UNCHANGED reg
ByName(name, g) == /\ LET x == Provided(name, reg, g, 0) IN tree' = x.t /\ par' = x.ps
                   /\ act' = [a |-> "Build"] /\ UNCHANGED reg

(* ---- what a user relies on ---- *)
\* every plugin named contributes its parameters once and in order, except fixed parts
Whole == Nonlinear(tree) => /\ SlotsOnce
                            /\ \A i \in DOMAIN LeavesOf(tree) : LeavesOf(tree)[i].id = i
                            /\ Len(par) = Len(LeavesOf(tree))
=============================================================================
