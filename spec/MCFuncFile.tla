----------------------------- MODULE MCFuncFile ------------------------------
EXTENDS FuncFile, TLC
CONSTANTS Vals, Cmds
VARIABLES cmd, lines
vars == <<fvars, cmd, lines>>
V == {"0.5", "-2"}
Cmds1 == {"--func nonlinear_function_blinn", "--func nonlinear_function_lafortune", "--func nonlinear_function_spherical_gaussian",
          "--func [nonlinear_function_abc, nonlinear_function_diffuse --fixed]", "--func rational_function", "",
          "--func [nonlinear_function_retrobeckmann] --fresnel nonlinear_fresnel_schlick --fixed-fresnel", "--func nonlinear_function_sgd"}
Cmds2 == Cmds1 \cup {"--func [nonlinear_function_ward, nonlinear_function_retroblinn --fixed, nonlinear_function_diffuse] --fresnel nonlinear_shadowing_smith",
          "--func [nonlinear_function_blinn --fresnel nonlinear_fresnel_schlick, nonlinear_function_lafortune] --fixed-fresnel --fresnel [[nonlinear_fresnel_retroschlick, nonlinear_function_blinn]]"}
G(m) == [pin |-> "COS_TH", dx |-> 1, dy |-> 2]
\* functions of a description: the values of leaf i repeat a pattern of two
Pat(a, b, n) == [i \in 1..n |-> IF i % 2 = 1 THEN a ELSE b]
Full(t, a, b, lobes) ==
    LET L == LeavesOf(t)
        nv(u) == LET fm == Forms[u.a] IN
            CASE fm.opt = "hidden" -> 0 [] fm.opt = "lobes" -> 4 * u.dy * lobes [] fm.opt = "lobe" -> 2 * u.dy + 1 [] OTHER -> fm.per * u.dy
        aux(u) == LET fm == Forms[u.a] IN
            <<IF fm.opt \in {"hidden", "lobes"} THEN Pat(b, a, u.dy) ELSE <<>>, CASE fm.opt = "back" -> "BACK" [] fm.opt = "lobe" -> "moment" [] OTHER -> "">>
        rs == [i \in DOMAIN L |-> Leaf(TRUE, 0, Pat(IF i % 2 = 1 THEN a ELSE b, b, nv(L[i])), <<>>, "", "")]
    IN  [kind |-> "nonlinear", tree |-> Filled(t, rs), par |-> [i \in DOMAIN L |-> rs[i].v], aux |-> [i \in DOMAIN L |-> aux(L[i])],
         pin |-> In(t)[1], dx |-> In(t)[2], dy |-> 2, pout |-> "RGB_COLOR"]
Rat(t, a, b, n) == [kind |-> "rational", tree |-> t, par |-> <<<<a>>, <<b>>, Pat(a, b, n), Pat(b, a, n + 1), Pat(b, a, 2), <<"1">>>>,
                    aux |-> <<>>, pin |-> "COS_TH", dx |-> 1, dy |-> 2, pout |-> "RGB_COLOR"]
Init == tree = None /\ par = <<>> /\ act = [a |-> "Init"] /\ reg = 0 /\ fun = NoFun /\ cmd = "" /\ lines = <<>>
Make == /\ act.a = "Init"
        /\ \E c \in Cmds, a \in Vals, b \in Vals, n \in 0..2 :
             LET t == Described(Parse(Words(c)), Shipped, G(0), 0).t IN
             /\ cmd' = c
             /\ fun' = IF Nonlinear(t) THEN Full(t, a, b, n) ELSE Rat(t, a, b, n)
             /\ act' = [a |-> "Make"] /\ lines' = <<>> /\ UNCHANGED <<tree, par, reg>>
Save == /\ act.a \in {"Make", "Set"} /\ lines' = Written(fun, cmd) /\ act' = [a |-> "Save"] /\ UNCHANGED <<tree, par, reg, fun, cmd>>
\* lines are lost: one, or all from one on
Drop == /\ act.a = "Save"
        /\ \E i \in 1..Len(lines) : lines' = SubSeq(lines, 1, i - 1) \o SubSeq(lines, i + 1, Len(lines)) /\ act' = [a |-> "Drop", was |-> lines[i]]
        /\ UNCHANGED <<tree, par, reg, fun, cmd>>
Cut == /\ act.a = "Save"
       /\ \E i \in 0..Len(lines) : lines' = SubSeq(lines, 1, i) /\ act' = [a |-> "Cut", lost |-> SubSeq(lines, i + 1, Len(lines))]
       /\ UNCHANGED <<tree, par, reg, fun, cmd>>
SetSome == /\ act.a = "Make" /\ fun.kind = "nonlinear"
           /\ \E a \in Vals, b \in Vals : FSet(Pat(a, b, Nb(fun.tree)))
           /\ UNCHANGED <<cmd, lines>>
Next == Make \/ Save \/ Drop \/ Cut \/ SetSome
Spec == Init /\ [][Next]_vars
(* ---- what a user relies on ---- *)
ReloadsSame == act.a = "Save" => Loaded(lines) = fun
\* a file that lost values, the header or a description is no function, or not this one
Valued(s) == s # "" /\ ~(Len(s) > 5 /\ SubSeq(s, 1, 5) \in {"#ALTA", "#CMD ", "#PARA"})
CutNever == act.a = "Cut" /\ (\E i \in DOMAIN act.lost : Valued(act.lost[i])) => Loaded(lines) = NoFun
DropNever == act.a = "Drop" /\ Valued(act.was) /\ First(act.was) # "#" => Loaded(lines) = NoFun
=============================================================================
