------------------------------ MODULE FuncFile -------------------------------
(* Function files: a header that records how the function was described, then one *)
(* block of values per leaf of the described function, in order.                   *)
EXTENDS Describe

VARIABLES fun       \* the function at hand: [kind |-> "none"], or [kind, tree, par, aux, pin, dx, dy, pout]
fvars == <<lvars, reg, fun>>

(* ---- what the shipped models write: block name, values per output, leading line ---- *)
F(f, per, opt, pin, dx) == [f |-> f, per |-> per, opt |-> opt, pin |-> pin, dx |-> dx]
C(f, per, opt) == F(f, per, opt, "CARTESIAN", 6)
Forms == [
  nonlinear_fresnel_normalized_schlick |-> C("nonlinear_fresnel_normalized_schlick", 1, ""),
  nonlinear_fresnel_retroschlick       |-> C("nonlinear_fresnel_retro_schlick", 1, ""),
  nonlinear_fresnel_schlick            |-> F("nonlinear_fresnel_schlick", 1, "param?", "given", 0),
  nonlinear_function_abc               |-> F("nonlinear_function_abc", 3, "param!", "given", 0),
  nonlinear_function_beckmann          |-> C("nonlinear_function_beckmann", 2, ""),
  nonlinear_function_blinn             |-> F("nonlinear_function_blinn", 2, "", "COS_TH", 1),
  nonlinear_function_diffuse           |-> C("nonlinear_function_diffuse", 1, "hidden"),
  nonlinear_function_lafortune         |-> C("nonlinear_function_lafortune", 4, "lobes"),
  nonlinear_function_retrobeckmann     |-> C("nonlinear_function_retrobeckmann", 2, "back"),
  nonlinear_function_retroblinn        |-> F("nonlinear_function_retroblinn", 2, "param?", "given", 0),
  nonlinear_function_retroyoo          |-> C("nonlinear_function_retroyoo", 2, ""),
  nonlinear_function_sgd               |-> C("nonlinear_function_sgd", 11, "grouped"),
  nonlinear_function_spherical_gaussian |-> C("nonlinear_function_spherical_gaussian", 2, "lobe"),
  nonlinear_function_ward              |-> C("nonlinear_function_ward", 3, ""),
  nonlinear_shadowing_schlick          |-> C("nonlinear_masking_schlick", 1, ""),
  nonlinear_shadowing_smith            |-> C("nonlinear_fresnel_smith", 1, ""),
  nonlinear_shadowing_walter_smith     |-> C("nonlinear_shadowing_walter_smith", 1, "")]
Rationals == {"rational_function_legendre", "rational_function_chebychev", "rational_function_cosine"}
\* the plugins, as Describe wants them (a leaf carries its plugin's name in place of coefficients)
Shipped == [x \in DOMAIN Forms \cup Rationals |->
    IF x \in Rationals THEN [kind |-> "plain"]
    ELSE [kind |-> "leaf", pin |-> Forms[x].pin, n |-> 0, p |-> <<>>, lo |-> <<>>, up |-> <<>>, a |-> x, b |-> 0, dx |-> Forms[x].dx]]
LobeTypes == {"mirror", "half", "retro", "back", "moment"}
DimTable == [COS_TH |-> 1, COS_TK |-> 1, COS_TLV |-> 1, COS_TLR |-> 1, RUSIN_TH_TD |-> 2, STARK_2D |-> 2, RUSIN_VH |-> 3,
             RUSIN_TH_TD_PD |-> 3, ISOTROPIC_TV_TL_DPHI |-> 3, SPHERICAL_TL_PL_TV_PV |-> 4, CARTESIAN |-> 6]
Dim(pin) == IF pin \in DOMAIN DimTable THEN DimTable[pin] ELSE 0

(* ---- the text after the header, as words; b: the word opens its line ---- *)
RECURSIVE Tokens(_)
Tokens(ls) == IF ls = <<>> THEN <<>>
              ELSE LET ws == Words(Head(ls)) IN
                   [i \in DOMAIN ws |-> [w |-> ws[i], b |-> i = 1 /\ First(Head(ls)) \notin Blank]] \o Tokens(Tail(ls))
RECURSIVE AllDigits(_)
AllDigits(s) == s = "" \/ (IsDigit(First(s)) /\ AllDigits(From(s, 2)))
Unsigned(s) == IF Len(s) > 0 /\ First(s) \in {"-", "+"} THEN From(s, 2) ELSE s
IsNat(s) == s # "" /\ AllDigits(s)
Mantissa(s) == LET k == CutAt(s, ".", 1) IN
               IF k = 0 THEN IsNat(s) ELSE AllDigits(SubSeq(s, 1, k - 1)) /\ AllDigits(From(s, k + 1)) /\ Len(s) > 1
IsNum(s0) == LET s == Unsigned(s0)  k == CutAt(s, "e", 1) IN
             IF k = 0 THEN Mantissa(s) ELSE Mantissa(SubSeq(s, 1, k - 1)) /\ IsNat(Unsigned(From(s, k + 1)))

Failed == [ok |-> FALSE, p |-> 0, v |-> <<>>]
W(T, p) == IF p \in DOMAIN T THEN T[p].w ELSE ""
IsMark(T, p) == p \in DOMAIN T /\ First(T[p].w) = "#"
\* n values, each after a word that says what it is
Values(T, p, n) == IF p + 2 * n - 1 <= Len(T) /\ \A i \in 1..n : IsNum(T[p + 2 * i - 1].w)
                   THEN [ok |-> TRUE, p |-> p + 2 * n, v |-> [i \in 1..n |-> T[p + 2 * i - 1].w]] ELSE Failed
\* n bare values
Bare(T, p, n) == IF p + n - 1 <= Len(T) /\ \A i \in 1..n : IsNum(T[p + i - 1].w)
                 THEN [ok |-> TRUE, p |-> p + n, v |-> [i \in 1..n |-> T[p + i - 1].w]] ELSE Failed
RECURSIVE Marked(_, _)    \* the next line that starts with '#'
Marked(T, p) == IF p > Len(T) THEN 0 ELSE IF T[p].b /\ First(T[p].w) = "#" THEN p ELSE Marked(T, p + 1)

\* a shifted-gamma block lists, for each of its quantities, one value per output, in an
\* order of its own; parameters are ordered c theta0 k lambda p F0 F1 Kap rho_d rho_s alpha
GroupedAt == <<9, 11, 10, 8, 4, 5, 6, 7, 1, 2, 3>>
Permuted(v, dy) == [i \in 1..Len(v) |-> v[(GroupedAt[((i - 1) \div dy) + 1] - 1) * dy + ((i - 1) % dy) + 1]]

\* one block: its parameters v in the function's order, other values h, type, parametrization
Leaf(ok, p, v, h, ty, pin) == [ok |-> ok, p |-> p, v |-> v, h |-> h, ty |-> ty, pin |-> pin]
NoLeaf == Leaf(FALSE, 0, <<>>, <<>>, "", "")
Plain(r, h, ty, pin) == Leaf(r.ok, r.p, r.v, h, ty, pin)
ReadLeaf(t, T, p0) ==
    LET fm == Forms[t.a]  p == Marked(T, p0)  n == fm.per * t.dy  q == p + 2 IN
    IF p = 0 \/ W(T, p) # "#FUNC" \/ W(T, p + 1) # fm.f THEN NoLeaf
    ELSE CASE fm.opt = "" -> Plain(Values(T, q, n), <<>>, "", "")
           [] fm.opt = "param?" -> IF ~IsMark(T, q) THEN Plain(Values(T, q, n), <<>>, "", "")
                                   ELSE IF W(T, q) # "#PARAM" \/ q + 1 > Len(T) THEN NoLeaf
                                   ELSE Plain(Values(T, q + 2, n), <<>>, "", W(T, q + 1))
           [] fm.opt = "param!" -> IF W(T, q) # "#PARAM" \/ q + 1 > Len(T) THEN NoLeaf
                                   ELSE Plain(Values(T, q + 2, n), <<>>, "", IF Dim(W(T, q + 1)) = 1 THEN W(T, q + 1) ELSE "")
           [] fm.opt = "hidden" -> LET r == Values(T, q, n) IN Leaf(r.ok, r.p, <<>>, r.v, "", "")
           [] fm.opt = "grouped" -> LET r == Values(T, q, n) IN IF ~r.ok THEN NoLeaf ELSE Leaf(TRUE, r.p, Permuted(r.v, t.dy), <<>>, "", "")
           [] fm.opt = "back" -> IF W(T, q) # "#TYPE" \/ q + 1 > Len(T) THEN NoLeaf
                                 ELSE Plain(Values(T, q + 2, n), <<>>, IF W(T, q + 1) = "BACK" THEN "BACK" ELSE "RETRO", "")
           [] fm.opt = "lobe" -> IF IsMark(T, q) /\ (W(T, q) # "#TYPE" \/ W(T, q + 1) \notin LobeTypes) THEN NoLeaf
                                 ELSE LET ty == IF IsMark(T, q) THEN W(T, q + 1) ELSE "mirror"
                                      IN  Plain(Values(T, IF IsMark(T, q) THEN q + 2 ELSE q, IF ty = "moment" THEN n + 1 ELSE n), <<>>, ty, "")
           [] fm.opt = "lobes" ->
                IF W(T, q) # "#NB_LOBES" \/ ~IsNat(W(T, q + 1)) \/ q + 2 > Len(T) THEN NoLeaf
                ELSE LET d == IsMark(T, q + 2)
                         h == IF d THEN Bare(T, q + 3, t.dy) ELSE [ok |-> TRUE, p |-> q + 2, v |-> [i \in 1..t.dy |-> "0"]]
                         r == Values(T, h.p, n * IntOf(W(T, q + 1)))
                     IN  IF (d /\ W(T, q + 2) # "#DIFFUSE") \/ ~h.ok \/ ~r.ok THEN NoLeaf
                         ELSE Leaf(TRUE, r.p, r.v, h.v, "", "")

RECURSIVE ReadLeaves(_, _, _)
ReadLeaves(ts, T, p) ==
    IF ts = <<>> THEN <<>>
    ELSE LET r == ReadLeaf(Head(ts), T, p) IN IF ~r.ok THEN <<r>> ELSE <<r>> \o ReadLeaves(Tail(ts), T, r.p)
RECURSIVE Filled(_, _)    \* the tree with what its leaves learnt from their blocks
Filled(t, rs) == CASE t.k = "leaf" -> [t EXCEPT !.n = Len(rs[t.id].v), !.pin = IF rs[t.id].pin = "" THEN @ ELSE rs[t.id].pin,
                                                !.dx = IF rs[t.id].pin = "" THEN @ ELSE Dim(rs[t.id].pin)]
                   [] t.k = "sum"  -> [t EXCEPT !.parts = [i \in DOMAIN @ |-> Filled(@[i], rs)]]
                   [] t.k = "prod" -> [t EXCEPT !.l = Filled(@, rs), !.r = Filled(@, rs)]

(* ---- rational functions: bounds of the inputs, then per output the coefficients ---- *)
\* n coefficients, each after one degree per input
Rows(T, p, n, dx) == IF p + (dx + 1) * n - 1 <= Len(T) /\ \A i \in 1..n : IsNum(T[p + (dx + 1) * i - 1].w)
                     THEN [ok |-> TRUE, p |-> p + (dx + 1) * n, v |-> [i \in 1..n |-> T[p + (dx + 1) * i - 1].w]] ELSE Failed
RECURSIVE ReadOutputs(_, _, _, _)
ReadOutputs(T, p, dx, dy) ==
    IF dy = 0 THEN [ok |-> TRUE, v |-> <<>>]
    ELSE IF W(T, p) # "#NP" \/ ~IsNat(W(T, p + 1)) \/ W(T, p + 2) # "#NQ" \/ ~IsNat(W(T, p + 3)) THEN [ok |-> FALSE, v |-> <<>>]
    ELSE LET np == IntOf(W(T, p + 1))  nq == IntOf(W(T, p + 3))
             a == Rows(T, p + 4, np, dx)  b == Rows(T, a.p, nq, dx)
         IN  IF nq < 1 \/ ~a.ok \/ ~b.ok THEN [ok |-> FALSE, v |-> <<>>]
             ELSE LET o == ReadOutputs(T, b.p, dx, dy - 1) IN [ok |-> o.ok, v |-> <<a.v, b.v>> \o o.v]
ReadRational(T, dx, dy) ==
    LET p == Marked(T, 1)  lo == Bare(T, p + 3, dx)  up == Bare(T, lo.p + 1, dx)  o == ReadOutputs(T, up.p, dx, dy) IN
    IF p = 0 \/ W(T, p) # "#FUNC" \/ W(T, p + 1) # "rational_function" \/ W(T, p + 2) # "#MIN" \/ ~lo.ok
       \/ (lo.ok /\ (W(T, lo.p) # "#MAX" \/ ~up.ok)) \/ (lo.ok /\ up.ok /\ ~o.ok)
    THEN [ok |-> FALSE, v |-> <<>>] ELSE [ok |-> TRUE, v |-> <<lo.v, up.v>> \o o.v]

(* ---- a file ---- *)
NoFun == [kind |-> "none"]
Loaded(ls) ==
    IF ls = <<>> \/ (ls # <<>> /\ Head(ls) # "#ALTA FUNC HEADER") THEN NoFun
    ELSE LET h == Header(Tail(ls))
             dim == GetPair(h.m, "DIM")
             pin == GetString(h.m, "PARAM_IN", "UNKNOWN_INPUT")
             pout == GetString(h.m, "PARAM_OUT", "UNKNOWN_OUTPUT")
             x == Described(Parse(Words(GetString(h.m, "CMD", ""))), Shipped, [pin |-> pin, dx |-> dim[1], dy |-> dim[2]], 0)
             T == Tokens(SubSeq(Tail(ls), h.i, Len(ls) - 1))
         IN  IF dim[1] <= 0 \/ dim[2] <= 0 \/ x.t.k = "none" THEN NoFun
             ELSE IF ~Nonlinear(x.t)
             THEN LET r == ReadRational(T, dim[1], dim[2]) IN
                  IF ~r.ok THEN NoFun
                  ELSE [kind |-> "rational", tree |-> x.t, par |-> r.v, aux |-> <<>>, pin |-> pin, dx |-> dim[1], dy |-> dim[2], pout |-> pout]
             ELSE LET rs == ReadLeaves(LeavesOf(x.t), T, 1)
                      n == Len(LeavesOf(x.t))
                      at == In(IF x.t.k = "leaf" /\ Len(rs) = n THEN Filled(x.t, rs) ELSE x.t)
                  IN  IF Len(rs) < n \/ (\E i \in DOMAIN rs : ~rs[i].ok) THEN NoFun
                      ELSE [kind |-> "nonlinear", tree |-> Filled(x.t, rs), par |-> [i \in 1..n |-> rs[i].v],
                            aux |-> [i \in 1..n |-> <<rs[i].h, rs[i].ty>>], pin |-> at[1], dx |-> at[2], dy |-> dim[2], pout |-> pout]

(* ---- the writer ---- *)
Num == [i \in 0..40 |-> IF i < 10 THEN Digits[i + 1] ELSE Digits[(i \div 10) + 1] \o Digits[(i % 10) + 1]]
Unpermuted(v, dy) == [j \in 1..Len(v) |-> v[CHOOSE i \in 1..Len(v) : (GroupedAt[((i - 1) \div dy) + 1] - 1) * dy + ((i - 1) % dy) + 1 = j]]
WriteLeaf(t, v, aux) ==
    LET fm == Forms[t.a] vals == CASE fm.opt = "hidden" -> aux[1] [] fm.opt = "grouped" -> Unpermuted(v, t.dy) [] OTHER -> v IN
    <<"#FUNC " \o fm.f>>
    \o (CASE fm.opt \in {"param?", "param!"} -> <<"#PARAM " \o t.pin>>
          [] fm.opt \in {"back", "lobe"} -> <<"#TYPE " \o aux[2]>>
          [] fm.opt = "lobes" -> <<"#NB_LOBES " \o Num[Len(v) \div (4 * t.dy)], "#DIFFUSE " \o Join(aux[1])>>
          [] OTHER -> <<>>)
    \o [i \in DOMAIN vals |-> "x " \o vals[i]] \o <<"">>
WriteOutput(a, b, dx) ==
    LET row(v) == [i \in DOMAIN v |-> Join([k \in 1..dx |-> "0"]) \o " " \o v[i]] IN
    <<"#NP " \o Num[Len(a)], "#NQ " \o Num[Len(b)]>> \o row(a) \o row(b) \o <<"">>
Written(x, cmd) ==
    <<"#ALTA FUNC HEADER", "#CMD " \o cmd, "#DIM " \o Num[x.dx] \o " " \o Num[x.dy], "#PARAM_IN " \o x.pin, "#PARAM_OUT " \o x.pout,
      "#ALTA HEADER END", "">>
    \o (IF x.kind = "rational"
        THEN <<"#FUNC rational_function", "#MIN " \o Join(x.par[1]), "#MAX " \o Join(x.par[2])>>
             \o Flat([k \in 1..x.dy |-> WriteOutput(x.par[2 * k + 1], x.par[2 * k + 2], x.dx)])
        ELSE LET L == LeavesOf(x.tree) IN Flat([i \in DOMAIN L |-> WriteLeaf(L[i], x.par[i], x.aux[i])]))
    \o <<"">>

Load(ls) == fun' = Loaded(ls) /\ act' = [a |-> "Load"] /\ UNCHANGED <<tree, par, reg>>
FSet(v) == /\ fun.kind = "nonlinear" /\ Len(v) = Nb(fun.tree)
           /\ fun' = [fun EXCEPT !.par = Assign(fun.tree, @, v)]
           /\ act' = [a |-> "Set", v |-> v] /\ UNCHANGED <<tree, par, reg>>
=============================================================================
