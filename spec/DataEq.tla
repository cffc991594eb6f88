------------------------------- MODULE DataEq -------------------------------
(* Equality of data sets up to a tolerance.  A value is <<hi, lo>>, meaning     *)
(* hi/8 + lo * 1e-15 (lo a few dozens at most), or NaN.                         *)
EXTENDS Integers, Sequences
NaN == <<999999, 0>>
Abs(x) == IF x < 0 THEN -x ELSE x
\* |v - w| <= <<eh, el>>
Within(v, w, e) ==
    /\ v # NaN /\ w # NaN
    /\ LET dh == v[1] - w[1]
           dl == v[2] - w[2]
           s  == IF dh > 0 \/ (dh = 0 /\ dl >= 0) THEN 1 ELSE -1
       IN  s * dh < e[1] \/ (s * dh = e[1] /\ s * dl <= e[2])

Shape(d) == <<d.dx, d.dy, d.pin, d.pout, Len(d.rows)>>
Equal(a, b, e) ==
    /\ Shape(a) = Shape(b)
    /\ \A i \in 1..Len(a.rows) : \A j \in 1..(a.dx + a.dy) : Within(a.rows[i][j], b.rows[i][j], e)

(* The comparison as the library performs it: a scan with early exit *)
VARIABLES da, db, tol, pos, verdict
evars == <<da, db, tol, pos, verdict>>
Cells == Len(da.rows) * (da.dx + da.dy)
EqInit == pos = 0 /\ verdict = "running"
Scan == /\ verdict = "running"
        /\ IF Shape(da) # Shape(db) THEN verdict' = "no" /\ pos' = pos
           ELSE IF pos = Cells THEN verdict' = "yes" /\ pos' = pos
           ELSE LET i == (pos \div (da.dx + da.dy)) + 1
                    j == (pos % (da.dx + da.dy)) + 1
                IN  IF Within(da.rows[i][j], db.rows[i][j], tol)
                    THEN pos' = pos + 1 /\ verdict' = verdict
                    ELSE verdict' = "no" /\ pos' = pos
        /\ UNCHANGED <<da, db, tol>>
ScanExact == verdict # "running" => (verdict = "yes") = Equal(da, db, tol)
Finite(d) == \A i \in 1..Len(d.rows) : \A j \in 1..(d.dx + d.dy) : d.rows[i][j] # NaN
Reflexive == Finite(da) => Equal(da, da, tol)
Symmetric == Equal(da, db, tol) = Equal(db, da, tol)
=============================================================================
