--------------------------- MODULE MC_Infiltration ---------------------------
(***************************************************************************)
(* Every history of rain and step length over MaxSteps steps on each soil. *)
(***************************************************************************)
EXTENDS Infiltration, FiniteSets
CONSTANTS MaxSteps, Soils, Rains, Lengths

Soil(n) == CASE n = 1 -> [psi |-> FRat(11, 100), Ks |-> FRat(3, 1000000), ths |-> FRat(45, 100), thi |-> FRat(2, 10), A |-> 100]
             [] n = 2 -> [psi |-> FRat(3, 10), Ks |-> FRat(2, 10000000), ths |-> FRat(5, 10), thi |-> FRat(1, 10), A |-> 20]
             [] n = 3 -> [psi |-> FRat(5, 100), Ks |-> FRat(1, 100000), ths |-> FRat(4, 10), thi |-> FRat(4, 10), A |-> 10]
             [] n = 4 -> [psi |-> FRat(6, 100), Ks |-> FRat(5, 100000), ths |-> FRat(4, 10), thi |-> FRat(35, 100), A |-> 10]
\* rain as a multiple (in tenths) of the conductivity
VARIABLES soil, e, pre, rain, len, n, total, soaked, dry, log
vars == <<soil, e, pre, rain, len, n, total, soaked, dry, log>>
P == Soil(soil)
Init == /\ soil \in Soils /\ e = Fresh(Soil(soil)) /\ pre = e /\ rain = F(0) /\ len = F(1) /\ n = 0 /\ total = F(0) /\ soaked = F(0) /\ dry = F(0) /\ log = <<>>
Next == /\ n < MaxSteps /\ n' = n + 1 /\ soil' = soil
        /\ \E r \in Rains, d \in Lengths :
             /\ rain' = (r \otimes P.Ks) \oslash 10 /\ len' = F(d)
             /\ \E c \in Courses(P, e, rain', len') : e' = Step(P, e, rain', len', c)
        /\ pre' = e
        /\ total' = total \oplus (rain' \otimes len')
        /\ soaked' = soaked \oplus (e'.f \otimes len')
        /\ dry' = IF FEq(rain', 0) /\ FEq(e.d, 0) THEN dry \oplus len' ELSE F(0)
        /\ log' = IF FEnv("GEN") = "1" THEN Append(log, [i |-> rain', dt |-> len']) ELSE <<>>
Spec == Init /\ [][Next]_vars

InvSplits == n > 0 => Splits(P, pre, rain, len, e)
InvLimits == n > 0 => Limits(P, pre, rain, len, e)
InvAccumulates == n > 0 => Accumulates(pre, rain, len, e)
InvRecovers == n > 0 => Recovers(pre, rain, len, e)
InvFollows == n > 0 => Follows(P, pre, rain, len, e)
\* all rain is in the soil or on it
InvHistory == FClose(total, soaked \oplus e.d, Ten(-9), total, Ten(-12))
\* a dry spell of the recovery time ends the event
InvRecovered == (dry \succ (Tr(P) \oplus len)) => FEq(e.F, 0) /\ ~e.sat /\ FEq(e.th, e.thu)
\* some course is always open, and where two are open they agree
InvOpen == \A r \in Rains, d \in Lengths :
   LET i == (r \otimes P.Ks) \oslash 10  cs == Courses(P, e, i, F(d)) IN
   /\ cs # {}
   /\ \A a, b \in cs : Near(Result(P, e, i, F(d), a).F, Result(P, e, i, F(d), b).F, Ten(-7))
\* time under ponding is additive, and more time means more infiltration
InvAdditive == \A t \in Lengths : LET Big == F(100)  F1 == Ponded(P, e.th, e.F, F(t), Big)  F2 == Ponded(P, e.th, F1, F(t), Big) IN
   /\ Near(F2, Ponded(P, e.th, e.F, F(2 * t), Big), Ten(-9))
   /\ F1 \succ e.F /\ F2 \succ F1 /\ (F2 \ominus F1) \preceq ((F1 \ominus e.F) \oplus Ten(-12))
\* more rain, more infiltration (same state, same step)
InvMonotone == \A r, q \in Rains, d \in Lengths : r < q =>
   \A a \in Courses(P, e, (r \otimes P.Ks) \oslash 10, F(d)), b \in Courses(P, e, (q \otimes P.Ks) \oslash 10, F(d)) :
      Result(P, e, (r \otimes P.Ks) \oslash 10, F(d), a).f \preceq (Result(P, e, (q \otimes P.Ks) \oslash 10, F(d), b).f \oplus Ten(-10))
\* behaviours to be replayed in the code
Gen == (FEnv("GEN") = "1" /\ n = MaxSteps) => PrintT("GEN " \o FJson([p |-> P, steps |-> log]))
=============================================================================
