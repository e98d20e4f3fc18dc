---------------------------- MODULE MC_SimManager ----------------------------
EXTENDS SimManager
cDts == {F(8), F(3)}
cSubs == {1, 2, 3}
cRetries == 0..2
cTols == {F(1), F(4)}
cErrors == {FRat(1, 2), F(2), F(9), FNaN}
cMinDt == F(1)
cMaxDt == F(20)
cCoeffs == <<FRat(1, 2), FRat(1, 2), F(0), FRat(1, 2), F(0)>>
\* what is explored does not depend on the log
View == <<phase, hist, t, call, d, left, k, start, dts, errs, accepted, IF log = <<>> THEN <<>> ELSE log[Len(log)]>>
Gen == (FEnv("GEN") = "1" /\ phase = "idle" /\ Len(accepted) = MaxCalls) => PrintT("GEN " \o FJson(log))
=============================================================================
