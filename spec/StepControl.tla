---------------------------- MODULE StepControl ----------------------------
(***************************************************************************)
(* Error estimate and step-size control of the simulation manager          *)
(* (docs/adaptive-stepsize.md, Simulation.filter_step_size).               *)
(***************************************************************************)
EXTENDS Floats

Eps == FPow(2, -52)
\* error of a step, from the heads after one large step, after the small steps, and before the last small step
Scaled(coarse, fine, prev) ==
   [j \in 1..Len(fine) |-> (coarse[j] \ominus fine[j]) \oslash (Ten(-6) \oplus (Ten(-3) \otimes FMax(FAbs(fine[j]), FAbs(prev[j]))))]
Normed(e, norm) ==
   LET n == Len(e)
       m == CASE norm = 0 -> FSum([j \in 1..n |-> IF FEq(e[j], 0) THEN F(0) ELSE F(1)]) \oslash n
              [] norm = 1 -> FSum([j \in 1..n |-> FAbs(e[j])]) \oslash n
              [] norm = 2 -> FSqrt(FSum([j \in 1..n |-> e[j] \otimes e[j]]) \oslash n)
              [] norm = -1 -> FMaxOf([j \in 1..n |-> FAbs(e[j])])
   IN IF FFinite(m) THEN FMax(m, Eps) ELSE m
\* whether an attempt with step d and error err is rejected; left: retries left
Reject(err, tol, d, mind, left) == left > 0 /\ (~FFinite(err) \/ (err \succ tol)) /\ ((d \oslash 2) \succ mind)
\* the same when err and tol, or the halved step and the minimum, agree to rounding: both outcomes are admissible
Undecided(err, tol, d, mind) == FClose(err, tol, Ten(-6), tol, 0) \/ FClose(d \oslash 2, mind, Ten(-9), mind, 0)

Clamp(x, lo, hi) == FMin(FMax(x, lo), hi)
\* next step size from the last three steps and errors (latest first); c: the coefficients kb1, kb2, kb3, a2, a3
FilterFactor(dts, errs, c, tol, k) ==
   ((FPow(tol \oslash errs[1], c[1] \oslash k) \otimes FPow(tol \oslash errs[2], c[2] \oslash k)) \otimes FPow(tol \oslash errs[3], c[3] \oslash k))
   \otimes (FPow(dts[1] \oslash dts[2], FNeg(c[4])) \otimes FPow(dts[2] \oslash dts[3], FNeg(c[5])))
IsNaN(x) == ~(x \preceq 0) /\ ~(x \succeq 0)
FilterStep(dts, errs, c, tol, k, lim) == \* lim: mind, maxd, minr, maxr, safety
   IF IsNaN(FilterFactor(dts, errs, c, tol, k)) THEN dts[1]     \* an undefined error says nothing: keep the step
   ELSE Clamp((lim.safety \otimes Clamp(FilterFactor(dts, errs, c, tol, k), lim.minr, lim.maxr)) \otimes dts[1], lim.mind, lim.maxd)
\* elementary controller
ElementaryStep(dt, err, tol, lim) ==
   Clamp((lim.safety \otimes dt) \otimes Clamp(FSqrt((tol \oslash 2) \oslash FMax(FAbs(err), Eps)), lim.minr, lim.maxr), lim.mind, lim.maxd)
=============================================================================
