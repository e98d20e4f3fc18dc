----------------------------- MODULE Infiltration -----------------------------
(***************************************************************************)
(* One soil element of the Green-Ampt infiltration model.                  *)
(*                                                                         *)
(* Parameters p: psi suction head, Ks saturated conductivity, ths, thi     *)
(* saturated and initial moisture, A area.                                 *)
(* State e: F infiltrated depth of the current event, f infiltration rate  *)
(* of the last step, d ponded depth, T time until the soil counts as       *)
(* recovered, thu moisture deficit of the upper layer, th deficit at the   *)
(* start of the event, sat is water standing on a saturated surface?       *)
(* A step has a rain rate i and a length dt.                               *)
(*                                                                         *)
(* A step takes one of six courses.  Which one is a matter of thresholds,  *)
(* and at a threshold neighbouring courses agree; Courses admits both      *)
(* there, so that rounding does not matter.                                *)
(***************************************************************************)
EXTENDS Floats, TLC

Rt(p)    == FSqrt(p.Ks \otimes (FRat(3997, 100) \otimes 3600))      \* square root of the conductivity in in/hr
Lu(p)    == (4 \otimes Rt(p)) \otimes FRat(254, 10000)              \* depth of the upper layer
Kr(p)    == (Rt(p) \oslash 75) \oslash 3600                         \* recovery rate
Tr(p)    == (FRat(45, 10) \oslash Rt(p)) \otimes 3600               \* recovery time
ThMax(p) == p.ths \ominus p.thi
Fresh(p) == [F |-> F(0), f |-> F(0), d |-> F(0), T |-> F(0), thu |-> ThMax(p), th |-> ThMax(p), sat |-> FALSE, Q |-> F(0)]

Suck(p, th) == p.psi \otimes th
\* Green-Ampt: F2 - F1 - S ln((F2 + S) / (F1 + S)) = Ks t.  Excess(F2) > 0 when the soil could take in more than F2.
Excess(p, th, F1, t, F2) ==
   LET S == Suck(p, th) IN
   ((p.Ks \otimes t) \oplus (F1 \ominus F2)) \oplus (IF FEq(S, 0) THEN F(0) ELSE S \otimes FLn((F2 \oplus S) \oslash (F1 \oplus S)))
\* Newton's method from above: Excess is concave and decreasing, so the iterates fall monotonically to the root
RECURSIVE Root(_, _, _, _, _, _)
Root(p, th, F1, t, x, n) ==
   LET S == Suck(p, th)
       y == TLCEval(x \oplus (Excess(p, th, F1, t, x) \oslash (1 \ominus (S \oslash (S \oplus x)))))
   IN IF n = 0 \/ y \succeq x \/ FClose(x, y, Ten(-15), FAbs(x), 0) THEN FMax(F1, y) ELSE Root(p, th, F1, t, y, n - 1)
\* depth infiltrated after time t under ponding, if at most `avail` is available
Ponded(p, th, F1, t, avail) ==
   IF Excess(p, th, F1, t, F1 \oplus avail) \succ 0 THEN F1 \oplus avail ELSE Root(p, th, F1, t, F1 \oplus avail, 60)

Avail(e, i, dt) == i \oplus (e.d \oslash dt)
\* infiltrated depth at which the surface saturates under rate ia > Ks
Threshold(p, e, ia) == (p.Ks \otimes Suck(p, e.th)) \oslash (ia \ominus p.Ks)

\* a <= b, or nearly
LeN(a, b) == a \preceq (b \oplus ((Ten(-11) \otimes FMax(FAbs(a), FAbs(b))) \oplus Ten(-18)))
Courses(p, e, i, dt) ==
   LET ia == Avail(e, i, dt)
       av == ia \otimes dt
       Fs == Threshold(p, e, ia)
       heavy == ~e.sat /\ ia \succ p.Ks
       pond(S) == (IF Excess(p, e.th, e.F, dt, e.F \oplus av) \succeq FNeg(Ten(-9)) THEN {"drain"} ELSE {})
                  \cup (IF Excess(p, e.th, e.F, dt, e.F \oplus av) \preceq Ten(-9) THEN {"pond"} ELSE {})
   IN IF e.sat THEN pond(0)
      ELSE (IF FEq(ia, 0) THEN {"dry"} ELSE {})
           \cup (IF (ia \succ 0) /\ LeN(ia, p.Ks) THEN {"light"} ELSE {})
           \cup (IF heavy /\ LeN(Fs, e.F) THEN pond(0) ELSE {})
           \cup (IF heavy /\ LeN(e.F, Fs) /\ LeN(e.F \oplus av, Fs) THEN {"soak"} ELSE {})
           \cup (IF heavy /\ LeN(e.F, Fs) /\ LeN(Fs, e.F \oplus av) THEN {"cross"} ELSE {})

Clip(x, a, b) == FMin(FMax(x, a), b)
Wet(p, e, dt, F2, T, sat) ==
   LET dF == F2 \ominus e.F IN
   [F |-> F2, f |-> dF \oslash dt, T |-> T, thu |-> Clip(e.thu \ominus (dF \oslash Lu(p)), 0, ThMax(p)), th |-> e.th, sat |-> sat]
Result(p, e, i, dt, c) ==
   LET ia == Avail(e, i, dt)
       av == ia \otimes dt
       Fs == Threshold(p, e, ia)
       T1 == e.T \ominus dt
   IN CASE c = "dry" ->
             LET rec == (Kr(p) \otimes ThMax(p)) \otimes dt
                 thu == Clip(e.thu \oplus rec, 0, ThMax(p))
                 new == T1 \preceq 0             \* a new event begins
             IN [F |-> IF new THEN F(0) ELSE FMax(e.F \ominus (rec \otimes Lu(p)), 0), f |-> F(0), T |-> T1,
                 thu |-> thu, th |-> IF new THEN thu ELSE e.th, sat |-> FALSE]
        [] c = "light" -> Wet(p, e, dt, e.F \oplus av, T1, FALSE)
        [] c = "soak"  -> Wet(p, e, dt, e.F \oplus av, Tr(p), FALSE)
        [] c = "drain" -> Wet(p, e, dt, e.F \oplus av, Tr(p), FALSE)
        [] c = "pond"  -> Wet(p, e, dt, Ponded(p, e.th, e.F, dt, av), Tr(p), TRUE)
        [] c = "cross" -> LET sub == dt \ominus ((Fs \ominus e.F) \oslash ia) IN
                          Wet(p, e, dt, Ponded(p, e.th, Fs, sub, ia \otimes sub), Tr(p), FALSE)
\* runoff and ponding
Surface(p, e, i, dt, f) == [d |-> FMax(e.d \oplus ((i \ominus f) \otimes dt), 0), Q |-> FMax(i \ominus f, 0) \otimes p.A]
Step(p, e, i, dt, c) == LET r == Result(p, e, i, dt, c) IN r @@ Surface(p, e, i, dt, r.f)

\* --------------------------------------------------------------- what the model promises, of one step e -> e2
Near(a, b, abs) == FClose(a, b, Ten(-9), FMax(FAbs(a), FAbs(b)), abs)
\* rain and standing water go into the soil or stay on it; runoff is the rain that does not infiltrate
Splits(p, e, i, dt, e2) ==
   /\ FClose((e.d \oplus (i \otimes dt)) \ominus ((e2.f \otimes dt) \oplus e2.d), 0, Ten(-11), e.d \oplus (i \otimes dt), Ten(-14))
   /\ FClose(e2.Q, FMax(i \ominus e2.f, 0) \otimes p.A, Ten(-9), (i \oplus e2.f) \otimes p.A, Ten(-16))
\* never more than is available, never negative, and never less than the conductivity allows
Limits(p, e, i, dt, e2) ==
   LET ia == Avail(e, i, dt)  slack == (Ten(-7) \oslash dt) IN
   /\ (e2.f \otimes dt) \preceq ((ia \otimes dt) \oplus Ten(-14) \oplus (Ten(-12) \otimes (ia \otimes dt)))
   /\ e2.f \succeq FNeg(slack)
   /\ e2.f \succeq (FMin(ia, p.Ks) \ominus slack)
   /\ e2.d \succeq 0 /\ e2.F \succeq 0
   /\ e2.thu \succeq 0 /\ e2.thu \preceq ThMax(p) /\ e2.th \preceq ThMax(p) /\ e2.th \succeq 0
\* the infiltrated depth is accumulated exactly
Accumulates(e, i, dt, e2) == FEq(Avail(e, i, dt), 0) \/ FClose(e2.F \ominus e.F, e2.f \otimes dt, Ten(-9), FMax(e2.F, e.F), Ten(-15))
\* the deficit recovers, and an event ends, only while there is no water
Recovers(e, i, dt, e2) ==
   (Avail(e, i, dt) \succ 0) => (e2.thu \preceq (e.thu \oplus Ten(-7)) /\ FEq(e2.th, e.th) /\ e2.F \succeq (e.F \ominus Ten(-7)))
\* the step is one of the courses of the model
Same(a, b, tolF, dt, L) ==
   /\ Near(a.F, b.F, tolF) /\ FClose(a.f, b.f, Ten(-9), FMax(FAbs(a.f), FAbs(b.f)), tolF \oslash dt)
   /\ Near(a.T, b.T, Ten(-6)) /\ FClose(a.thu, b.thu, Ten(-9), 1, tolF \oslash L) /\ FClose(a.th, b.th, Ten(-9), 1, tolF \oslash L)
   /\ a.sat = b.sat
Follows(p, e, i, dt, e2) ==
   \E c \in Courses(p, e, i, dt) : Same(e2, Result(p, e, i, dt, c), IF c \in {"pond", "cross"} THEN 5 \otimes Ten(-8) ELSE Ten(-15), dt, Lu(p))
=============================================================================
