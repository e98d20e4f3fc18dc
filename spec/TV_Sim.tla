------------------------------- MODULE TV_Sim -------------------------------
(***************************************************************************)
(* Recorded runs of the simulation manager.  A trace is a sequence of      *)
(* operations; a step() call is recorded with the steps of the model it    *)
(* made.  The attempts are those of SimManager: one large step and         *)
(* call.sub small ones, accepted or made again with half the step.         *)
(***************************************************************************)
EXTENDS StepControl, Sampling, Conform

Same(a, b) == /\ FVecEq(a.H, b.H) /\ FVecEq(a.h, b.h) /\ FVecEq(a.Q, b.Q) /\ FVecEq(a.Qu, b.Qu) /\ FVecEq(a.Qd, b.Qd)
              /\ FVecEq(a.Qo, b.Qo) /\ FVecEq(a.Qw, b.Qw) /\ FVecEq(a.Qp, b.Qp)
SameT(x, y) == FClose(x, y, Ten(-12), FMax(1, FMax(FAbs(x), FAbs(y))), 0)
First3(q) == SubSeq(q, 1, IF Len(q) < 3 THEN Len(q) ELSE 3)

\* ------------------------------------------------------------- C13
Group(o) == IF o.req.sub > 1 THEN o.req.sub + 1 ELSE 1
NAtt(o) == Len(o.ev) \div Group(o)
AttDt(o, a) == o.req.dt \oslash FPow(2, a - 1)
Coarse(o, a) == o.ev[(a - 1) * Group(o) + 1]
Small(o, a, i) == o.ev[(a - 1) * Group(o) + 1 + i]
LastSmall(o, a) == o.ev[a * Group(o)]
Err(o, a) == IF o.req.sub = 1 THEN F(-1)
             ELSE LET z == LastSmall(o, a) IN Normed(Scaled(Coarse(o, a).s1.H, z.s1.H, z.prev), o.req.norm)
F13Att(o, a, mind) ==
   LET d == AttDt(o, a)  n == o.req.sub  e == Err(o, a)  left == o.req.retries - (a - 1)
       must == n > 1 /\ Reject(e, o.req.tol, d, mind, left)
       open == n > 1 /\ left > 0 /\ Undecided(e, o.req.tol, d, mind)
   IN Chk(SameT(Coarse(o, a).dt, d), "step of an attempt", a)
      \cup Chk(Same(Coarse(o, a).s0, o.before) /\ SameT(Coarse(o, a).s0.t, o.before.t), "an attempt starts where the call started", a)
      \cup (IF n = 1 THEN {} ELSE
            UNION {Chk(SameT(Small(o, a, i).dt, d \oslash n), "small step", a)
                   \cup Chk(Same(Small(o, a, i).s0, IF i = 1 THEN o.before ELSE Small(o, a, i - 1).s1), "small steps follow one another from the start", a)
                   : i \in 1..n})
      \cup (IF open THEN {} ELSE Chk(must = (a < NAtt(o)), IF must THEN "accepted an error above the tolerance" ELSE "rejected without need", a))
F13Step(o, mind) ==
   IF NAtt(o) = 0 \/ Len(o.ev) # NAtt(o) * Group(o) THEN {<<"number of steps taken", Len(o.ev)>>}
   ELSE LET n == NAtt(o)  d == AttDt(o, n)  e == Err(o, n) IN
        UNION {F13Att(o, a, mind) : a \in 1..n}
        \cup Chk(n <= o.req.retries + 1, "number of attempts", n)
        \cup Chk(n = 1 \/ (d \succeq (mind \otimes (1 \ominus Ten(-9)))), "below the minimum step", n)
        \cup Chk(Same(o.after, LastSmall(o, n).s1), "state after the call", n)
        \cup Chk(FClose(o.after.t, o.before.t \oplus d, Ten(-11), FMax(1, FAbs(o.after.t)), 0), "time after the call", n)
        \cup Chk(SameT(o.dt2, d), "step reported", n)
        \cup Chk(FVecClose(o.dts2, First3(<<d>> \o o.dts), Ten(-12), 0), "recent steps", n)
        \cup Chk(Len(o.errs2) = Len(First3(<<e>> \o o.errs)) /\ (~FFinite(e) \/ FClose(o.errs2[1], e, Ten(-6), e, 0))
                 /\ (~FFinite(e) => ~FFinite(o.errs2[1])) /\ \A i \in 2..Len(o.errs2) : o.errs2[i] = o.errs[i - 1], "recent errors", n)
F13Filter(o) == LET known == Len(o.dts) = 3 /\ \A i \in 1..3 : o.errs[i] # F(-1) IN
   IF ~known THEN Chk(SameT(o.got, o.dts[1]), "step proposed without error estimates", 0)
   ELSE Chk(FClose(o.got, FilterStep(o.dts, o.errs, o.c, o.tol, o.k, o.lim), Ten(-9), o.got, 0), "step proposed", 0)
        \cup Chk(IsNaN(FilterFactor(o.dts, o.errs, o.c, o.tol, o.k)) \/ ((o.got \succeq o.lim.mind) /\ (o.got \preceq o.lim.maxd)), "step proposed outside the limits", 0)
F13Compute(o) == Chk(FClose(o.got, ElementaryStep(o.dt, o.e, o.tol, o.lim), Ten(-9), o.got, 0), "step computed", 0)

\* ------------------------------------------------------------- C14
F14Ev(tr, o, e) ==
   LET x == e.s0.t \oplus e.dt
       ok(ser, own, got) == IF own # <<>> THEN FVecEq(own, got) ELSE IF ser.t = <<>> THEN got = <<>> ELSE SampleOk(ser, tr.how, x, got)
   IN Chk(ok(tr.Qin, o.oQin, e.Qin), "inflow of superjunctions", 0) \cup Chk(ok(tr.Hbc, <<>>, e.Hbc), "boundary head", 0)
      \cup Chk(ok(tr.Qik, o.oQik, e.Qik), "inflow of internal junctions", 0)
      \cup Chk(SameT(e.s1.t, x), "time of the step", 0)
F14Step(tr, o) == UNION {F14Ev(tr, o, o.ev[i]) : i \in 1..Len(o.ev)}

\* ------------------------------------------------------------- C15
Vars == {"H", "h", "Q", "Qu", "Qd", "Qo", "Qw", "Qp", "x"}
Key(v) == CASE v = "H_j" -> "H" [] v = "h_Ik" -> "h" [] v = "Q_ik" -> "Q" [] v = "Q_uk" -> "Qu" [] v = "Q_dk" -> "Qd" [] v = "x_Ik" -> "x"
Covers(o, v) == o.op = "record" /\ (o.vars = <<"all">> \/ \E i \in 1..Len(o.vars) : Key(o.vars[i]) = v)
\* what was recorded of v: samples in order, the first one taken when the simulation was created
Samples(tr, v) == <<tr.first>> \o LET R == SelectSeq(tr.ops, LAMBDA o : Covers(o, v)) IN [i \in 1..Len(R) |-> R[i].s]
Times(S) == {S[i].t : i \in 1..Len(S)}
LastAt(S, x) == S[CHOOSE i \in 1..Len(S) : S[i].t = x /\ \A q \in (i + 1)..Len(S) : S[q].t # x]
F15Table(tr, tab) ==
   LET S == TLCEval(Samples(tr, tab.var))  T == Times(S)
       rewound == \E i \in 1..(Len(S) - 1) : S[i + 1].t \prec S[i].t
   IN Chk(tab.named, "columns", tab.var)
      \cup Chk(Len(tab.t) = Cardinality(T) /\ {tab.t[i] : i \in 1..Len(tab.t)} = T, "one row per recorded time", tab.var)
      \cup Chk(rewound \/ \A i \in 1..(Len(tab.t) - 1) : tab.t[i] \prec tab.t[i + 1], "rows in order of time", tab.var)
      \cup Chk(~tab.named \/ \A i \in 1..Len(tab.t) : tab.t[i] \in T => FVecEq(tab.v[i], LastAt(S, tab.t[i])[tab.var]), "recorded values", tab.var)
F15(tr) == UNION {F15Table(tr, tr.tables[i]) : i \in 1..Len(tr.tables)}
           \cup Chk({tr.tables[i].var : i \in 1..Len(tr.tables)} = {v \in Vars : v \in {"H", "h", "Q", "Qu", "Qd", "x"} \/ tr.first[v] # <<>>}, "tables", 0)
           \cup Chk(tr.untouched, "the caller's tables are changed", 0)
F15Load(o) == Chk(FVecEq(o.s.H, o.after.H) /\ FVecEq(o.s.h, o.after.h) /\ FVecEq(o.s.Q, o.after.Q) /\ o.s.t = o.after.t, "state loaded", 0)

SSteps(tr) == Len(tr.ops) + 1
SFails(tr, n) ==
   IF n > Len(tr.ops) THEN IF tr.err # "" THEN {} ELSE
        (IF Prop = "C15" THEN F15(tr) ELSE IF Prop = "C14" THEN Chk(tr.first.t = tr.t0, "start time", 0) \cup Chk(tr.untouched, "the caller's tables are changed", 0) ELSE {})
   ELSE LET o == tr.ops[n] IN
        CASE Prop = "C13" /\ o.op = "step" -> F13Step(o, tr.lim.mind)
          [] Prop = "C13" /\ o.op = "filter" -> F13Filter(o)
          [] Prop = "C13" /\ o.op = "compute" -> F13Compute(o)
          [] Prop = "C14" /\ o.op = "step" -> F14Step(tr, o)
          [] Prop = "C15" /\ o.op = "load" -> F15Load(o)
          [] OTHER -> {}
=============================================================================
