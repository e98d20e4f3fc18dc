---------------------------- MODULE TV_Lifecycle ----------------------------
(***************************************************************************)
(* Recorded lives of models against Lifecycle.  A trace has operations     *)
(* ops[1..n]; after each one, what every model publishes (b[m]: heads,     *)
(* depths, flows, positions, time and count) and what its `states` hold    *)
(* (sv[m]); inputs U; networks nets.  An iterated step also has the states *)
(* alt[1..n] that a copy of the model reaches with 1..n iterations.        *)
(*                                                                         *)
(* Same path, same numbers: whatever is published for a path must equal,   *)
(* exactly, what was first published for it.                               *)
(***************************************************************************)
EXTENDS Lifecycle, Judge, Conform

Phys(p) == <<p.H, p.h, p.Q, p.Qu, p.Qd, p.Qo, p.Qw, p.Qp, p.x>>
\* what a saved state does not mention (<<>>) is not compared
Agree(v, w) == \A i \in 1..Len(v) : v[i] = <<>> \/ w[i] = <<>> \/ v[i] = w[i]
\* publications at event e: of models, of what they saved
Same(tr, hs, e, tab, path, v) ==
   \A f \in 1..e : \A m \in 1..Len(hs[f].models) :
      LET md == hs[f].models[m] IN
      /\ (md.tab = tab /\ md.path = path) => Agree(Phys(tr.ops[f].b[m]), v)
      /\ (md.sv.tab = tab /\ md.sv.path = path) => Agree(Phys(tr.ops[f].sv[m]), v)
\* the constructor sets the clock after its first step, which saved the clock before it
LFails11(tr, hs, e) ==
   LET o == tr.ops[e]  st == hs[e] IN
   UNION {LET md == st.models[m] IN
          Chk(Same(tr, hs, e, md.tab, md.path, Phys(o.b[m])), IF m = o.m THEN "same inputs, different state" ELSE "another model changed", m)
          \cup Chk(Same(tr, hs, e, md.sv.tab, md.sv.path, Phys(o.sv[m])), "saved state differs", m)
          : m \in 1..Len(st.models)}
   \cup UNION {Chk(Same(tr, hs, e, st.snaps[s].tab, st.snaps[s].path, Phys(o.snaps[s])), "saved arrays altered", s) : s \in 1..Len(o.snaps)}
   \cup (IF o.op = "load" THEN Chk(FEq(o.b[o.m].t, st.models[o.m].t), "time restored", o.m) ELSE {})

Eq9(a, b) == FClose(a, b, Ten(-9), FMax(FAbs(a), FAbs(b)), Ten(-9))
\* an iterated step obeys the equations of one step, linearised about the iterate before the last
IterJudge(tr, o, e) ==
   LET net == tr.nets[o.net]  u == tr.U[o.net][o.u]  m == Len(o.alt)
       s == o.alt[1]  it == o.alt[m - 1]  s2 == o.alt[m]
       g == Geometry(net, it)  x == Known(net, g, s, it, u, s2) IN
   F01(net, g, s, it, u, s2, x) \cup F02(net, g, s, it, u, s2, x) \cup F03(net, g, s, it, u, s2, x) \cup F04(net, g, s, it, u, s2, x)
Steady(p) == Finite(p) /\ \A v \in {p.H, p.h, p.Q, p.Qu, p.Qd} : \A i \in 1..Len(v) : FAbs(v[i]) \preceq 1000
LFails12(tr, hs, e) ==
   LET o == tr.ops[e]  st == hs[e] IN
   UNION {LET md == st.models[m] IN
          Chk(Eq9(o.b[m].t, md.t), "time", m) \cup Chk(o.b[m].it = md.n, "count", m)
          \cup Chk(Eq9(o.sv[m].t, md.sv.t), "time of the saved state", m)
          : m \in 1..Len(st.models)}
   \* alt[1] is the state before, alt[m + 1] that after m iterations
   \cup (IF o.op = "step" /\ Len(o.alt) > 1
         THEN LET u == tr.U[o.net][o.u]  Hs == [i \in 1..Len(o.alt) - 1 |-> o.alt[i + 1].H]
                  m == Iterations(o.alt[1].H, Hs, u.n, u.tol) IN
              Chk(o.el = m, "number of iterations", o.m)
              \cup Chk(Phys(o.b[o.m]) = Phys(o.alt[m + 1]), "state after the iterations", o.m)
              \cup Chk(Agree(Phys(o.sv[o.m]), Phys(o.alt[1])), "state saved is the one before the step", o.m)
              \cup (IF ~tr.mobile /\ \A q \in 1..Len(o.alt) : Steady(o.alt[q]) THEN IterJudge(tr, o, e) ELSE {})
         ELSE {})
   \cup (IF o.op = "step" THEN Chk(Same(tr, hs, e, st.models[o.m].sv.tab, st.models[o.m].sv.path, Phys(o.sv[o.m])), "state saved is the one before the step", o.m) ELSE {})
   \cup (IF o.op = "spin" THEN Chk(Same(tr, hs, e, st.models[o.m].tab, st.models[o.m].path, Phys(o.b[o.m])), "spin-up is a number of ordinary steps", o.m) ELSE {})

LSteps(tr) == Len(tr.ops)
LFails(tr, e) == LET hs == History(tr.ops, e) IN IF Prop = "C11" THEN LFails11(tr, hs, e) ELSE LFails12(tr, hs, e)
=============================================================================
