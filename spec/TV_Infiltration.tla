--------------------------- MODULE TV_Infiltration ---------------------------
(***************************************************************************)
(* Recorded runs of the infiltration model against Infiltration.  A trace  *)
(* has the soils p[1..N] and steps ops[1..n], each with the states before  *)
(* and after of every element.  In a coupled step the runoff is the inflow *)
(* of the hydraulic model, whose step is judged as in C01.                 *)
(***************************************************************************)
EXTENDS Infiltration, Judge, Conform

Elem(p, a, i, dt, b, j) ==
   IF ~(FFinite(b.F) /\ FFinite(b.f) /\ FFinite(b.d) /\ FFinite(b.Q) /\ FFinite(b.thu) /\ FFinite(b.th)) THEN {<<"not finite", j>>}
   ELSE Chk(Splits(p, a, i, dt, b), "water is split exactly", j)
        \cup Chk(Limits(p, a, i, dt, b), "limits", j)
        \cup Chk(Accumulates(a, i, dt, b), "accumulation", j)
        \cup Chk(Recovers(a, i, dt, b), "recovery only when dry", j)
        \cup Chk(Follows(p, a, i, dt, b), "Green-Ampt", j)

Coupled(tr, o) ==
   LET net == tr.net  g == Geometry(net, o.s)  x == Known(net, g, o.s, o.s, o.u, o.s2) IN
   Chk(o.before = o.after, "infiltration changes the depths of the hydraulic model", 0)
   \cup Chk(Len(o.u.Q0) = Len(o.b) /\ \A j \in 1..Len(o.b) : FEq(o.u.Q0[j], o.b[j].Q), "runoff enters the network", 0)
   \cup F01(net, g, o.s, o.s, o.u, o.s2, x)

ISteps(tr) == Len(tr.ops)
IFails(tr, n) == LET o == tr.ops[n] IN
   UNION {Elem(tr.p[j], o.a[j], o.i[j], o.dt, o.b[j], j) : j \in 1..Len(tr.p)}
   \cup Chk(FEq(o.t2, o.t \oplus o.dt) /\ o.n2 = o.n + 1, "time and step count", 0)
   \cup (IF o.coupled THEN Coupled(tr, o) ELSE {})
=============================================================================
