---------------------------- MODULE TV_Hydraulics ----------------------------
(***************************************************************************)
(* Recorded runs of the hydraulic model against Hydraulics.  A trace has   *)
(* the network, states S[1..n+1], inputs U[1..n] and iterates IT[1..n].    *)
(***************************************************************************)
EXTENDS Judge, Conform

HFails(tr, n) ==
   LET net == tr.net  s == tr.S[n]  it == tr.IT[n]  u == tr.U[n]  s2 == tr.S[n + 1] IN
   IF ~Finite(s2) THEN IF Prop = "C05" THEN {<<"finite", 0>>} ELSE {}
   ELSE IF Prop = "C05" THEN F05(net, s, it, u, s2)
   ELSE
   LET g == Geometry(net, it)
       x == Known(net, g, s, it, u, s2)
   IN CASE Prop = "C01" -> F01(net, g, s, it, u, s2, x)
        [] Prop = "C02" -> F02(net, g, s, it, u, s2, x)
        [] Prop = "C03" -> F03(net, g, s, it, u, s2, x)
        [] Prop = "C04" -> F04(net, g, s, it, u, s2, x) \cup (IF tr.rest THEN FRest(tr, s2) ELSE {})
        [] Prop = "C06" -> F06(net, g, s, it, u, s2)
        [] Prop = "C07" -> F07(net, g, s2)
        [] Prop = "C08" -> F08(net, g, s2)

HSteps(tr) == Len(tr.U)
=============================================================================
