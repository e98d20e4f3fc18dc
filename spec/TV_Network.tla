----------------------------- MODULE TV_Network -----------------------------
(***************************************************************************)
(* Newly built models against Network (C10).  A trace has the tables raw,  *)
(* what the harness derived from them for the other checks (net), the      *)
(* state the constructor saved before its own first step (S0), the states  *)
(* S[1..n+1] from there on and the inputs U[1..n], names and positions.    *)
(***************************************************************************)
EXTENDS Network, Judge, Conform

Same(a, b, exact, close) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : (\A f \in exact : a[i][f] = b[i][f]) /\ (\A f \in close : N9(a[i][f], b[i][f]))
SameNet(a, b) ==
   /\ Same(a.sl, b.sl, {"ju", "jd", "I1", "IN", "i1", "in_", "n"}, {"zu", "zd", "Cu", "Cd", "dxu", "dxd", "maxd"})
   /\ Same(a.lk, b.lk, {"k", "I", "fm", "sh", "tr", "ctrl", "first", "last", "g"}, {"dx", "n", "Ac", "C", "So", "Q0"})
   /\ Same(a.jn, b.jn, {"k", "pos", "n"}, {"As", "z", "h0"})
   /\ a.sj = b.sj /\ a.tabs = b.tabs /\ a.trs = b.trs /\ a.w = b.w /\ a.p = b.p /\ Same(a.o, b.o, {"ju", "jd", "C", "z", "ymax", "side", "oneway", "sh"}, {})
   /\ \A i \in 1..Len(a.o) : FVecClose(a.o[i].g, b.o[i].g, Ten(-12), F(0))
   /\ a.mind = b.mind /\ a.bcm = b.bcm /\ a.em = b.em /\ a.meth = b.meth /\ a.damp = b.damp

All(net, g, s, u, s2) ==
   IF ~Finite(s2) THEN {<<"not finite", 0>>} ELSE
   LET x == Known(net, g, s, s, u, s2) IN
   F01(net, g, s, s, u, s2, x) \cup F02(net, g, s, s, u, s2, x) \cup F03(net, g, s, s, u, s2, x) \cup F04(net, g, s, s, u, s2, x)
   \cup F05(net, s, s, u, s2) \cup F06(net, g, s, s, u, s2) \cup F07(net, g, s2) \cup F08(net, g, s2)

\* The constructor's microsecond step loses the depths of superlinks that start with reversed flow (finding K02):
\* with dt this small the recursion h[I] = (Q[i] - Y - Z h[N+1]) / X multiplies rounding by (gA + E|u|) / gA per junction.
Reversed(net, k) == \E i \in net.sl[k].i1..net.sl[k].in_ : net.lk[i].Q0 \prec 0
Marked(net, f) == LET k == CASE f[1] = "cont" -> net.jn[f[2]].k [] f[1] = "momentum" -> net.lk[f[2]].k
                            [] f[1] \in {"upstream end", "downstream end", "upstream depth", "downstream depth", "upstream depth held too low", "downstream depth held too low"} -> f[2]
                            [] OTHER -> 0
                  IN IF k > 0 /\ Reversed(net, k) THEN <<"reversed start: " \o f[1], f[2]>> ELSE f

\* a model that could not be built has no states: only its tables are read
NSteps(tr) == IF tr.S = <<>> THEN IF tr.tables.sj = <<>> THEN 0 ELSE 1 ELSE IF tr.calm THEN Len(tr.U) + 3 ELSE 2
NFails(tr, n) ==
   LET net == Build(tr.tables)  i0 == Initial(net) IN
   CASE n = 1 -> Chk(SameNet(net, tr.net), "the harness reads the tables differently", 0)
                 \cup UNION {Chk(ChannelOk(tr.tables, net, k), "channel", k) : k \in 1..NK(net)}
   [] n = 2 -> LET V(a, b, lab) == Chk(FVecClose(a, b, Ten(-12), Ten(-12)), lab, 0)  z == tr.S0 IN
        (IF z = <<>> THEN {} ELSE V(z.H, i0.H, "initial heads") \cup V(z.h, i0.h, "initial depths") \cup V(z.Q, i0.Q, "initial flows") \cup V(z.Qu, i0.Qu, "initial end flows")
           \cup V(z.Qd, i0.Qd, "initial end flows") \cup V(z.Qo, i0.Qo, "initial orifice flows") \cup V(z.Qw, i0.Qw, "initial weir flows") \cup V(z.Qp, i0.Qp, "initial pump flows"))
        \cup Chk(FVecClose(tr.x, [I \in 1..NI(net) |-> net.jn[I].x], Ten(-9), Ten(-9)), "positions of junctions", 0)
        \cup V(tr.zj, [j \in 1..NJ(net) |-> net.sj[j].z], "bottoms") \cup V(tr.zu, [k \in 1..NK(net) |-> net.sl[k].zu], "upstream ends") \cup V(tr.zd, [k \in 1..NK(net) |-> net.sl[k].zd], "downstream ends")
        \cup Chk(tr.names = <<>> \/ tr.names = [j \in 1..NJ(net) |-> tr.tables.sj[j].name], "superjunction names", 0)
        \cup Chk(tr.knames = <<>> \/ tr.knames = [k \in 1..NK(net) |-> tr.tables.sl[k].name], "superlink names", 0)
        \cup Chk(FEq(tr.S[1].t, 0) /\ tr.S[1].it = 0, "time and count", 0)
   [] n = 3 -> {Marked(net, f) : f \in All(net, Geometry(net, i0), i0, NoInput(net, Ten(-6)), tr.S[1])}
   [] OTHER -> LET s == tr.S[n - 3] IN All(net, Geometry(net, s), s, tr.U[n - 3], tr.S[n - 2])
=============================================================================
