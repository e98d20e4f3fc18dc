-------------------------------- MODULE Judge --------------------------------
(***************************************************************************)
(* What C01-C08 say of one step s -> s2 of a network with inputs u, as     *)
(* sets of what is wrong.  The same judgements are applied to steps of the *)
(* specification (MC_Hydraulics) and to steps taken by the code            *)
(* (TV_Hydraulics).  `it` is the iterate the step was linearised about, g  *)
(* its geometry, x the values of the unknowns (Known).                     *)
(***************************************************************************)
EXTENDS Hydraulics

Tol(net) == IF net.meth = "lsq" THEN Ten(-4) ELSE Ten(-5)   \* least squares squares the condition of the equations
TolAbs == Ten(-8)
Eq7(a, b) == FClose(a, b, Ten(-7), FMax(FAbs(a), FAbs(b)), Ten(-10))

FinVec(v) == \A i \in 1..Len(v) : FFinite(v[i])
Finite(s) == FinVec(s.H) /\ FinVec(s.h) /\ FinVec(s.Q) /\ FinVec(s.Qu) /\ FinVec(s.Qd) /\ FinVec(s.Qo) /\ FinVec(s.Qw) /\ FinVec(s.Qp)

\* C01: internal junctions and superlink ends.  A flow that collapses within the step (an end running dry) is only known
\* to the rounding of the flow it collapsed from.
FlowTol(net, s, s2, k) == LET q == net.sl[k] IN
   TolAbs \oplus ((3 \otimes Ten(-5)) \otimes FMaxOf([i \in 1..(q.in_ - q.i1 + 1) |-> FMax(FAbs(s.Q[q.i1 + i - 1]), FAbs(s2.Q[q.i1 + i - 1]))]
                                              \o << FAbs(s.Qu[k]), FAbs(s.Qd[k]), FAbs(s2.Qu[k]), FAbs(s2.Qd[k]) >>))
\* a film of water racing at more than 1 km/s is a run that has become unstable
Sensible(net, g, it, k) == \A i \in net.sl[k].i1..net.sl[k].in_ : FAbs(it.Q[i]) \preceq (1000 \otimes g.lk[i].A)
\* The depth behind an end reported at the minimum is implied by the flow through the end loss.  Of a flow that collapsed
\* only the rounding of what it was is left; where that is worth more than a micrometre nothing is known of the depth.
Spread(row, v) == FMaxOf(<<F(0)>> \o [q \in 1..Len(row.x) |-> IF row.x[q][1] = v THEN FAbs(row.x[q][2]) ELSE F(0)])
Rounding(net, s, s2, k) == Ten(-5) \otimes (Ten(-7) \otimes (FlowTol(net, s, s2, k) \ominus TolAbs))
BlindU(net, g, s, it, u, s2, k) == AtMin(net, s2, net.sl[k].I1) /\ (Spread(EndHRowU(net, g, s, it, u, k), XU(net, k)) \otimes Rounding(net, s, s2, k)) \succ Ten(-6)
BlindD(net, g, s, it, u, s2, k) == AtMin(net, s2, net.sl[k].IN) /\ (Spread(EndHRowD(net, g, s, it, u, k), XD(net, k)) \otimes Rounding(net, s, s2, k)) \succ Ten(-6)
F01(net, g, s, it, u, s2, x) ==
   LET ok(k) == ~Held(net, s2, k) /\ Sensible(net, g, it, k)
       ft == TLCEval([k \in 1..NK(net) |-> FlowTol(net, s, s2, k)]) IN
   UNION ({Chk(Holds(ContRow(net, g, s, it, u, I), x, Tol(net), ft[net.jn[I].k]), "cont", I) : I \in {I \in Interior(net) : ok(net.jn[I].k)}}
          \cup {Chk(Holds(UpRow(net, g, s, it, u, k), x, Tol(net), ft[k]), "upstream end", k) : k \in {k \in 1..NK(net) : ok(k) /\ ~BlindU(net, g, s, it, u, s2, k)}}
          \cup {Chk(Holds(DnRow(net, g, s, it, u, k), x, Tol(net), ft[k]), "downstream end", k) : k \in {k \in 1..NK(net) : ok(k) /\ ~BlindD(net, g, s, it, u, s2, k)}})
\* C02: superjunctions
Neighbours(net, j) == {net.sl[k].jd : k \in {k \in 1..NK(net) : net.sl[k].ju = j}} \cup {net.sl[k].ju : k \in {k \in 1..NK(net) : net.sl[k].jd = j}}
   \cup UNION {({net.o[i].ju, net.o[i].jd} \cap (IF j \in {net.o[i].ju, net.o[i].jd} THEN 1..NJ(net) ELSE {})) : i \in 1..Len(net.o)}
   \cup UNION {({net.w[i].ju, net.w[i].jd} \cap (IF j \in {net.w[i].ju, net.w[i].jd} THEN 1..NJ(net) ELSE {})) : i \in 1..Len(net.w)}
   \cup UNION {({net.p[i].ju, net.p[i].jd} \cap (IF j \in {net.p[i].ju, net.p[i].jd} THEN 1..NJ(net) ELSE {})) : i \in 1..Len(net.p)}
Free02(net, s2) == {j \in 1..NJ(net) : ~net.sj[j].bc /\ \A n \in Neighbours(net, j) \cup {j} : ~HeadHeld(net, s2, n)}
F02(net, g, s, it, u, s2, x) ==
   LET sl == StructLin(net, it, s, u) IN
   UNION {Chk(Holds(SjRow(net, g, s, it, u, sl, j), x, Tol(net), TolAbs), "superjunction balance", j) : j \in Free02(net, s2)}
\* C03: links
F03(net, g, s, it, u, s2, x) ==
   LET ok == TLCEval([k \in 1..NK(net) |-> ~Held(net, s2, k) /\ Sensible(net, g, it, k)])
       sees(i) == LET k == net.lk[i].k IN ok[k] /\ (net.lk[i].first => ~BlindU(net, g, s, it, u, s2, k)) /\ (net.lk[i].last => ~BlindD(net, g, s, it, u, s2, k)) IN
   UNION {Chk(Holds(MomRow(net, g, s, it, u, i), x, Tol(net), TolAbs), "momentum", i) : i \in {i \in 1..NL(net) : sees(i)}}
\* C04: superlink ends
F04(net, g, s, it, u, s2, x) ==
   UNION {LET q == net.sl[k] IN
      (IF AtMin(net, s2, q.I1) THEN Chk(BlindU(net, g, s, it, u, s2, k) \/ x[Xh(net, q.I1)] \preceq (net.mind \oplus Ten(-6)), "upstream depth held too low", k)
       ELSE Chk(Holds(EndHRowU(net, g, s, it, u, k), x, Tol(net), Ten(-7)), "upstream depth", k))
      \cup
      (IF AtMin(net, s2, q.IN) THEN Chk(BlindD(net, g, s, it, u, s2, k) \/ x[Xh(net, q.IN)] \preceq (net.mind \oplus Ten(-6)), "downstream depth held too low", k)
       ELSE Chk(Holds(EndHRowD(net, g, s, it, u, k), x, Tol(net), Ten(-7)), "downstream depth", k))
     : k \in 1..NK(net)}
\* ... and a lake stays at rest: level tr.level everywhere, no flow
FRest(tr, s2) == LET net == tr.net
       \* flows through structures are square roots of head differences that are pure rounding
       c(a, b) == FClose(a, b, IF net.o = <<>> /\ net.w = <<>> THEN Ten(-6) ELSE Ten(-3), 1, 0)
       q(a) == FClose(a, 0, Ten(-3), 1, 0) IN
   UNION {Chk(c(s2.H[j], tr.level), "rest: head", j) : j \in 1..NJ(net)}
   \cup UNION {Chk(c(s2.h[I] \oplus net.jn[I].z, tr.level), "rest: depth", I) : I \in 1..NI(net)}
   \cup UNION {Chk(c(s2.Q[i], 0), "rest: link flow", i) : i \in 1..NL(net)}
   \cup UNION {Chk(c(s2.Qu[k], 0) /\ c(s2.Qd[k], 0), "rest: end flow", k) : k \in 1..NK(net)}
   \cup UNION {Chk(q(s2.Qo[i]), "rest: orifice flow", i) : i \in 1..Len(net.o)}
   \cup UNION {Chk(q(s2.Qw[i]), "rest: weir flow", i) : i \in 1..Len(net.w)}
\* C05: bounds
F05(net, s, it, u, s2) ==
   Chk(Finite(s2), "finite", 0)
   \cup UNION {LET b == IF u.Hbc = <<>> THEN it.H[j] ELSE u.Hbc[j]
                   e == FMin(FMax(b, Bottom(net, j)), Top(net, j)) IN
               (IF net.sj[j].bc THEN Chk(FClose(s2.H[j], e, Ten(-9), 1, 0), "prescribed head", j) ELSE {})
               \cup Chk((s2.H[j] \succeq Bottom(net, j)) /\ (s2.H[j] \preceq Top(net, j)), "head bounds", j) : j \in 1..NJ(net)}
   \cup UNION {Chk(s2.h[I] \succeq net.mind, "minimum depth", I) : I \in 1..NI(net)}
   \cup UNION {Chk(s2.h[I] \preceq net.sl[net.jn[I].k].maxd, "maximum depth", I) : I \in Interior(net)}
\* C06: flow laws
F06(net, g, s, it, u, s2) ==
   UNION {LET q == net.o[i]  Hu == s2.H[q.ju]  Hd == s2.H[q.jd]  z == net.sj[q.ju].z
              A == OrificeArea(q, it.H[q.ju], it.H[q.jd], z, u.uo[i])
              cap == g.V[IF Hu \succ Hd THEN q.ju ELSE q.jd] \oslash u.dt
          IN Chk(Eq7(s2.Qo[i], OrificeFlow(q, Hu, Hd, z, u.uo[i], A, cap)), "orifice flow", i) : i \in 1..Len(net.o)}
   \cup UNION {LET q == net.w[i] IN Chk(Eq7(s2.Qw[i], WeirFlow(q, s2.H[q.ju], s2.H[q.jd], net.sj[q.ju].z, u.uw[i])), "weir flow", i) : i \in 1..Len(net.w)}
   \cup UNION {LET q == net.p[i] IN Chk(Eq7(s2.Qp[i], PumpFlow(q, s2.H[q.ju], s2.H[q.jd], net.sj[q.ju].z, u.up[i])), "pump flow", i) : i \in 1..Len(net.p)}
\* C07: reported sections (those of the iterate the step was linearised about)
Close7(a, b) == FClose(a, b, Ten(-5), FMax(FAbs(a), FAbs(b)), Ten(-7))
F07(net, g, s2) ==
   UNION {Chk(Close7(s2.A[i], g.lk[i].A), "area", i) \cup Chk(Close7(s2.P[i], g.lk[i].P), "perimeter", i)
          \cup Chk(Close7(s2.R[i], g.lk[i].R), "radius", i) \cup Chk(Close7(s2.B[i], g.lk[i].B), "width", i) : i \in 1..NL(net)}
   \cup UNION {Chk(Close7(s2.Au[k], g.up[k].A), "upstream end area", k) \cup Chk(Close7(s2.Ad[k], g.dn[k].A), "downstream end area", k) : k \in 1..NK(net)}
\* C08: reported storage
F08(net, g, s2) ==
   UNION {Chk(Eq7(s2.As[j], g.As[j]), "storage area", j) \cup Chk(Eq7(s2.V[j], g.V[j]), "storage volume", j) : j \in 1..NJ(net)}
=============================================================================
