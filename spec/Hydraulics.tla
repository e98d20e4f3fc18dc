----------------------------- MODULE Hydraulics -----------------------------
(***************************************************************************)
(* One time step of the hydraulic model (docs/governing-equations.md).     *)
(*                                                                         *)
(* Static description of a network, net:                                   *)
(*   sj  superjunctions (bottom z, storage, maximum depth, fixed head?)    *)
(*   sl  superlinks     (joins ju -> jd; ends at elevations zu, zd; links  *)
(*                       i1..in_, internal junctions I1..IN)               *)
(*   lk  links          (length, section, friction, control, bed slope)    *)
(*   jn  internal junctions (bottom, own surface area)                     *)
(*   o, w, p  orifices, weirs, pumps                                       *)
(* A state s: H heads, h depths, Q link flows, Qu/Qd flows at the ends of  *)
(* superlinks, Qo/Qw/Qp flows through structures, t time.                  *)
(* An input u: dt, Qin, Q0, Hbc, uo, uw, up.                               *)
(*                                                                         *)
(* A step is described by equations that are linear in the new state; the  *)
(* coefficients come from the previous state `s` and from the iterate `it` *)
(* about which the nonlinear terms are linearised (`it` = `s` when the     *)
(* step is not iterated).  Each equation is a record                       *)
(*    [lab, id, x : sequence of <<unknown, coefficient>>, r : terms]       *)
(* meaning  sum(coefficient * unknown) = sum(terms).  The same equations   *)
(* are used in both directions: Solve computes the next state of the       *)
(* specification, and Residual judges a step the code has taken.           *)
(***************************************************************************)
EXTENDS Structures, Storage

NJ(net) == Len(net.sj)
NI(net) == Len(net.jn)
NL(net) == Len(net.lk)
NK(net) == Len(net.sl)
\* numbering of the unknowns of a step
XH(net, j) == j
Xh(net, I) == NJ(net) + I
XQ(net, i) == NJ(net) + NI(net) + i
XU(net, k) == NJ(net) + NI(net) + NL(net) + k
XD(net, k) == NJ(net) + NI(net) + NL(net) + NK(net) + k
NX(net) == NJ(net) + NI(net) + NL(net) + 2 * NK(net)

NoSurvey == [x |-> <<>>, y |-> <<>>, m |-> 2]
Tr(net, l) == IF l.tr = 0 THEN NoSurvey ELSE net.trs[l.tr]

\* ------------------------------------------------------------- geometry at the iterate
LinkSection(net, it, i) == LET l == net.lk[i] IN Section(l.sh, l.g, Tr(net, l), (it.h[l.I] \oplus it.h[l.I + 1]) \oslash 2)
ThetaU(net, it, k) == IF it.H[net.sl[k].ju] \succeq net.sl[k].zu THEN 1 ELSE 0
ThetaD(net, it, k) == IF it.H[net.sl[k].jd] \succeq net.sl[k].zd THEN 1 ELSE 0
EndDepthU(net, it, k) == LET q == net.sl[k] IN (it.h[q.I1] \oplus (ThetaU(net, it, k) \otimes (it.H[q.ju] \ominus q.zu))) \oslash 2
EndDepthD(net, it, k) == LET q == net.sl[k] IN (it.h[q.IN] \oplus (ThetaD(net, it, k) \otimes (it.H[q.jd] \ominus q.zd))) \oslash 2
EndSectionU(net, it, k) == LET l == net.lk[net.sl[k].i1] IN Section(l.sh, l.g, Tr(net, l), EndDepthU(net, it, k))
EndSectionD(net, it, k) == LET l == net.lk[net.sl[k].in_] IN Section(l.sh, l.g, Tr(net, l), EndDepthD(net, it, k))
\* All geometry of an iterate at once.
Geometry(net, it) == TLCEval([
   lk |-> TLCEval([i \in 1..NL(net) |-> LinkSection(net, it, i)]),
   up |-> TLCEval([k \in 1..NK(net) |-> EndSectionU(net, it, k)]),
   dn |-> TLCEval([k \in 1..NK(net) |-> EndSectionD(net, it, k)]),
   As |-> TLCEval([j \in 1..NJ(net) |-> StorageArea(net.sj[j], net.tabs, StorageDepth(net.sj[j], it.H[j], net.mind))]),
   V  |-> TLCEval([j \in 1..NJ(net) |-> StorageVolume(net.sj[j], net.tabs, StorageDepth(net.sj[j], it.H[j], net.mind))])])

\* ------------------------------------------------------------- friction
\* coefficient of Q' in g * A * (friction slope) * length, linearised about flow Q
Friction(fm, n, Q, dx, A, R) ==
   IF (A \preceq 0) \/ FEq(Q, 0) THEN F(0)
   ELSE CASE fm = "cm" -> (((G \otimes Sq(n)) \otimes (FAbs(Q) \otimes dx)) \oslash A) \oslash FPow(R, FRat(4, 3))
          [] fm = "hw" -> ((((FRat(1354, 1000) \otimes G) \otimes (FPow(FAbs(Q), FRat(85, 100)) \otimes dx)) \oslash FPow(A, FRat(85, 100)))
                             \oslash FPow(n, FRat(185, 100))) \oslash FPow(R, FRat(11655, 10000))
          [] fm = "dw" -> LET Re == ((FAbs(Q) \oslash A) \otimes (4 \otimes R)) \oslash (FRat(10034, 10000) \otimes FRat(1, 1000000))
                              den == FLog10((n \oslash (FRat(148, 10) \otimes R)) \oplus (FRat(574, 100) \oslash FPow(Re, FRat(9, 10))))
                              f == FRat(1, 4) \oslash Sq(den)
                          IN (((FRat(1274, 100000) \otimes G) \otimes (f \otimes (FAbs(Q) \otimes dx))) \oslash A) \oslash R

\* ------------------------------------------------------------- link velocities
U(g, it, i) == FSDiv(it.Q[i], g.lk[i].A)
Mix(net, g, it, i, j) == \* velocity at the junction between links i and j = i + 1
   LET a == net.lk[i].dx  b == net.lk[j].dx IN ((b \otimes U(g, it, i)) \oplus (a \otimes U(g, it, j))) \oslash (a \oplus b)
Uup(net, g, it, i) == IF net.lk[i].first THEN U(g, it, i) ELSE Mix(net, g, it, i - 1, i)
Udn(net, g, it, i) == IF net.lk[i].last THEN U(g, it, i) ELSE Mix(net, g, it, i, i + 1)
\* fraction of the inertial terms kept
Sigma(net, g, it, i) ==
   IF ~net.damp THEN F(1)
   ELSE LET s == g.lk[i]
            Fr == IF s.A \preceq 0 THEN F(0) ELSE FAbs(U(g, it, i)) \otimes FSqrt(s.B \oslash (G \otimes s.A))
        IN IF Fr \prec Half THEN F(1) ELSE IF Fr \succ 1 THEN F(0) ELSE 2 \otimes (1 \ominus Fr)

\* ------------------------------------------------------------- continuity of internal junctions
\* free surface of internal junction I, without its own surface area: the adjacent half-lengths times their widths
Surface(net, g, I) ==
   LET j == net.jn[I]  q == net.sl[j.k]  i == q.i1 + j.pos IN     \* i: the link that starts at I
   ((IF j.pos < j.n THEN g.lk[i].B \otimes net.lk[i].dx ELSE g.dn[j.k].B \otimes q.dxd) \oslash 2)
   \oplus ((IF j.pos > 0 THEN g.lk[i-1].B \otimes net.lk[i-1].dx ELSE g.up[j.k].B \otimes q.dxu) \oslash 2)
EI(net, g, I, dt) == (Surface(net, g, I) \oplus net.jn[I].As) \oslash dt

\* ------------------------------------------------------------- the equations
Row(lab, id, x, r) == [lab |-> lab, id |-> id, x |-> x, r |-> r]

\* link momentum
MomRow(net, g, s, it, u, i) ==
   LET l == net.lk[i]  q == net.sl[l.k]  sec == g.lk[i]  sg == Sigma(net, g, it, i)  dt == u.dt
       a == FNeg(FMax(Uup(net, g, it, i), 0)) \otimes sg
       c == FNeg(FMax(FNeg(Udn(net, g, it, i)), 0)) \otimes sg
       inert == (l.dx \oslash dt) \otimes sg
       ctl == IF l.ctrl THEN (l.C \otimes (sec.A \otimes FAbs(it.Q[i]))) \oslash Sq(l.Ac) ELSE F(0)
       fr == Friction(l.fm, l.n, it.Q[i], l.dx, sec.A, sec.R)
       gA == G \otimes sec.A
       Eu == EI(net, g, l.I, dt)  Ed == EI(net, g, l.I + 1, dt)
       Du == u.Q0[l.I] \oplus (Eu \otimes s.h[l.I])  Dd == u.Q0[l.I+1] \oplus (Ed \otimes s.h[l.I+1])
   IN Row("mom", i,
      << <<XQ(net, i), inert>>, <<XQ(net, i), fr>>, <<XQ(net, i), ctl>>, <<XQ(net, i), FNeg(a)>>, <<XQ(net, i), FNeg(c)>>,
         <<Xh(net, l.I), FNeg(gA)>>, <<Xh(net, l.I + 1), gA>> >>
      \o (IF l.first THEN << <<XQ(net, i), a>>, <<Xh(net, l.I), a \otimes Eu>> >> ELSE << <<XQ(net, i - 1), a>> >>)
      \o (IF l.last THEN << <<XQ(net, i), c>>, <<Xh(net, l.I + 1), FNeg(c \otimes Ed)>> >> ELSE << <<XQ(net, i + 1), c>> >>),
      << s.Q[i] \otimes inert, (gA \otimes l.So) \otimes l.dx >>
      \o (IF l.first THEN <<a \otimes Du>> ELSE <<>>) \o (IF l.last THEN <<FNeg(c \otimes Dd)>> ELSE <<>>))

\* interior junctions
ContRow(net, g, s, it, u, I) ==
   LET j == net.jn[I]  i == net.sl[j.k].i1 + j.pos  E == EI(net, g, I, u.dt) IN
   Row("cont", I, << <<Xh(net, I), E>>, <<XQ(net, i), F(1)>>, <<XQ(net, i - 1), F(-1)>> >>, <<u.Q0[I], E \otimes s.h[I]>>)
\* first and last junction: flow into and out of the superlink
UpRow(net, g, s, it, u, k) ==
   LET q == net.sl[k]  E == EI(net, g, q.I1, u.dt) IN
   IF net.em = "o" THEN Row("endq", k, << <<XU(net, k), F(1)>>, <<XQ(net, q.i1), F(-1)>> >>, <<>>)
   ELSE Row("endq", k, << <<Xh(net, q.I1), E>>, <<XQ(net, q.i1), F(1)>>, <<XU(net, k), F(-1)>> >>, <<u.Q0[q.I1], E \otimes s.h[q.I1]>>)
DnRow(net, g, s, it, u, k) ==
   LET q == net.sl[k]  E == EI(net, g, q.IN, u.dt) IN
   IF net.em = "o" THEN Row("endq", k, << <<XD(net, k), F(1)>>, <<XQ(net, q.in_), F(-1)>> >>, <<>>)
   ELSE Row("endq", k, << <<Xh(net, q.IN), E>>, <<XD(net, k), F(1)>>, <<XQ(net, q.in_), F(-1)>> >>, <<u.Q0[q.IN], E \otimes s.h[q.IN]>>)

\* depth at the ends
EndLoss(C, A, Q) == IF FEq(A, 0) THEN F(0) ELSE (C \otimes FAbs(Q)) \oslash ((2 \otimes G) \otimes Sq(A))
EndHRowU(net, g, s, it, u, k) ==
   LET q == net.sl[k]  l == net.lk[q.i1]  sec == g.up[k]  th == ThetaU(net, it, k)
       loss == EndLoss(q.Cu, sec.A, it.Qu[k])
       base == << <<Xh(net, q.I1), F(1)>>, <<XH(net, q.ju), F(-th)>>, <<XU(net, k), loss>> >>
       r == << FNeg(th \otimes q.zu) >>
       gA == G \otimes sec.A
       inert == FSDiv(q.dxu, gA \otimes u.dt)
       fr == FSDiv(Friction(l.fm, l.n, it.Qu[k], q.dxu, sec.A, sec.R), gA)
   IN IF net.bcm = "z" THEN Row("endh", k, base, r)
      ELSE Row("endh", k, base \o << <<XU(net, k), inert>>, <<XU(net, k), fr>> >>, r \o << q.dxu \otimes q.Sou, s.Qu[k] \otimes inert >>)
EndHRowD(net, g, s, it, u, k) ==
   LET q == net.sl[k]  l == net.lk[q.in_]  sec == g.dn[k]  th == ThetaD(net, it, k)
       loss == EndLoss(q.Cd, sec.A, it.Qd[k])
       base == << <<Xh(net, q.IN), F(1)>>, <<XH(net, q.jd), F(-th)>>, <<XD(net, k), FNeg(loss)>> >>
       r == << FNeg(th \otimes q.zd) >>
       gA == G \otimes sec.A
       inert == FSDiv(q.dxd, gA \otimes u.dt)
       fr == FSDiv(Friction(l.fm, l.n, it.Qd[k], q.dxd, sec.A, sec.R), gA)
   IN IF net.bcm = "z" THEN Row("endh", k, base, r)
      ELSE Row("endh", k, base \o << <<XD(net, k), FNeg(inert)>>, <<XD(net, k), FNeg(fr)>> >>,
               r \o << FNeg(q.dxd \otimes q.Sod), FNeg(s.Qd[k] \otimes inert) >>)

\* superjunctions
StructLin(net, it, s, u) == \* linearised structure flows, as <<from, to, linearisation>>
   LET o == [i \in 1..Len(net.o) |-> LET q == net.o[i]  Hu == it.H[q.ju]  Hd == it.H[q.jd]  z == net.sj[q.ju].z IN
               <<q.ju, q.jd, OrificeLin(q, Hu, Hd, z, u.uo[i], OrificeArea(q, Hu, Hd, z, u.uo[i]), it.Qo[i])>>]
       w == [i \in 1..Len(net.w) |-> LET q == net.w[i] IN <<q.ju, q.jd, WeirLin(q, it.H[q.ju], it.H[q.jd], net.sj[q.ju].z, u.uw[i], it.Qw[i])>>]
       p == [i \in 1..Len(net.p) |-> LET q == net.p[i] IN <<q.ju, q.jd, PumpLin(q, it.H[q.ju], it.H[q.jd], net.sj[q.ju].z, u.up[i], it.Qp[i])>>]
   IN TLCEval(o \o w \o p)
RECURSIVE Gather(_, _, _)
Gather(Op(_), S, q) == IF q > S THEN <<>> ELSE Op(q) \o Gather(Op, S, q + 1)
SjRow(net, g, s, it, u, sl, j) ==
   IF net.sj[j].bc THEN Row("bc", j, << <<XH(net, j), F(1)>> >>, << IF u.Hbc = <<>> THEN it.H[j] ELSE u.Hbc[j] >>)
   ELSE
   LET A == g.As[j] \oslash u.dt
       xiu(k) == ((net.sl[k].dxu \otimes g.up[k].B) \otimes ThetaU(net, it, k)) \oslash (2 \otimes u.dt)
       xid(k) == ((net.sl[k].dxd \otimes g.dn[k].B) \otimes ThetaD(net, it, k)) \oslash (2 \otimes u.dt)
       kx(k) == (IF net.sl[k].ju = j THEN << <<XU(net, k), F(1)>>, <<XH(net, j), xiu(k)>> >> ELSE <<>>)
             \o (IF net.sl[k].jd = j THEN << <<XD(net, k), F(-1)>>, <<XH(net, j), xid(k)>> >> ELSE <<>>)
       kr(k) == (IF net.sl[k].ju = j THEN << xiu(k) \otimes s.H[j] >> ELSE <<>>)
             \o (IF net.sl[k].jd = j THEN << xid(k) \otimes s.H[j] >> ELSE <<>>)
       sx(q) == LET a == sl[q][1]  b == sl[q][2]  m == sl[q][3] IN
                (IF a = j THEN << <<XH(net, a), m.a>>, <<XH(net, b), m.b>> >> ELSE <<>>)
                \o (IF b = j THEN << <<XH(net, a), FNeg(m.a)>>, <<XH(net, b), FNeg(m.b)>> >> ELSE <<>>)
       sr(q) == LET a == sl[q][1]  b == sl[q][2]  m == sl[q][3] IN
                (IF a = j THEN << FNeg(m.c) >> ELSE <<>>) \o (IF b = j THEN << m.c >> ELSE <<>>)
   IN Row("sj", j, << <<XH(net, j), A>> >> \o Gather(kx, NK(net), 1) \o Gather(sx, Len(sl), 1),
                   << A \otimes s.H[j], u.Qin[j] >> \o Gather(kr, NK(net), 1) \o Gather(sr, Len(sl), 1))

Interior(net) == {I \in 1..NI(net) : net.jn[I].pos > 0 /\ net.jn[I].pos < net.jn[I].n}

\* ------------------------------------------------------------- next state of the specification
Bottom(net, j) == net.sj[j].z
Top(net, j) == net.sj[j].z \oplus net.sj[j].maxd
\* Solves the equations; heads are held within their bounds and then the superlinks follow the held heads.
Equations(net, g, s, it, u, heads) ==
   LET sl == StructLin(net, it, s, u)
       lkr(k) == << UpRow(net, g, s, it, u, k), DnRow(net, g, s, it, u, k), EndHRowU(net, g, s, it, u, k), EndHRowD(net, g, s, it, u, k) >>
       mr(i) == << MomRow(net, g, s, it, u, i) >>
       cr(I) == IF I \in Interior(net) THEN << ContRow(net, g, s, it, u, I) >> ELSE <<>>
       jr(j) == << IF heads = <<>> THEN SjRow(net, g, s, it, u, sl, j) ELSE Row("held", j, << <<XH(net, j), F(1)>> >>, << heads[j] >>) >>
   IN Gather(lkr, NK(net), 1) \o Gather(mr, NL(net), 1) \o Gather(cr, NI(net), 1) \o Gather(jr, NJ(net), 1)
Next1(net, s, it, u) ==
   LET g == Geometry(net, it)
       x == FSolve(Equations(net, g, s, it, u, <<>>), NX(net))
       H == TLCEval([j \in 1..NJ(net) |-> FMin(FMax(x[j], Bottom(net, j)), Top(net, j))])
       y == IF \A j \in 1..NJ(net) : FEq(H[j], x[j]) THEN x ELSE FSolve(Equations(net, g, s, it, u, H), NX(net))
   IN [t |-> s.t \oplus u.dt, H |-> H,
       h |-> TLCEval([I \in 1..NI(net) |-> FMax(y[Xh(net, I)], net.mind)]),
       Q |-> TLCEval([i \in 1..NL(net) |-> y[XQ(net, i)]]),
       Qu |-> TLCEval([k \in 1..NK(net) |-> y[XU(net, k)]]),
       Qd |-> TLCEval([k \in 1..NK(net) |-> y[XD(net, k)]]),
       Qo |-> TLCEval([i \in 1..Len(net.o) |-> LET q == net.o[i]  z == net.sj[q.ju].z
                 cap == g.V[IF H[q.ju] \succ H[q.jd] THEN q.ju ELSE q.jd] \oslash u.dt IN
                 OrificeFlow(q, H[q.ju], H[q.jd], z, u.uo[i], OrificeArea(q, it.H[q.ju], it.H[q.jd], z, u.uo[i]), cap)]),
       Qw |-> TLCEval([i \in 1..Len(net.w) |-> LET q == net.w[i] IN WeirFlow(q, H[q.ju], H[q.jd], net.sj[q.ju].z, u.uw[i])]),
       Qp |-> TLCEval([i \in 1..Len(net.p) |-> LET q == net.p[i] IN PumpFlow(q, H[q.ju], H[q.jd], net.sj[q.ju].z, u.up[i])])]

\* ------------------------------------------------------------- judging a step taken by the code
\* What is known of the unknowns from the new state s2.  An end depth reported at the minimum depth was held there; the
\* depth the equations hold for is then the one implied by the head of the superjunction.
EndTermsU(net, g, s, it, u, s2, k) == \* the end depth implied by the other new values
   LET r == EndHRowU(net, g, s, it, u, k)
   IN FSum(r.r \o [q \in 1..Len(r.x) - 1 |-> FNeg(r.x[q + 1][2] \otimes (IF q = 1 THEN s2.H[net.sl[k].ju] ELSE s2.Qu[k]))])
EndTermsD(net, g, s, it, u, s2, k) ==
   LET r == EndHRowD(net, g, s, it, u, k)
   IN FSum(r.r \o [q \in 1..Len(r.x) - 1 |-> FNeg(r.x[q + 1][2] \otimes (IF q = 1 THEN s2.H[net.sl[k].jd] ELSE s2.Qd[k]))])
AtMin(net, s2, I) == s2.h[I] \preceq net.mind
Known(net, g, s, it, u, s2) ==
   LET NJn == NJ(net)  n1 == NJn + NI(net)  n2 == n1 + NL(net)  n3 == n2 + NK(net)
       hval(I) == LET j == net.jn[I] IN
          IF ~AtMin(net, s2, I) THEN s2.h[I]
          ELSE IF j.pos = 0 THEN EndTermsU(net, g, s, it, u, s2, j.k)
          ELSE IF j.pos = j.n THEN EndTermsD(net, g, s, it, u, s2, j.k)
          ELSE s2.h[I]
   IN TLCEval([v \in 1..NX(net) |-> IF v <= NJn THEN s2.H[v] ELSE IF v <= n1 THEN hval(v - NJn)
                 ELSE IF v <= n2 THEN s2.Q[v - n1] ELSE IF v <= n3 THEN s2.Qu[v - n2] ELSE s2.Qd[v - n3]])
Terms(row, x) == [q \in 1..Len(row.x) |-> row.x[q][2] \otimes x[row.x[q][1]]] \o [q \in 1..Len(row.r) |-> FNeg(row.r[q])]
Holds(row, x, tol, abs) == FBalanced(Terms(row, x), tol, abs)
\* Some depth of superlink k is held at a bound in s2.  Ends at the minimum are accounted for in Known, but the
\* least-squares method recomputes link flows from the held end depths.
Held(net, s2, k) == \E I \in (IF net.meth \in {"b", "f"} THEN (net.sl[k].I1 + 1)..(net.sl[k].IN - 1) ELSE net.sl[k].I1..net.sl[k].IN) : AtMin(net, s2, I) \/ (s2.h[I] \succeq net.sl[k].maxd)
HeadHeld(net, s2, j) == (s2.H[j] \preceq Bottom(net, j)) \/ (s2.H[j] \succeq Top(net, j))
=============================================================================
