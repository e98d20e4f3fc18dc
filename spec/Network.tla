------------------------------- MODULE Network -------------------------------
(***************************************************************************)
(* From the tables a user passes to the network of Hydraulics (C10), and   *)
(* changes of the tables that describe the same network (C09).             *)
(*                                                                         *)
(* Tables, raw: sj, sl, links, juncs, o, w, p (rows), transects, storages  *)
(* (named), internal_links, opts.  A value that is not given is <<>>.      *)
(* Rows refer to each other by position, from 0.                           *)
(***************************************************************************)
EXTENDS Hydraulics, TLC

Given(x) == x # <<>>
Opt(x, d) == IF Given(x) THEN x ELSE d

\* ------------------------------------------------------------- direction of a superlink
EndZ0(raw, s) == raw.sj[s.sj_0 + 1].z_inv \oplus s.in_offset
EndZ1(raw, s) == raw.sj[s.sj_1 + 1].z_inv \oplus s.out_offset
Turn(s) == [s EXCEPT !.sj_0 = s.sj_1, !.sj_1 = s.sj_0, !.in_offset = s.out_offset, !.out_offset = s.in_offset,
                     !.C_uk = s.C_dk, !.C_dk = s.C_uk, !.dx_uk = s.dx_dk, !.dx_dk = s.dx_uk]
\* water is taken to flow from the higher end to the lower one
Downhill(raw, s) == IF EndZ0(raw, s) \prec EndZ1(raw, s) THEN Turn(s) ELSE s

\* ------------------------------------------------------------- internals
Explicit(raw) == raw.links # <<>>
Mobile(raw) == ~Explicit(raw) /\ raw.opts.mobile_elements
\* centre position of the movable junction
Centre(dx, m) == IF m % 2 = 0 THEN dx \oslash 2 ELSE (dx \oslash 2) \oplus ((dx \oslash m) \oslash 2)
\* positions of generated junctions from the first one; the movable one is between the fixed ones
Even(dx, m) == [i \in 1..m + 1 |-> (dx \otimes (i - 1)) \oslash m]
RECURSIVE Insert(_, _)
Insert(s, x) == IF s = <<>> \/ x \prec s[1] THEN <<x>> \o s ELSE <<s[1]>> \o Insert(Tail(s), x)
Spots(raw, s) == LET m == raw.internal_links IN IF Mobile(raw) THEN Insert(Even(s.dx, m - 1), Centre(s.dx, m)) ELSE Even(s.dx, m)
MoverAt(raw, s) == IF ~Mobile(raw) THEN 0 ELSE LET sp == Spots(raw, s) IN CHOOSE i \in 1..Len(sp) : FEq(sp[i], Centre(s.dx, raw.internal_links))
EndLengths(s) == Opt(s.dx_uk, F(0)) \oplus Opt(s.dx_dk, F(0))
\* bed of superlink s (downhill) at distance x from its first junction
Bed(raw, s, x) == LET zu == EndZ0(raw, s)  zd == EndZ1(raw, s) IN
   zu \oplus (((zd \ominus zu) \otimes (Opt(s.dx_uk, F(0)) \oplus x)) \oslash (s.dx \oplus EndLengths(s)))
GenLinks(raw, s) == LET sp == Spots(raw, s) IN
   [i \in 1..raw.internal_links |-> [shape |-> s.shape, g |-> s.g, transect |-> s.transect, friction_method |-> s.friction_method, n |-> s.n,
      dx |-> sp[i + 1] \ominus sp[i], Q_0 |-> s.Q_0, ctrl |-> s.ctrl, A_c |-> s.A_c, C |-> s.C]]
GenJuncs(raw, s) == LET sp == Spots(raw, s) IN [i \in 1..Len(sp) |-> [h_0 |-> s.h_0, z_inv |-> Bed(raw, s, sp[i]), A_s |-> s.A_s]]
Of(rows, k) == SelectSeq(rows, LAMBDA r : r.k = k - 1)
LinksOf(raw, s, k) == IF Explicit(raw) THEN Of(raw.links, k) ELSE GenLinks(raw, s)
JuncsOf(raw, s, k) == IF Explicit(raw) THEN Of(raw.juncs, k) ELSE GenJuncs(raw, s)

\* ------------------------------------------------------------- sections
\* a closed section without a slot gets one of a millimetre
Slotted(sh, g) == CASE sh = "circular" /\ FEq(g[2], 0) -> [g EXCEPT ![2] = FRat(1, 1000)]
                    [] sh = "rect_closed" /\ FEq(g[3], 0) -> [g EXCEPT ![3] = FRat(1, 1000)]
                    [] sh = "force_main" /\ FEq(g[2], 0) -> [g EXCEPT ![2] = FRat(1, 1000)]
                    [] OTHER -> g
Named(list, name) == IF name = "" THEN 0 ELSE CHOOSE i \in 1..Len(list) : list[i].name = name

\* ------------------------------------------------------------- the network
DefaultC == 1 \oslash (FRat(67, 100) \otimes FRat(67, 100))
RECURSIVE Before(_, _, _)   \* number of links of superlinks before k
Before(raw, sls, k) == IF k = 1 THEN 0 ELSE Before(raw, sls, k - 1) + Len(LinksOf(raw, sls[k - 1], k - 1))
BuildSl(raw, sls, k) ==
   LET s == sls[k]  L == LinksOf(raw, s, k)  J == JuncsOf(raw, s, k)  n == Len(L)  b == Before(raw, sls, k)
       du == Opt(s.dx_uk, F(0))  dd == Opt(s.dx_dk, F(0))  zu == EndZ0(raw, s)  zd == EndZ1(raw, s) IN
   [ju |-> s.sj_0 + 1, jd |-> s.sj_1 + 1, zu |-> zu, zd |-> zd, Cu |-> Opt(s.C_uk, DefaultC), Cd |-> Opt(s.C_dk, DefaultC), dxu |-> du, dxd |-> dd,
    I1 |-> b + k, i1 |-> b + 1, in_ |-> b + n, n |-> n, maxd |-> Opt(s.max_depth, FInf),
    Sou |-> IF du \succ 0 THEN (zu \ominus J[1].z_inv) \oslash du ELSE F(0), Sod |-> IF dd \succ 0 THEN (J[n + 1].z_inv \ominus zd) \oslash dd ELSE F(0),
    dx |-> FSum([i \in 1..n |-> L[i].dx]), mov |-> MoverAt(raw, s)] @@ ("IN" :> b + k + n)
BuildLk(raw, s, sl, k) ==
   LET L == LinksOf(raw, s, k)  J == JuncsOf(raw, s, k) IN
   [i \in 1..Len(L) |-> [k |-> k, I |-> sl.I1 + i - 1, dx |-> L[i].dx, n |-> L[i].n, fm |-> L[i].friction_method, sh |-> L[i].shape,
      g |-> Slotted(L[i].shape, L[i].g), tr |-> IF L[i].shape = "irregular" THEN Named(raw.transects, L[i].transect) ELSE 0, ctrl |-> L[i].ctrl, Ac |-> L[i].A_c, C |-> L[i].C,
      So |-> (J[i].z_inv \ominus J[i + 1].z_inv) \oslash L[i].dx, Q0 |-> L[i].Q_0, first |-> i = 1, last |-> i = Len(L)]]
RECURSIVE Along(_, _)   \* positions along the superlink, its upstream end being 0
Along(L, x) == IF L = <<>> THEN <<x>> ELSE <<x>> \o Along(Tail(L), x \oplus L[1].dx)
BuildJn(raw, s, sl, k) ==
   LET L == LinksOf(raw, s, k)  J == JuncsOf(raw, s, k)  x == Along(L, sl.dxu) IN
   [i \in 1..Len(J) |-> [k |-> k, As |-> J[i].A_s, z |-> J[i].z_inv, h0 |-> J[i].h_0, pos |-> i - 1, n |-> Len(L), x |-> x[i]]]
BuildO(o) == LET plain == o.shape = "" IN
   [ju |-> o.sj_0 + 1, jd |-> o.sj_1 + 1, C |-> o.C, z |-> o.z_o, ymax |-> o.y_max, side |-> o.orientation = "side", oneway |-> o.oneway,
    sh |-> IF plain THEN "rect_open" ELSE o.shape,
    g |-> (IF plain THEN <<FSqrt(o.A), FSqrt(o.A), F(0)>> ELSE <<o.g1, o.g2, o.g3>>) \o <<F(0), F(0), F(0), F(0)>>]
Build(raw) ==
   LET sls == TLCEval([k \in 1..Len(raw.sl) |-> Downhill(raw, raw.sl[k])])
       sl == TLCEval([k \in 1..Len(sls) |-> BuildSl(raw, sls, k)])
       lk(k) == BuildLk(raw, sls[k], sl[k], k)
       jn(k) == BuildJn(raw, sls[k], sl[k], k)
   IN TLCEval([sl |-> sl, lk |-> Gather(lk, Len(sls), 1), jn |-> Gather(jn, Len(sls), 1),
      sj |-> [j \in 1..Len(raw.sj) |-> LET s == raw.sj[j] IN [z |-> s.z_inv, h0 |-> s.h_0, maxd |-> Opt(s.max_depth, FInf), bc |-> s.bc, kind |-> s.storage,
                 a |-> s.a, b |-> s.b, c |-> s.c, tab |-> IF s.storage = "tabular" THEN Named(raw.storages, s.table) ELSE 0]],
      tabs |-> [i \in 1..Len(raw.storages) |-> [h |-> raw.storages[i].h, A |-> raw.storages[i].A]],
      trs |-> [i \in 1..Len(raw.transects) |-> [x |-> raw.transects[i].x, y |-> raw.transects[i].y, m |-> raw.transects[i].m]],
      o |-> [i \in 1..Len(raw.o) |-> BuildO(raw.o[i])],
      w |-> [i \in 1..Len(raw.w) |-> LET w == raw.w[i] IN [ju |-> w.sj_0 + 1, jd |-> w.sj_1 + 1, Cr |-> w.Cr, Ct |-> w.Ct, L |-> w.L, s |-> w.s, z |-> w.z_w, ymax |-> w.y_max]],
      p |-> [i \in 1..Len(raw.p) |-> LET p == raw.p[i] IN [ju |-> p.sj_0 + 1, jd |-> p.sj_1 + 1, z |-> p.z_p, a |-> p.a_p, b |-> p.b_p, c |-> p.c_p, hi |-> p.dH_max, lo |-> p.dH_min]],
      mind |-> raw.opts.min_depth, bcm |-> raw.opts.bc_method, em |-> raw.opts.end_method, meth |-> raw.opts.method, damp |-> raw.opts.inertial_damping])

\* ------------------------------------------------------------- initial state
Initial(net) == [t |-> F(0),
   H |-> [j \in 1..NJ(net) |-> FMax(net.sj[j].z \oplus net.sj[j].h0, net.sj[j].z \oplus net.mind)],
   h |-> [I \in 1..NI(net) |-> FMax(net.jn[I].h0, net.mind)],
   Q |-> [i \in 1..NL(net) |-> net.lk[i].Q0],
   Qu |-> [k \in 1..NK(net) |-> net.lk[net.sl[k].i1].Q0], Qd |-> [k \in 1..NK(net) |-> net.lk[net.sl[k].in_].Q0],
   Qo |-> [i \in 1..Len(net.o) |-> F(0)], Qw |-> [i \in 1..Len(net.w) |-> F(0)], Qp |-> [i \in 1..Len(net.p) |-> F(0)]]
\* inputs that are not given: nothing flows in, controls are shut
NoInput(net, dt) == [dt |-> dt, Qin |-> [j \in 1..NJ(net) |-> F(0)], Q0 |-> [I \in 1..NI(net) |-> F(0)], Hbc |-> <<>>,
   uo |-> [i \in 1..Len(net.o) |-> F(0)], uw |-> [i \in 1..Len(net.w) |-> F(0)], up |-> [i \in 1..Len(net.p) |-> F(0)]]

\* ------------------------------------------------------------- well-formed channels
N9(a, b) == FClose(a, b, Ten(-9), FMax(FAbs(a), FAbs(b)), Ten(-9))
\* links have positive lengths that add up, positions increase, and a generated bed is straight between the ends
ChannelOk(raw, net, k) ==
   LET q == net.sl[k]  s == Downhill(raw, raw.sl[k])  len == IF Explicit(raw) THEN q.dx ELSE s.dx
       tot == (len \oplus q.dxu) \oplus q.dxd IN
   /\ q.zu \succeq q.zd
   /\ \A i \in q.i1..q.in_ : net.lk[i].dx \succ 0
   /\ N9(FSum([i \in 1..q.n |-> net.lk[q.i1 + i - 1].dx]), len)
   /\ N9(net.jn[q.I1].x, q.dxu) /\ N9(net.jn[q.IN].x, q.dxu \oplus len)
   /\ (~Explicit(raw)) => /\ q.n = raw.internal_links
                          /\ \A I \in q.I1..q.IN : N9(net.jn[I].z, q.zu \oplus (((q.zd \ominus q.zu) \otimes net.jn[I].x) \oslash tot))
                          /\ \A i \in q.i1..q.in_ : N9(net.lk[i].So, (q.zu \ominus q.zd) \oslash tot)

\* ------------------------------------------------------------- other tables of the same network
\* superjunctions in another order; p[j] is the old position (from 1) of new row j
InvOf(p) == [j \in 1..Len(p) |-> CHOOSE i \in 1..Len(p) : p[i] = j]
Ends(r, ip) == [r EXCEPT !.sj_0 = ip[@ + 1] - 1, !.sj_1 = ip[@ + 1] - 1]
RenumberSj(raw, p) == LET ip == InvOf(p) IN
   [raw EXCEPT !.sj = [j \in 1..Len(p) |-> raw.sj[p[j]]],
      !.sl = [k \in 1..Len(@) |-> Ends(@[k], ip)], !.o = [k \in 1..Len(@) |-> Ends(@[k], ip)], !.w = [k \in 1..Len(@) |-> Ends(@[k], ip)], !.p = [k \in 1..Len(@) |-> Ends(@[k], ip)]]
\* superlinks in another order, with their internals
RenumberSl(raw, p) == LET mv(rows) == LET f(k) == [i \in 1..Len(Of(rows, p[k])) |-> [Of(rows, p[k])[i] EXCEPT !.k = k - 1]] IN Gather(f, Len(p), 1) IN
   [raw EXCEPT !.sl = [k \in 1..Len(p) |-> raw.sl[p[k]]], !.links = IF @ = <<>> THEN @ ELSE mv(@), !.juncs = IF @ = <<>> THEN @ ELSE mv(@)]
RenumberRows(rows, p) == [i \in 1..Len(p) |-> rows[p[i]]]
\* superlinks ks listed from their other end
ReverseListing(raw, ks) == [raw EXCEPT !.sl = [k \in 1..Len(@) |-> IF k \in ks THEN Turn(@[k]) ELSE @[k]]]
\* the generated internals written out
WriteOut(raw) ==
   LET sls == [k \in 1..Len(raw.sl) |-> Downhill(raw, raw.sl[k])]
       tag(rows, k) == [i \in 1..Len(rows) |-> rows[i] @@ [k |-> k - 1]]
       lk(k) == tag(GenLinks(raw, sls[k]), k)
       jn(k) == tag(GenJuncs(raw, sls[k]), k)
   IN [raw EXCEPT !.links = Gather(lk, Len(sls), 1), !.juncs = Gather(jn, Len(sls), 1)]
\* two networks side by side, not connected
Beside(a, b) ==
   LET n == Len(a.sj)  m == Len(a.sl)
       sh(r) == [r EXCEPT !.sj_0 = @ + n, !.sj_1 = @ + n]
       shk(r) == [r EXCEPT !.k = @ + m]
       cat(x, y, Op(_)) == x \o [i \in 1..Len(y) |-> Op(y[i])] IN
   [a EXCEPT !.sj = @ \o b.sj, !.sl = cat(@, b.sl, sh), !.o = cat(@, b.o, sh), !.w = cat(@, b.w, sh), !.p = cat(@, b.p, sh),
             !.links = cat(@, b.links, shk), !.juncs = cat(@, b.juncs, shk), !.transects = @ \o b.transects, !.storages = @ \o b.storages]
=============================================================================
