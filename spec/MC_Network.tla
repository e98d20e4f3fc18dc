----------------------------- MODULE MC_Network -----------------------------
(***************************************************************************)
(* Every small table: two or three superjunctions in a row, generated      *)
(* internals, end lengths, offsets, either direction of listing.           *)
(***************************************************************************)
EXTENDS Network, FiniteSets, TLC
CONSTANTS Bottoms, Offsets, EndLens, Counts, Sizes

cEnds == {-1, 0, 5}
VARIABLES raw, Net, pick
Sj(z) == [name |-> "S", z_inv |-> z, h_0 |-> F(1), bc |-> FALSE, storage |-> "functional", table |-> <<>>, a |-> F(0), b |-> F(0), c |-> F(5), max_depth |-> <<>>]
Sl(a, b, i, o, du, dd, cu) == [name |-> "K", sj_0 |-> a, sj_1 |-> b, in_offset |-> i, out_offset |-> o, dx |-> FRat(7 * (a + 1), 3), n |-> FRat(3, 100), shape |-> "circular",
   g |-> <<F(1), F(0), F(0), F(0), F(0), F(0), F(0)>>, transect |-> "", friction_method |-> "cm", Q_0 |-> F(a + 1), h_0 |-> FRat(1, 2), ctrl |-> FALSE, A_s |-> F(b), A_c |-> F(0), C |-> F(0),
   C_uk |-> cu, C_dk |-> IF cu = <<>> THEN <<>> ELSE F(2), dx_uk |-> du, dx_dk |-> dd, max_depth |-> <<>>]
Opts(mob) == [mobile_elements |-> mob, min_depth |-> Ten(-5), bc_method |-> "z", end_method |-> "b", method |-> "b", inertial_damping |-> FALSE]
Tables(sj, sl, m, mob) == [sj |-> sj, sl |-> sl, links |-> <<>>, juncs |-> <<>>, o |-> <<>>, w |-> <<>>, p |-> <<>>, transects |-> <<>>, storages |-> <<>>, internal_links |-> m, opts |-> Opts(mob)]

Fl(n) == FRat(n, 2)
El(n) == IF n < 0 THEN <<>> ELSE Fl(n)
Links1 == {Sl(ab[1], ab[2], Fl(i), Fl(o), El(d), El(e), c) : ab \in {<<0, 1>>, <<1, 0>>}, i \in Offsets, o \in Offsets, d \in EndLens, e \in EndLens, c \in {<<>>, F(1)}}
Links2 == {Sl(ab[1], ab[2], Fl(i), F(0), <<>>, El(e), <<>>) : ab \in {<<1, 2>>, <<2, 1>>, <<0, 2>>}, i \in Offsets, e \in EndLens}
Init == raw = <<>> /\ Net = <<>> /\ pick = <<>>
Choose(t) == raw' = t /\ Net' = Build(t)
\* first the sizes and bottoms, then the rest
Next == \/ /\ pick = <<>> /\ UNCHANGED <<raw, Net>>
           /\ \E n \in Sizes, m \in Counts, mob \in BOOLEAN, z1, z2 \in Bottoms : (mob => m > 1) /\ pick' = <<n, m, mob, z1, z2>>
        \/ /\ pick # <<>> /\ raw = <<>> /\ UNCHANGED pick
           /\ LET n == pick[1]  m == pick[2]  mob == pick[3]  z1 == pick[4]  z2 == pick[5] IN
              \E l1 \in Links1 :
                IF n = 2 THEN Choose(Tables(<<Sj(Fl(z1)), Sj(Fl(z2))>>, <<l1>>, m, mob))
                ELSE \E z3 \in Bottoms, l2 \in Links2 : (l1.C_uk = <<>> /\ l1.in_offset = F(0) /\ l1.dx_dk = <<>>) /\ Choose(Tables(<<Sj(Fl(z1)), Sj(Fl(z2)), Sj(Fl(z3))>>, <<l1, l2>>, m, mob))
Spec == Init /\ [][Next]_<<raw, Net, pick>>

InvChannel == raw # <<>> => \A k \in 1..NK(Net) : ChannelOk(raw, Net, k)
InvMobile == raw # <<>> => (Mobile(raw) => \A k \in 1..NK(Net) : LET q == Net.sl[k] IN q.mov > 1 /\ q.mov <= q.n)
Flat(k) == FEq(EndZ0(raw, raw.sl[k]), EndZ1(raw, raw.sl[k]))
Free == {k \in 1..Len(raw.sl) : ~Flat(k)}
InvReverse == raw # <<>> => \A ks \in SUBSET Free : Build(ReverseListing(raw, ks)) = Net
Perms(n) == {f \in [1..n -> 1..n] : \A a, b \in 1..n : f[a] = f[b] => a = b}
InvRenumberSj == raw # <<>> => \A p \in Perms(Len(raw.sj)) : LET b == Build(RenumberSj(raw, p)) IN
   /\ \A j \in 1..Len(p) : b.sj[j] = Net.sj[p[j]]
   /\ b.lk = Net.lk /\ b.jn = Net.jn
   /\ \A k \in 1..NK(Net) : p[b.sl[k].ju] = Net.sl[k].ju /\ p[b.sl[k].jd] = Net.sl[k].jd /\ [b.sl[k] EXCEPT !.ju = 0, !.jd = 0] = [Net.sl[k] EXCEPT !.ju = 0, !.jd = 0]
InvRenumberSl == raw # <<>> => \A p \in Perms(Len(raw.sl)) : LET b == Build(RenumberSl(raw, p)) IN
   \A k \in 1..Len(p) : /\ b.sl[k].ju = Net.sl[p[k]].ju /\ b.sl[k].jd = Net.sl[p[k]].jd /\ b.sl[k].dx = Net.sl[p[k]].dx
                        /\ \A i \in 1..b.sl[k].n : LET x == b.lk[b.sl[k].i1 + i - 1]  y == Net.lk[Net.sl[p[k]].i1 + i - 1] IN
                              x.dx = y.dx /\ x.So = y.So /\ x.Q0 = y.Q0 /\ x.k = k /\ x.I - b.sl[k].I1 = y.I - Net.sl[p[k]].I1
InvWriteOut == (raw # <<>> /\ ~Mobile(raw)) => LET b == Build(WriteOut(raw)) IN
   /\ b.lk = Net.lk /\ b.jn = Net.jn /\ b.sj = Net.sj
   /\ \A k \in 1..NK(Net) : [b.sl[k] EXCEPT !.dx = 0] = [Net.sl[k] EXCEPT !.dx = 0] /\ N9(b.sl[k].dx, Net.sl[k].dx)
InvBeside == raw # <<>> => LET b == Build(Beside(raw, raw)) IN
   /\ SubSeq(b.lk, 1, NL(Net)) = Net.lk /\ SubSeq(b.jn, 1, NI(Net)) = Net.jn /\ SubSeq(b.sl, 1, NK(Net)) = Net.sl
   /\ \A i \in 1..NL(Net) : b.lk[NL(Net) + i] = [Net.lk[i] EXCEPT !.k = @ + NK(Net), !.I = @ + NI(Net)]
   /\ \A k \in 1..NK(Net) : b.sl[NK(Net) + k].ju = Net.sl[k].ju + NJ(Net)
=============================================================================
