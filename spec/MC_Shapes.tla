------------------------------ MODULE MC_Shapes ------------------------------
(***************************************************************************)
(* Exhaustive check of the section formulas on a grid of dimensions and    *)
(* depths: a depth rises step by step; in every state the laws that make   *)
(* the formulas a cross section must hold.                                 *)
(***************************************************************************)
EXTENDS Shapes

CONSTANTS NStep          \* number of depth steps

Dims == {<<F(1), FRat(1, 50)>>, <<F(2), F(1)>>, <<FRat(5, 2), F(4)>>}
Third == {FRat(1, 2), F(2)}
Surveys == {[x |-> <<F(0), F(1), F(2), F(4), F(5)>>, y |-> <<F(2), FRat(1, 2), F(0), FRat(1, 2), F(2)>>, m |-> 9],
            [x |-> <<F(0), F(1), F(3), F(4), F(6), F(7)>>, y |-> <<F(2), F(1), F(0), F(0), FRat(3, 2), FRat(17, 10)>>, m |-> 30]}
NoTable == [x |-> <<F(0), F(1)>>, y |-> <<F(0), F(1)>>, m |-> 2]

G(a, b, c) == <<a, b, c, F(0), F(0), F(0), F(0)>>
Sections == {[sh |-> s, g |-> G(d[1], d[2], c), tt |-> NoTable, top |-> d[1]] : s \in Shapes \ {"irregular", "floodplain"}, d \in Dims, c \in Third}
            \cup {[sh |-> "floodplain", g |-> <<F(3), FRat(1, 2), d[1] \oslash 4, F(2), c, d[2], b>>, tt |-> NoTable, top |-> F(3)] : d \in Dims, c \in Third, b \in {F(0), FRat(6, 5)}}
            \cup {[sh |-> "irregular", g |-> G(F(1), F(1), F(1)), tt |-> t, top |-> FMaxOf(t.y)] : t \in Surveys}

VARIABLES sec, k, prev

At(q) == Section(sec.sh, sec.g, sec.tt, ((sec.top \otimes q) \otimes FRat(3, 2)) \oslash NStep)   \* up to 1.5 times the height
Depth(q) == ((sec.top \otimes q) \otimes FRat(3, 2)) \oslash NStep

Init == sec \in Sections /\ k = 0 /\ prev = Section(sec.sh, sec.g, sec.tt, F(0))
Next == k < NStep /\ k' = k + 1 /\ prev' = At(k) /\ UNCHANGED sec
Spec == Init /\ [][Next]_<<sec, k, prev>>

cur == At(k)
Eps == FRat(1, 1000000000)                                   \* rounding
AtLeast(a, b) == a \succeq (b \ominus Eps)
Nonnegative == AtLeast(cur.A, 0) /\ AtLeast(cur.P, 0) /\ AtLeast(cur.R, 0) /\ AtLeast(cur.B, 0)
AreaGrows == AtLeast(cur.A, prev.A)
PerimeterGrows == AtLeast(cur.P, prev.P)
RadiusIsRatio == sec.sh # "irregular" /\ cur.P \succ 0 => FClose(cur.A, cur.R \otimes cur.P, FRat(1, 1000000000), cur.A, FRat(1, 1000000000))
Constant == sec.sh = "force_main" => cur.A = prev.A
\* The width is the rate at which area grows: below the crown, mean width of the step times the step is the area added
\* (midpoint rule; the tolerance is the curvature of the section).
WidthIsRate == k > 0 /\ sec.sh \notin {"force_main"} /\ (Depth(k) \prec sec.top) =>
   LET dy == Depth(k) \ominus Depth(k - 1)
       my == (Depth(k) \oplus Depth(k - 1)) \oslash 2
       mid == IF sec.sh = "irregular" THEN Survey(SegB, sec.tt, my) ELSE Width(sec.sh, sec.g, sec.tt, my)
       dA == IF sec.sh = "irregular" THEN Survey(SegA, sec.tt, Depth(k)) \ominus Survey(SegA, sec.tt, Depth(k - 1)) ELSE cur.A \ominus prev.A
   IN FClose(dA, mid \otimes dy, FRat(6, 100), mid \otimes dy, FRat(1, 500))
\* The sampled section agrees with the exact section at its levels
TableExact == sec.sh = "irregular" => \A q \in 1..sec.tt.m : LET w == Level(sec.tt, q) IN
   /\ FClose(SampledA(sec.tt, w), Survey(SegA, sec.tt, w), Eps, 1, 0)
   /\ FClose(SampledB(sec.tt, w), Survey(SegB, sec.tt, w), Eps, 1, 0)
   /\ FClose(SampledP(sec.tt, w), Survey(SegP, sec.tt, w), Eps, 1, 0)
\* The perimeter is at least twice the depth increase (sides no shorter than vertical), except where there are no sides
SidesLong == k > 0 /\ sec.sh \notin {"force_main", "wide", "irregular"} /\ (Depth(k) \preceq sec.top) =>
   (cur.P \ominus prev.P) \succeq ((2 \otimes (Depth(k) \ominus Depth(k - 1))) \ominus FRat(1, 1000000))
\* Above the crown a closed section keeps its area and has the narrow slot only
SlotAbove == sec.sh \in {"circular", "rect_closed"} /\ (Depth(k) \succ sec.top) =>
   /\ FClose(cur.A, Area(sec.sh, sec.g, sec.tt, sec.top), FRat(1, 1000000000), cur.A, 0)
   /\ FClose(cur.B, (IF sec.sh = "circular" THEN sec.g[2] \otimes sec.g[1] ELSE sec.g[3] \otimes sec.g[2]), FRat(1, 1000000), cur.B, 0)
=============================================================================
