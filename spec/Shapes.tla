------------------------------- MODULE Shapes -------------------------------
(***************************************************************************)
(* Cross sections: flow area, wetted perimeter, hydraulic radius and top   *)
(* width as functions of depth (docs/geometry-reference.md).               *)
(*                                                                         *)
(* A section is the shape name, its dimensions g[1..7], and for surveyed   *)
(* sections the transect: stations x, bed y, m levels.                           *)
(***************************************************************************)
EXTENDS Floats, FiniteSets, TLC

ClampTo(y, lo, hi) == FMin(FMax(y, lo), hi)
Sq(x) == x \otimes x
Hyp(m) == FSqrt(1 \oplus Sq(m))           \* wetted length per unit depth of a side with inverse slope m
Radius(A, P) == IF P \succ 0 THEN A \oslash P ELSE F(0)

\* ------------------------------------------------------------ circular
CircTheta(y, d) == FAcos(1 \ominus ClampTo((2 \otimes y) \oslash d, 0, 2))
CircA(y, d) == LET t == CircTheta(y, d) IN Sq(d \oslash 2) \otimes (t \ominus (FCos(t) \otimes FSin(t)))
CircP(y, d) == d \otimes CircTheta(y, d)
CircB(y, d, slot) == IF y \prec d THEN d \otimes FSin(CircTheta(y, d)) ELSE slot \otimes d

\* ------------------------------------------------------------ elliptical (half height b, half width a)
EllTheta(y, b) == FAsin((y \ominus b) \oslash b)
EllA(y, h, w) == LET b == h \oslash 2  a == w \oslash 2  t == EllTheta(y, b)
                 IN (a \otimes b) \otimes (((FPi \oslash 2) \oplus t) \oplus (FCos(t) \otimes FSin(t)))
EllP(y, h, w) == LET b == h \oslash 2  a == w \oslash 2  t == EllTheta(y, b)  m == 1 \ominus (Sq(a) \oslash Sq(b))
                 IN (2 \otimes b) \otimes (FEllipE(FPi \oslash 2, m) \oplus FEllipE(t, m))
EllB(y, h, w) == w \otimes FCos(EllTheta(y, h \oslash 2))

\* ------------------------------------------------------------ parabolic (top width b at depth ymax)
ParT(y, ymax, b) == b \otimes FSqrt(y \oslash ymax)
ParA(y, ymax, b) == ((2 \otimes ParT(y, ymax, b)) \otimes y) \oslash 3
ParP(y, ymax, b) == IF y \preceq 0 THEN F(0) ELSE
                    LET T == ParT(y, ymax, b)  x == (4 \otimes y) \oslash T  q == FSqrt(1 \oplus Sq(x))
                    IN (T \oslash 2) \otimes (q \oplus (FLn(x \oplus q) \oslash x))

\* ------------------------------------------------------------ compound section (three stacked trapezoids)
\* g1 total height, g2 height of the lowest part, g3 height of the middle part, g4, g5, g6 inverse side slopes of
\* the top, lowest and middle part, g7 width of the flat bottom
FldParts(y, g) == LET yb == FMin(y, g[2])
                      ym == FMax(0, FMin(y, g[2] \oplus g[3]) \ominus g[2])
                      yt == FMax(0, y \ominus (g[2] \oplus g[3]))
                  IN <<yb, ym, yt>>
FldWm(g) == (2 \otimes g[5]) \otimes g[2]                          \* width at the foot of the middle part
FldWt(g) == FldWm(g) \oplus ((2 \otimes g[6]) \otimes g[3])        \* width at the foot of the top part
FldA(y, g) == LET p == FldParts(y, g) IN
   FSum(<<g[5] \otimes Sq(p[1]), p[2] \otimes (FldWm(g) \oplus (g[6] \otimes p[2])), p[3] \otimes (FldWt(g) \oplus (g[4] \otimes p[3])), g[7] \otimes y>>)
FldP(y, g) == LET p == FldParts(y, g) IN
   FSum(<<(2 \otimes p[1]) \otimes Hyp(g[5]), (2 \otimes p[2]) \otimes Hyp(g[6]), (2 \otimes p[3]) \otimes Hyp(g[4]), IF y \succ 0 THEN g[7] ELSE F(0)>>)
FldB(y, g) == LET p == FldParts(y, g) IN
   FSum(<<(2 \otimes g[5]) \otimes p[1], (2 \otimes g[6]) \otimes p[2], (2 \otimes g[4]) \otimes p[3], IF y \succ 0 THEN g[7] ELSE F(0)>>)

\* ------------------------------------------------------------ surveyed sections
\* Station x[i], bed elevation y[i]; water at level w.  Each bed segment contributes its part below w.
SegA(x0, x1, y0, y1, w) ==
   LET lo == FMin(y0, y1)  hi == FMax(y0, y1)  dx == x1 \ominus x0 IN
   IF (y0 \succ w) /\ (y1 \succ w) THEN F(0)
   ELSE IF hi \preceq w THEN dx \otimes (w \ominus ((lo \oplus hi) \oslash 2))
   ELSE LET f == (w \ominus lo) \oslash (hi \ominus lo) IN ((dx \otimes f) \otimes (w \ominus lo)) \oslash 2
SegB(x0, x1, y0, y1, w) ==
   LET lo == FMin(y0, y1)  hi == FMax(y0, y1)  dx == x1 \ominus x0 IN
   IF (y0 \succ w) /\ (y1 \succ w) THEN F(0)
   ELSE IF hi \preceq w THEN dx ELSE dx \otimes ((w \ominus lo) \oslash (hi \ominus lo))
SegP(x0, x1, y0, y1, w) ==
   LET lo == FMin(y0, y1)  hi == FMax(y0, y1)  dx == x1 \ominus x0  L == FSqrt(Sq(dx) \oplus Sq(hi \ominus lo)) IN
   IF (y0 \succ w) /\ (y1 \succ w) THEN F(0)
   ELSE IF hi \preceq w THEN L ELSE L \otimes ((w \ominus lo) \oslash (hi \ominus lo))
Survey(Op(_, _, _, _, _), t, w) == FSum([i \in 1..Len(t.x) - 1 |-> Op(t.x[i], t.x[i+1], t.y[i], t.y[i+1], w)])
\* A surveyed section is described by t.m equally spaced levels from the bed to the highest surveyed point; between
\* levels every quantity is interpolated linearly, and it is constant beyond the ends.
Level(t, q) == IF q = t.m THEN FMaxOf(t.y) ELSE (FMaxOf(t.y) \oslash (t.m - 1)) \otimes (q - 1)
SurveyR(t, w) == FSDiv(Survey(SegA, t, w), Survey(SegP, t, w))
Sampled(V(_), t, y) ==
   LET top == FMaxOf(t.y)
       q == IF y \preceq 0 THEN 0 ELSE IF y \succ top THEN t.m ELSE FFloor((y \oslash top) \otimes (t.m - 1)) + 1
   IN IF q = 0 THEN V(Level(t, 1)) ELSE IF q >= t.m THEN V(Level(t, t.m))
      ELSE LET f == (y \ominus Level(t, q)) \oslash (Level(t, q + 1) \ominus Level(t, q))
           IN ((1 \ominus f) \otimes V(Level(t, q))) \oplus (f \otimes V(Level(t, q + 1)))
SampledA(t, y) == LET V(w) == Survey(SegA, t, w) IN Sampled(V, t, y)
SampledP(t, y) == LET V(w) == Survey(SegP, t, w) IN Sampled(V, t, y)
SampledB(t, y) == LET V(w) == Survey(SegB, t, w) IN Sampled(V, t, y)
SampledR(t, y) == LET V(w) == SurveyR(t, w) IN Sampled(V, t, y)

\* ------------------------------------------------------------ all shapes
Shapes == {"circular", "rect_closed", "rect_open", "triangular", "trapezoidal", "parabolic", "elliptical", "wide", "force_main", "floodplain", "irregular"}
Closed == {"circular", "rect_closed", "force_main", "elliptical"}

Area(sh, g, tt, yy) ==
   LET y == ClampTo(yy, 0, g[1]) IN
   CASE sh = "circular" -> CircA(y, g[1])
     [] sh \in {"rect_closed", "rect_open", "wide"} -> y \otimes g[2]
     [] sh = "triangular" -> g[2] \otimes Sq(y)
     [] sh = "trapezoidal" -> y \otimes (g[2] \oplus (g[3] \otimes y))
     [] sh = "parabolic" -> ParA(y, g[1], g[2])
     [] sh = "elliptical" -> EllA(y, g[1], g[2])
     [] sh = "force_main" -> FPi \otimes Sq(g[1] \oslash 2)
     [] sh = "floodplain" -> FldA(y, g)
     [] sh = "irregular" -> SampledA(tt, yy)
Perimeter(sh, g, tt, yy) ==
   LET y == ClampTo(yy, 0, g[1]) IN
   CASE sh = "circular" -> CircP(y, g[1])
     [] sh \in {"rect_closed", "rect_open"} -> g[2] \oplus (2 \otimes y)
     [] sh = "wide" -> g[2]
     [] sh = "triangular" -> (2 \otimes y) \otimes Hyp(g[2])
     [] sh = "trapezoidal" -> g[2] \oplus ((2 \otimes y) \otimes Hyp(g[3]))
     [] sh = "parabolic" -> ParP(y, g[1], g[2])
     [] sh = "elliptical" -> EllP(y, g[1], g[2])
     [] sh = "force_main" -> FPi \otimes g[1]
     [] sh = "floodplain" -> FldP(y, g)
     [] sh = "irregular" -> SampledP(tt, yy)
Width(sh, g, tt, yy) ==
   LET y == ClampTo(yy, 0, g[1]) IN
   CASE sh = "circular" -> CircB(FMax(yy, 0), g[1], g[2])
     [] sh = "rect_closed" -> IF yy \prec g[1] THEN g[2] ELSE g[3] \otimes g[2]
     [] sh \in {"rect_open", "wide"} -> g[2]
     [] sh = "triangular" -> (2 \otimes g[2]) \otimes y
     [] sh = "trapezoidal" -> g[2] \oplus ((2 \otimes g[3]) \otimes y)
     [] sh = "parabolic" -> ParT(y, g[1], g[2])
     [] sh = "elliptical" -> EllB(y, g[1], g[2])
     [] sh = "force_main" -> g[2] \otimes g[1]
     [] sh = "floodplain" -> FldB(y, g)
     [] sh = "irregular" -> SampledB(tt, yy)
Section(sh, g, tt, y) ==
   LET A == Area(sh, g, tt, y)  P == Perimeter(sh, g, tt, y) IN
   [A |-> A, P |-> P, R |-> IF sh = "irregular" THEN SampledR(tt, y) ELSE Radius(A, P), B |-> Width(sh, g, tt, y)]
=============================================================================
