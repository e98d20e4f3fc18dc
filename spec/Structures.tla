----------------------------- MODULE Structures -----------------------------
(***************************************************************************)
(* Flow laws of orifices, weirs and pumps                               *)
(* both as reported after a step and in the linearised form     *)
(*     Q = alpha * H_u + beta * H_d + chi                                  *)
(* that enters the water balance of the superjunctions.                    *)
(*                                                                         *)
(* Hu, Hd: heads of the superjunctions the structure is listed from / to;  *)
(* zu: bottom of the one it is listed from; u: control setting in [0, 1].  *)
(***************************************************************************)
EXTENDS Shapes

Lin(a, b, c) == [a |-> a, b |-> b, c |-> c]
NoFlow == Lin(F(0), F(0), F(0))
Signed(up, q) == IF up THEN q ELSE FNeg(q)
G == FRat(981, 100)

\* ---------------------------------------------------------------- orifice
\* open area, from the heads at the start of the step
OrificeArea(o, Hu, Hd, zu, u) ==
   IF u \preceq 0 THEN F(0)
   ELSE LET y == (FMax(Hu, Hd) \ominus zu) \ominus o.z
            g == [o.g EXCEPT ![1] = o.g[1] \otimes u]
        IN Area(o.sh, g, [x |-> <<>>, y |-> <<>>, m |-> 2], y)
OrificeRegime(o, Hu, Hd, zu, u) ==
   LET hi == FMax(Hu, Hd)  lo == FMin(Hu, Hd)  z == o.z \oplus zu
       open == IF o.side THEN o.ymax \otimes u ELSE F(0)
   IN IF o.oneway /\ (Hd \succeq Hu) THEN "none"
      ELSE IF hi \succ (z \oplus open) THEN IF lo \succ (z \oplus (open \oslash 2)) THEN "submerged" ELSE "free"
      ELSE IF hi \succ z THEN "weir" ELSE "none"
\* head that drives the flow
OrificeDrive(o, Hu, Hd, zu, u) ==
   LET r == OrificeRegime(o, Hu, Hd, zu, u)  hi == FMax(Hu, Hd)  lo == FMin(Hu, Hd)  z == o.z \oplus zu
       open == IF o.side THEN o.ymax \otimes u ELSE F(0)
   IN CASE r = "none" -> F(0) [] r = "submerged" -> hi \ominus lo
        [] r = "free" -> hi \ominus (z \oplus (open \oslash 2)) [] r = "weir" -> hi \ominus z
\* reported flow; A: open area; cap: largest flow the source can give
OrificeFlow(o, Hu, Hd, zu, u, A, cap) ==
   LET q == (o.C \otimes A) \otimes FSqrt((2 \otimes G) \otimes FAbs(OrificeDrive(o, Hu, Hd, zu, u)))
   IN Signed(Hu \succeq Hd, FMin(q, cap))
OrificeLin(o, Hu, Hd, zu, u, A, Q) ==
   LET g == FSDiv((2 \otimes G) \otimes (Sq(o.C) \otimes Sq(A)), FAbs(Q))
       r == OrificeRegime(o, Hu, Hd, zu, u)  z == o.z \oplus zu
       open == IF o.side THEN o.ymax \otimes u ELSE F(0)
       ref == IF r = "free" THEN z \oplus (open \oslash 2) ELSE z
   IN CASE r = "none" -> NoFlow [] r = "submerged" -> Lin(g, FNeg(g), F(0))
        [] OTHER -> IF Hu \succeq Hd THEN Lin(g, F(0), FNeg(g \otimes ref)) ELSE Lin(F(0), FNeg(g), g \otimes ref)

\* ------------------------------------------------------------------- weir
WeirCrest(w, zu, u) == (w.z \oplus zu) \oplus ((1 \ominus u) \otimes w.ymax)
WeirRegime(w, Hu, Hd, zu, u) ==
   LET z == WeirCrest(w, zu, u) IN
   IF FMax(Hu, Hd) \preceq z THEN "none" ELSE IF FMin(Hu, Hd) \succ z THEN "submerged" ELSE "free"
WeirHead(w, Hu, Hd, zu, u) ==
   LET r == WeirRegime(w, Hu, Hd, zu, u) IN
   CASE r = "none" -> F(0) [] r = "submerged" -> FAbs(Hu \ominus Hd) [] r = "free" -> FMax(Hu, Hd) \ominus WeirCrest(w, zu, u)
WeirCoef(w, h) == ((w.Cr \otimes w.L) \otimes h) \oplus ((w.Ct \otimes w.s) \otimes Sq(h))
WeirFlow(w, Hu, Hd, zu, u) == LET h == WeirHead(w, Hu, Hd, zu, u) IN Signed(Hu \succeq Hd, WeirCoef(w, h) \otimes FSqrt(h))
WeirLin(w, Hu, Hd, zu, u, Q) ==
   LET r == WeirRegime(w, Hu, Hd, zu, u)  g == FSDiv(Sq(WeirCoef(w, WeirHead(w, Hu, Hd, zu, u))), FAbs(Q))  z == WeirCrest(w, zu, u)
   IN CASE r = "none" -> NoFlow [] r = "submerged" -> Lin(g, FNeg(g), F(0))
        [] OTHER -> IF Hu \succeq Hd THEN Lin(g, F(0), FNeg(g \otimes z)) ELSE Lin(F(0), FNeg(g), g \otimes z)

\* ------------------------------------------------------------------- pump
PumpLift(p, Hu, Hd) == FMin(FMax(Hd \ominus Hu, p.lo), p.hi)
PumpWet(p, Hu, zu) == Hu \succ (zu \oplus p.z)
PumpFlow(p, Hu, Hd, zu, u) ==
   IF ~PumpWet(p, Hu, zu) THEN F(0)
   ELSE FPow((u \oslash p.b) \otimes (p.a \ominus PumpLift(p, Hu, Hd)), 1 \oslash p.c)
PumpLin(p, Hu, Hd, zu, u, Q) ==
   LET g == FSDiv(u, p.b \otimes FPow(FAbs(Q), p.c \ominus 1))  d == Hd \ominus Hu IN
   IF ~PumpWet(p, Hu, zu) THEN NoFlow
   ELSE IF (d \succ p.lo) /\ (d \prec p.hi) THEN Lin(g, FNeg(g), g \otimes p.a)
   ELSE Lin(F(0), F(0), g \otimes (p.a \ominus PumpLift(p, Hu, Hd)))
=============================================================================
