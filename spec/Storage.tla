------------------------------- MODULE Storage -------------------------------
(***************************************************************************)
(* Surface area and volume of a superjunction as functions of its depth    *)
(* (docs/model-inputs.md): the power law A = a h^b + c, or a table of *)
(* areas at listed depths.                                                 *)
(* j: superjunction record, tabs: sequence of tables [h |-> , A |-> ].     *)
(***************************************************************************)
EXTENDS Floats

\* volume of a table below its q-th listed depth (trapezoids)
RECURSIVE TabVol(_, _)
TabVol(t, q) == IF q = 1 THEN F(0) ELSE TabVol(t, q - 1) \oplus (((t.h[q] \ominus t.h[q-1]) \otimes (t.A[q] \oplus t.A[q-1])) \oslash 2)
\* index of the last listed depth not above h (0 if h is below the table)
TabIndex(t, h) == LET S == {q \in 1..Len(t.h) : t.h[q] \preceq h} IN IF S = {} THEN 0 ELSE CHOOSE q \in S : \A r \in S : r <= q
TabFrac(t, h, q) == (h \ominus t.h[q]) \oslash (t.h[q+1] \ominus t.h[q])

StorageArea(j, tabs, h) ==
   IF j.kind = "functional" THEN (j.a \otimes FPow(h, j.b)) \oplus j.c
   ELSE LET t == tabs[j.tab]  q == TabIndex(t, h)  n == Len(t.h) IN
        IF q = 0 THEN t.A[1] ELSE IF q = n THEN t.A[n]
        ELSE LET f == TabFrac(t, h, q) IN ((1 \ominus f) \otimes t.A[q]) \oplus (f \otimes t.A[q+1])
StorageVolume(j, tabs, h) ==
   IF j.kind = "functional" THEN ((j.a \oslash (j.b \oplus 1)) \otimes FPow(h, j.b \oplus 1)) \oplus (j.c \otimes h)
   ELSE LET t == tabs[j.tab]  q == TabIndex(t, h)  n == Len(t.h) IN
        IF q = 0 THEN F(0) ELSE IF q = n THEN TabVol(t, n) \oplus (t.A[n] \otimes (h \ominus t.h[n]))
        ELSE LET f == TabFrac(t, h, q) IN ((1 \ominus f) \otimes TabVol(t, q)) \oplus (f \otimes TabVol(t, q + 1))
StorageDepth(j, H, mind) == FMax(H \ominus j.z, mind)
=============================================================================
