------------------------------ MODULE Sampling ------------------------------
(***************************************************************************)
(* Input series (docs/simulation-context.md): a table of samples, one row  *)
(* per time, one column per element.  Between samples the value is         *)
(* interpolated linearly, or is that of the nearest sample; outside the    *)
(* samples it is the first or the last one.                                *)
(* A series is a record [t |-> times in increasing order, v |-> rows].     *)
(***************************************************************************)
EXTENDS Floats, FiniteSets

\* the number of samples strictly before time x
Before(ser, x) == Cardinality({q \in 1..Len(ser.t) : ser.t[q] \prec x})
Blend(a, b, f) == [c \in 1..Len(a) |-> ((1 \ominus f) \otimes a[c]) \oplus (f \otimes b[c])]
\* The set of admissible samples: one, except at a tie between two equally near samples.
Sample(ser, how, x) ==
   LET n == Len(ser.t)  q == Before(ser, x) IN
   IF q = 0 THEN {ser.v[1]}
   ELSE IF q = n THEN {ser.v[n]}
   ELSE LET lo == x \ominus ser.t[q]  hi == ser.t[q + 1] \ominus x IN
        IF how = "linear" THEN {Blend(ser.v[q], ser.v[q + 1], lo \oslash (lo \oplus hi))}
        ELSE IF FClose(lo, hi, Ten(-9), 1, Ten(-9)) THEN {ser.v[q], ser.v[q + 1]}
        ELSE IF lo \prec hi THEN {ser.v[q]} ELSE {ser.v[q + 1]}
SampleOk(ser, how, x, got) ==
   \* an instant may fall on either side of a sample time by rounding
   \E w \in {x, x \ominus (Ten(-11) \otimes FMax(1, FAbs(x))), x \oplus (Ten(-11) \otimes FMax(1, FAbs(x)))} :
      \E v \in Sample(ser, how, w) : FVecClose(v, got, Ten(-9), Ten(-9))
=============================================================================
