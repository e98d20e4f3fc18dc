------------------------------- MODULE Floats -------------------------------
(***************************************************************************)
(* IEEE-754 double arithmetic for TLC.                                     *)
(*                                                                         *)
(* A float is the pair <<hi, lo>> of the two 32-bit halves of its bit      *)
(* pattern, so floats are ordinary TLA+ values: equality is bit equality   *)
(* (with -0.0 normalised to 0.0) and they can be part of states.  Every    *)
(* operator also accepts a TLA+ integer where a float is expected.         *)
(*                                                                         *)
(* TLC replaces the definitions below by the methods of the same name in   *)
(* java/Floats.java.  The TLA+ bodies only fix the signatures; the ASSUME  *)
(* at the bottom makes TLC refuse to run if the override is missing.       *)
(***************************************************************************)
EXTENDS Integers, Sequences

Over == CHOOSE z \in {} : TRUE      \* never evaluated

F(n)          == Over   \* integer -> float
FRat(n, d)    == Over   \* n / d
FAdd(x, y)    == Over
FSub(x, y)    == Over
FMul(x, y)    == Over
FDiv(x, y)    == Over   \* IEEE division
FSDiv(x, y)   == Over   \* x / y, or 0 when y = 0
FNeg(x)       == Over
FAbs(x)       == Over
FSqrt(x)      == Over
FPow(x, y)    == Over
FExp(x)       == Over
FLn(x)        == Over
FLog10(x)     == Over
FCos(x)       == Over
FSin(x)       == Over
FAcos(x)      == Over
FAsin(x)      == Over
FEllipE(phi, m) == Over  \* incomplete elliptic integral of the second kind
FMax(x, y)    == Over
FMin(x, y)    == Over
FSum(s)       == Over   \* sum of a sequence of floats
FMaxOf(s)     == Over   \* maximum of a non-empty sequence
FLt(x, y)     == Over
FLe(x, y)     == Over
FGt(x, y)     == Over
FGe(x, y)     == Over
FEq(x, y)     == Over   \* numeric equality
FFinite(x)    == Over   \* neither NaN nor infinite
FPi           == Over
FInf          == Over
FNaN          == Over
FFloor(x)     == Over   \* largest integer <= x, as a TLA+ integer
\* |x - y| <= tol * scale + abs
FClose(x, y, tol, scale, abs) == Over
\* The sum of the terms vanishes relative to the largest of them: |sum(s)| <= tol * max|s| + abs
FBalanced(s, tol, abs) == Over
FImbalance(s) == Over   \* |sum(s)| / max|s|
\* Solution of n linear equations, each a record with x (sequence of <<unknown, coefficient>>) and r (terms whose sum is
\* the right-hand side), by Gaussian elimination with row exchanges
FSolve(rows, n) == Over
FEnv(name)    == Over   \* environment variable, as a string ("" if unset)
FStr(x)       == Over   \* decimal string, for messages

\* Vectors: elementwise comparison of two sequences of floats
FVecEq(s, t)  == Over   \* same length, numerically equal everywhere
FVecClose(s, t, rtol, atol) == Over  \* same length, |s-t| <= rtol*max(|s|,|t|) + atol everywhere
FVecDist(s, t) == Over  \* max |s-t| as a float

\* Input: a JSON document.  JSON integers become integers, JSON numbers with a fraction or an exponent (and
\* NaN, Infinity) become floats, arrays become sequences, objects become records.
FReadJson(path) == Over
\* Output: JSON text of a value.  A pair of integers is taken to be a float.
FJson(v)      == Over

\* Notation
a \oplus b   == FAdd(a, b)
a \ominus b  == FSub(a, b)
a \otimes b  == FMul(a, b)
a \oslash b  == FDiv(a, b)
a \prec b    == FLt(a, b)
a \preceq b  == FLe(a, b)
a \succ b    == FGt(a, b)
a \succeq b  == FGe(a, b)
Half == FRat(1, 2)
Ten(n) == FPow(10, n)         \* 10^n, n may be negative

\* A judgement: the empty set, or what is wrong and where
Chk(ok, label, id) == IF ok THEN {} ELSE {<<label, id>>}

ASSUME OverrideLoaded == FAdd(1, 1) = F(2)
=============================================================================
