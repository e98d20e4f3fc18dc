------------------------------ MODULE Lifecycle ------------------------------
(***************************************************************************)
(* Life of models: building, stepping, saving and restoring (C11, C12).    *)
(*                                                                         *)
(* The physical state of a model is abstracted to its *path*: the inputs   *)
(* that lead to it from its tables.  Two models of the same tables are in  *)
(* the same physical state if they have the same path; what a step does to *)
(* the numbers is the business of Hydraulics.                              *)
(*                                                                         *)
(* A path is a sequence of integers: Raw (the tables), Init (the step of a *)
(* microsecond every constructor ends with), then the number of an input   *)
(* for every step and Move for every repositioning of internal junctions.  *)
(*                                                                         *)
(* A model: [tab, path, t, n, sv]; sv is what model.states holds.          *)
(* A machine: [models, snaps]; snaps are shallow copies of some `states`.  *)
(***************************************************************************)
EXTENDS Floats, TLC

Raw == -1
Init0 == -2
Move == 0
Machine0 == [models |-> <<>>, snaps |-> <<>>]

NewModel(tab) == [tab |-> tab, path |-> <<Raw, Init0>>, t |-> F(0), n |-> 0, sv |-> [tab |-> tab, path |-> <<Raw>>, t |-> F(0)]]
Now(md) == [tab |-> md.tab, path |-> md.path, t |-> md.t]
\* one step with input id of length dt, however many iterations it takes
Stepped(md, id, dt) == [md EXCEPT !.path = Append(@, id), !.t = FAdd(@, dt), !.n = @ + 1, !.sv = Now(md)]
Loaded(md, sv) == [md EXCEPT !.path = sv.path, !.t = sv.t]
RECURSIVE Times(_, _, _, _)
Times(md, id, dt, q) == IF q = 0 THEN md ELSE Times(Stepped(md, id, dt), id, dt, q - 1)
Reset(md) == [md EXCEPT !.t = F(0), !.n = 0]

\* ops: [op, m] and, where it applies, u (input), dt, tab, s (snapshot), q (number of steps), reset, t (keep the time)
Apply(st, o) ==
   LET md == st.models[o.m]  Put(x) == [st EXCEPT !.models[o.m] = x] IN
   CASE o.op = "build" -> [st EXCEPT !.models = Append(@, NewModel(o.tab))]
     [] o.op = "step" -> Put(Stepped(md, o.u, o.dt))
     [] o.op = "spin" -> LET x == Times(md, o.u, o.dt, o.q) IN Put(IF o.reset THEN Reset(x) ELSE x)
     [] o.op = "save" -> Put([md EXCEPT !.sv = Now(md)])
     [] o.op = "snap" -> [st EXCEPT !.snaps = Append(@, md.sv)]
     [] o.op = "own" -> Put(Loaded(md, md.sv))
     [] o.op = "load" -> Put(Loaded(md, st.snaps[o.s]))
     [] o.op = "loadx" -> Put([Loaded(md, st.snaps[o.s]) EXCEPT !.t = md.t])   \* all but the time
     [] o.op = "move" -> Put([md EXCEPT !.path = Append(@, Move)])
     [] o.op = "end" -> st
RECURSIVE Run(_, _, _, _)
Run(st, ops, k, n) == IF k > n THEN <<>> ELSE LET x == Apply(st, ops[k]) IN <<x>> \o Run(x, ops, k + 1, n)
\* the states after each of the first n operations
History(ops, n) == TLCEval(Run(Machine0, ops, 1, n))

\* Fixed-point iteration.  Hs[m]: heads after m iterations, H0 before the step.  All heads must have moved by less than
\* tol, over the step (first) or from one iteration to the next.
Settled(a, b, tol) == \A j \in 1..Len(a) : FAbs(a[j] \ominus b[j]) \prec tol
RECURSIVE IterUntil(_, _, _, _)
IterUntil(Hs, m, n, tol) == IF m >= n \/ Settled(Hs[m], Hs[m - 1], tol) THEN m ELSE IterUntil(Hs, m + 1, n, tol)
Iterations(H0, Hs, n, tol) == IF n <= 1 \/ Settled(Hs[1], H0, tol) THEN 1 ELSE IterUntil(Hs, 2, n, tol)
=============================================================================
