----------------------------- MODULE SimManager -----------------------------
(***************************************************************************)
(* The simulation manager: one call of step() makes one or more attempts   *)
(* to advance the model.  An attempt is one large step and, when the error *)
(* is to be estimated, a number of small steps from the same start; it is  *)
(* accepted, or rejected and made again with half the step.                *)
(*                                                                         *)
(* The hydraulic model is abstracted to the history of steps its state is  *)
(* the result of: `hist` is a sequence of step sizes.  Two runs are in the *)
(* same state iff they have the same history (which is what C11 says of    *)
(* the hydraulic model).                                                   *)
(***************************************************************************)
EXTENDS StepControl, FiniteSets, TLC

CONSTANTS Dts, Subs, Retries, Tols, Errors, MinDt, MaxDt, MaxCalls, Coeffs

VARIABLES phase,  \* idle, coarse, rewind, fine, judge
          hist, t, \* state and time of the model
          call,   \* the call being served: dt, sub, retries, tol
          d, left, k, \* step of this attempt, retries left, small steps taken
          start,  \* state and time at the start of the call
          dts, errs, \* the last three accepted steps and their errors, latest first
          log,    \* the calls served so far, with the errors met (to replay them in the code)
          accepted \* ghost: steps accepted, with the number of small steps
vars == <<phase, hist, t, call, d, left, k, start, dts, errs, log, accepted>>

NoErr == F(-1)    \* an attempt without error estimate
Push(x, q) == SubSeq(<<x>> \o q, 1, IF Len(q) >= 2 THEN 3 ELSE Len(q) + 1)
Lim == [mind |-> MinDt, maxd |-> MaxDt, minr |-> FRat(1, 10), maxr |-> F(10), safety |-> F(1)]
\* the step the user is offered next
Proposal == IF Len(dts) < 3 \/ \E i \in 1..Len(errs) : errs[i] = NoErr THEN dts[1] ELSE FilterStep(dts, errs, Coeffs, call.tol, 2, Lim)

Init == /\ phase = "idle" /\ hist = <<>> /\ t = F(0) /\ d = F(0) /\ left = 0 /\ k = 0 /\ start = [hist |-> <<>>, t |-> F(0)]
        /\ call = [dt |-> F(0), sub |-> 1, retries |-> 0, tol |-> F(1)]
        /\ \E x \in Dts : dts = <<x>>
        /\ errs = <<Eps>> /\ log = <<>> /\ accepted = <<>>

Call == /\ phase = "idle" /\ Len(accepted) < MaxCalls
        /\ \E x \in Dts \cup {Proposal}, s \in Subs, r \in Retries, q \in Tols :
              /\ call' = [dt |-> x, sub |-> s, retries |-> r, tol |-> q]
              /\ d' = x /\ left' = r
        /\ start' = [hist |-> hist, t |-> t]
        /\ log' = Append(log, [call |-> call', errs |-> <<>>])
        /\ phase' = "coarse" /\ k' = 0
        /\ UNCHANGED <<hist, t, dts, errs, accepted>>
Advance(x) == hist' = Append(hist, x) /\ t' = t \oplus x
Coarse == /\ phase = "coarse" /\ Advance(d)
          /\ phase' = IF call.sub = 1 THEN "judge" ELSE "rewind"
          /\ UNCHANGED <<call, d, left, k, start, dts, errs, log, accepted>>
Restore == hist' = start.hist /\ t' = start.t
Rewind == /\ phase = "rewind" /\ Restore /\ k' = 0 /\ phase' = "fine"
          /\ UNCHANGED <<call, d, left, start, dts, errs, log, accepted>>
Fine == /\ phase = "fine" /\ Advance(d \oslash call.sub) /\ k' = k + 1
        /\ phase' = IF k + 1 = call.sub THEN "judge" ELSE "fine"
        /\ UNCHANGED <<call, d, left, start, dts, errs, log, accepted>>
ErrOutcomes == IF call.sub = 1 THEN {NoErr} ELSE Errors
Rejected(e) == call.sub > 1 /\ Reject(e, call.tol, d, MinDt, left)
JudgeReject == /\ phase = "judge"
               /\ \E e \in ErrOutcomes : /\ Rejected(e)
                     /\ log' = [log EXCEPT ![Len(log)].errs = Append(@, e)]
               /\ Restore /\ d' = d \oslash 2 /\ left' = left - 1 /\ k' = 0 /\ phase' = "coarse"
               /\ UNCHANGED <<call, start, dts, errs, accepted>>
JudgeAccept == /\ phase = "judge"
               /\ \E e \in ErrOutcomes : /\ ~Rejected(e)
                     /\ errs' = Push(e, errs)
                     /\ log' = [log EXCEPT ![Len(log)].errs = Append(@, e)]
               /\ dts' = Push(d, dts) /\ accepted' = Append(accepted, [d |-> d, sub |-> call.sub, from |-> start.t])
               /\ phase' = "idle"
               /\ UNCHANGED <<hist, t, call, d, left, k, start>>
Next == Call \/ Coarse \/ Rewind \/ Fine \/ JudgeReject \/ JudgeAccept
Spec == Init /\ [][Next]_vars /\ WF_vars(Coarse \/ Rewind \/ Fine \/ JudgeReject \/ JudgeAccept)

\* -------------------------------------------------------------- properties
Pieces(a) == [i \in 1..a.sub |-> a.d \oslash a.sub]
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Pieces(s[1]) \o Flat(Tail(s))
\* a rejected attempt leaves no trace: the state is the result of the accepted small steps alone
NoTrace == phase = "idle" => hist = Flat(accepted)
\* time advances by exactly the steps reported
TimeIsSum == phase = "idle" => FClose(t, FSum([i \in 1..Len(accepted) |-> accepted[i].d]), Ten(-12), t, 0)
RECURSIVE Halves(_, _)
Halves(x, n) == IF n = 0 THEN {x} ELSE {x} \cup Halves(x \oslash 2, n - 1)
StepOk == phase # "idle" => (d \in Halves(call.dt, call.retries) /\ ((d \prec call.dt) => (d \succ MinDt)))
AttemptsBounded == left >= 0 /\ (log # <<>> => Len(log[Len(log)].errs) <= log[Len(log)].call.retries + 1)
\* a step is accepted only with an error within the caller's tolerance, or when it cannot be made again
AcceptedOk == (phase = "idle" /\ log # <<>>) =>
   LET e == log[Len(log)].errs  last == e[Len(e)] IN
   last = NoErr \/ (FFinite(last) /\ (last \preceq call.tol)) \/ Len(e) = call.retries + 1 \/ ((d \oslash 2) \preceq MinDt)
\* the queues hold accepted steps only
QueuesOk == /\ Len(dts) = Len(errs) /\ Len(dts) <= 3
            /\ phase = "idle" => \A i \in 1..Len(dts) : i <= Len(accepted) => dts[i] = accepted[Len(accepted) + 1 - i].d
ProposalOk == (phase = "idle" /\ Len(dts) = 3) => (Proposal = dts[1] \/ ((Proposal \succeq MinDt) /\ (Proposal \preceq MaxDt)))
\* with equal step and error history a proposal grows when the error is below the tolerance and shrinks when it is above
Monotone == (phase = "idle" /\ Len(dts) = 3 /\ dts[1] = dts[2] /\ dts[2] = dts[3] /\ errs[1] = errs[2] /\ errs[1] # NoErr /\ FFinite(errs[1])
             /\ (dts[1] \succeq MinDt) /\ (dts[1] \preceq MaxDt) /\ Coeffs[3] = F(0)) =>
            (((errs[1] \preceq call.tol) => (Proposal \succeq dts[1])) /\ ((errs[1] \succeq call.tol) => (Proposal \preceq dts[1])))
Terminates == (phase # "idle") ~> (phase = "idle")
=============================================================================
