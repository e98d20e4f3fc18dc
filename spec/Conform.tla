------------------------------- MODULE Conform -------------------------------
(***************************************************************************)
(* Conformance of recorded runs of the code with the specification.        *)
(*                                                                         *)
(* A batch (environment variable BATCH) is a sequence of traces.  A trace  *)
(* module supplies                                                         *)
(*   Steps(tr)     number of transitions to judge in trace tr              *)
(*   Fails(tr, k)  what is wrong with transition k: a set of labels        *)
(* and each behaviour of TSpec walks one trace.  A trace also ends with    *)
(* tr.err: the exception that ended the run of the code, "" if none.       *)
(***************************************************************************)
EXTENDS Floats, FiniteSets, TLC

CONSTANTS Steps(_), Fails(_, _)
Batch == FReadJson(FEnv("BATCH"))
Prop == FEnv("PROP")

VARIABLES tid, at, bad
TInit == tid \in 1..Len(Batch) /\ at = 0 /\ bad = {}
TNext == /\ bad = {} /\ at <= Steps(Batch[tid])
         /\ at' = at + 1 /\ tid' = tid
         /\ bad' = IF at < Steps(Batch[tid]) THEN Fails(Batch[tid], at + 1)
                   ELSE IF Batch[tid].err = "" THEN {} ELSE {<<"exception", Batch[tid].err>>}
TSpec == TInit /\ [][TNext]_<<tid, at, bad>>
Conforms == bad = {} \/ (PrintT("FAIL " \o ToString(<<tid, at, bad>>)) /\ FALSE)
=============================================================================
