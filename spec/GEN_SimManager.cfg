SPECIFICATION Spec
CONSTANTS
 Dts <- cDts
 Subs <- cSubs
 Retries <- cRetries
 Tols <- cTols
 Errors <- cErrors
 MinDt <- cMinDt
 MaxDt <- cMaxDt
 Coeffs <- cCoeffs
 MaxCalls = 6
INVARIANTS NoTrace TimeIsSum StepOk AttemptsBounded AcceptedOk QueuesOk ProposalOk Monotone Gen
