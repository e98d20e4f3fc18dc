SPECIFICATION TSpec
CONSTANTS
 Steps <- SSteps
 Fails <- SFails
INVARIANT Conforms
