SPECIFICATION TSpec
CONSTANTS
 Steps <- LSteps
 Fails <- LFails
INVARIANT Conforms
