SPECIFICATION TSpec
CONSTANTS
 Steps <- ISteps
 Fails <- IFails
INVARIANT Conforms
