SPECIFICATION TSpec
CONSTANTS
 Steps <- NSteps
 Fails <- NFails
INVARIANT Conforms
