SPECIFICATION TSpec
INVARIANT Conforms
CONSTANTS
  Steps <- HSteps
  Fails <- HFails
CHECK_DEADLOCK FALSE
