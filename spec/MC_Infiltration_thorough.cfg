SPECIFICATION Spec
CONSTANTS MaxSteps = 5
 Soils = {1, 2, 3, 4}
 Rains = {0, 5, 10, 30, 200}
 Lengths = {60, 3600, 40000}
INVARIANTS InvSplits InvLimits InvAccumulates InvRecovers InvFollows InvHistory InvRecovered InvOpen InvAdditive InvMonotone
CHECK_DEADLOCK FALSE
