SPECIFICATION Spec
CONSTANTS MaxSteps = 3
 Soils = {1, 2, 3}
 Rains = {0, 5, 30, 200}
 Lengths = {300, 7200, 40000}
INVARIANTS InvSplits InvLimits InvAccumulates InvRecovers InvFollows InvHistory InvRecovered InvOpen InvAdditive InvMonotone
CHECK_DEADLOCK FALSE
