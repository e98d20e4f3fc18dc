SPECIFICATION Spec
CONSTANTS MaxSteps = 30
 Soils = {1, 2, 3, 4}
 Rains = {0, 5, 10, 30, 200}
 Lengths = {60, 900, 7200, 40000}
INVARIANTS Gen
CHECK_DEADLOCK FALSE
