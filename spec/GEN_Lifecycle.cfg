SPECIFICATION Spec
CONSTANTS MaxOps = 16
 NModels = 3
 Tabs = {1, 2}
 Inputs = {1, 2}
 Spins = {1, 3}
 MaxSnaps = 4
 CopyOnSave = TRUE
 CopyOnLoad = TRUE
INVARIANTS Gen
CHECK_DEADLOCK FALSE
