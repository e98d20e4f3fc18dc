SPECIFICATION Spec
CONSTANTS MaxOps = 5
 NModels = 2
 Tabs = {1}
 Inputs = {1, 2}
 Spins = {2}
 MaxSnaps = 2
 CopyOnSave = TRUE
 CopyOnLoad = TRUE
INVARIANTS InvModels InvSaved InvSnaps InvOwn InvTime InvCount InvReplay
CHECK_DEADLOCK FALSE
