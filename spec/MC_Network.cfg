SPECIFICATION Spec
CONSTANTS Bottoms = {0, 3}
 Offsets = {0, 1}
 EndLens <- cEnds
 Counts = {1, 2, 3}
 Sizes = {2, 3}
INVARIANTS InvChannel InvMobile InvReverse InvRenumberSj InvRenumberSl InvWriteOut InvBeside
CHECK_DEADLOCK FALSE
