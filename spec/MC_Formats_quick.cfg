SPECIFICATION Spec
CONSTANTS MaxR = 2 MaxC = 2 MaxN = 3 Vals = {0, 3} MaxBlocks = 2
INVARIANT Inv
CHECK_DEADLOCK FALSE
