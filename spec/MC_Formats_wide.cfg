SPECIFICATION Spec
CONSTANTS MaxR = 3 MaxC = 3 MaxN = 2 Vals = {3} MaxBlocks = 3
INVARIANT Inv
CHECK_DEADLOCK FALSE
