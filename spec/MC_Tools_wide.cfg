INIT Init
NEXT Next
CONSTANT M = 3
CONSTANT N = 2
CONSTANT MaxBlock = 3
INVARIANTS Back PrepareAgrees ExpandKeeps SortOnce CoverRefused
CHECK_DEADLOCK FALSE
