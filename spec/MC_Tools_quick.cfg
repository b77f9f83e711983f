INIT Init
NEXT Next
CONSTANT M = 2
CONSTANT N = 2
CONSTANT MaxBlock = 2
INVARIANTS Back PrepareAgrees ExpandKeeps SortOnce CoverRefused
CHECK_DEADLOCK FALSE
