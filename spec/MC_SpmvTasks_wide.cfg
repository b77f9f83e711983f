CONSTANTS W = 3
 Chunks <- Mixed
 Broken = ""
 Coarse = FALSE
SPECIFICATION Spec
INVARIANTS TypeOK NoRace NoDeadUse Exact NoLeak
