CONSTANTS W = 3
 Chunks <- Small
 Broken = ""
 Coarse = FALSE
SPECIFICATION Spec
INVARIANTS TypeOK NoRace NoDeadUse Exact NoLeak
