CONSTANTS W = 2
 Chunks <- One
 Broken = "notemp"
 Coarse = FALSE
SPECIFICATION Spec
INVARIANTS TypeOK NoRace NoDeadUse Exact NoLeak
