CONSTANTS W = 2
 Chunks <- One
 Broken = "nowait"
 Coarse = FALSE
SPECIFICATION Spec
INVARIANTS TypeOK NoRace NoDeadUse Exact NoLeak
