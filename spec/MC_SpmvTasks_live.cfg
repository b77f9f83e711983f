CONSTANTS W = 2
 Chunks <- Small
 Broken = ""
 Coarse = FALSE
SPECIFICATION Fair
INVARIANTS TypeOK
PROPERTY Finishes
