CONSTANTS W = 2
 Inputs <- In42
 Cut = 1
 MergeCut = 2
 Broken = ""
SPECIFICATION Fair
INVARIANTS NoRace Inside StableSorted
PROPERTY Finishes
