CONSTANTS W = 2
 Inputs <- In62
 Cut = 1
 MergeCut = 2
 Broken = ""
SPECIFICATION Spec
INVARIANTS NoRace Inside StableSorted

