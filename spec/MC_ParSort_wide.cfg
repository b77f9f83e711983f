CONSTANTS W = 3
 Inputs <- In53
 Cut = 1
 MergeCut = 2
 Broken = ""
SPECIFICATION Spec
INVARIANTS NoRace Inside StableSorted

