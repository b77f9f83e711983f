CONSTANTS W = 2
 Inputs <- In42
 Cut = 1
 MergeCut = 2
 Broken = "unstable"
SPECIFICATION Spec
INVARIANTS NoRace Inside StableSorted

