SPECIFICATION Spec
CONSTANTS MaxDim = 2
 MaxEntries = 2
 Symmetries = {"mms","mmk"}
INVARIANTS RoundTrip CutRefused MoreRefused ChangeSeen
CHECK_DEADLOCK FALSE
