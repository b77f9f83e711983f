SPECIFICATION Spec
CONSTANTS MaxLog = 33
          Workers = {1, 2, 3, 8, 64}
          Sizes = {1, 4, 8}
          IndexBits = 31
INVARIANTS Positive Kept
CHECK_DEADLOCK FALSE
