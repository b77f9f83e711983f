SPECIFICATION Spec
CONSTANTS MaxLog = 63
          Workers = {1, 2, 3, 5, 8, 64, 1024}
          Sizes = {1, 2, 4, 8, 12, 16}
          IndexBits = 63
INVARIANTS Positive Kept
CHECK_DEADLOCK FALSE
