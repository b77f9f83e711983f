SPECIFICATION Spec
CONSTANTS MaxLog = 9
          Workers = {1, 2, 8}
          Sizes = {4}
          IndexBits = 12
INVARIANTS Positive Kept
PROPERTIES Ends
CHECK_DEADLOCK FALSE
