INIT Init
NEXT Pick
CONSTANTS MaxLog = 34
          Workers = {1, 2, 8}
          Sizes = {4, 8}
          IndexBits = 31
CHECK_DEADLOCK FALSE
