SPECIFICATION Spec
CONSTANTS
  Depth = 28
  MaxSubs = 3
  MaxMsgs = 2
  Nums = {0, 1, 2, 3, 4, 5, 6, 7, 8, 99}
INVARIANTS Sound Exact AfterError
CHECK_DEADLOCK FALSE
