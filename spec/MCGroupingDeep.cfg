SPECIFICATION Spec
CONSTANTS
  Depth = 36
  MaxSubs = 5
  MaxMsgs = 4
  Nums = {0, 1, 2, 3, 4, 5, 6, 7, 8, 99}
INVARIANTS Sound Exact AfterError
CHECK_DEADLOCK FALSE
