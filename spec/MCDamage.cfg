SPECIFICATION Spec
CONSTANTS
  Which = {1, 2, 3}
INVARIANTS PrefixKept CutIsError
CHECK_DEADLOCK FALSE
