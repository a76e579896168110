SPECIFICATION Spec
CONSTANTS
  Sizes = {0, 1, 3, 8}
  Depth = 3
  Args = {0, 1, 2, 3, 7, 8, 1000000}
  MaxIts = 2
  Plain = {"next", "hint", "clone", "count", "last", "collect", "each"}
  WithArg = {"nth", "skip", "drop", "take"}
INVARIANTS Ascending HintExact EndStays NthIsNexts Split CollectIsNexts
CHECK_DEADLOCK FALSE
