SPECIFICATION Spec
CONSTANTS
  Sizes = {0, 1, 2, 6}
  Depth = 3
  Args = {0, 1, 2, 1000000}
  MaxIts = 2
  Plain = {"next", "hint", "clone", "count", "last", "collect", "each"}
  WithArg = {"nth", "skip", "drop", "take"}
INVARIANTS Ascending HintExact EndStays NthIsNexts Split CollectIsNexts
CHECK_DEADLOCK FALSE
