SPECIFICATION Spec
CONSTANTS
  Sizes = {0, 1, 3, 5}
  Depth = 5
  Args = {0, 1, 3, 1000000}
  MaxIts = 2
  Plain = {"next", "hint", "clone", "count", "last", "reborrow"}
  WithArg = {"nth", "skip"}
INVARIANTS Ascending HintExact EndStays NthIsNexts Split CollectIsNexts
CHECK_DEADLOCK FALSE
