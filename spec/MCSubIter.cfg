SPECIFICATION Spec
CONSTANTS
  Sizes = {0, 1, 2, 4}
  Depth = 4
  Args = {0, 1, 2, 1000000}
  MaxIts = 2
  Plain = {"next", "hint", "clone", "count", "last", "reborrow"}
  WithArg = {"nth", "skip"}
INVARIANTS Ascending HintExact EndStays NthIsNexts Split CollectIsNexts
CHECK_DEADLOCK FALSE
