SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Decodable RoundTrip Announced
CONSTANTS
  Values = {0, 1, 5}
  Shift = 0
  MaxPts = 4
  Packings = {"complex"}
  Orders = {0}
  Octs = {1}
  Mgmts = {0, 1, 2}
  NBits = {1}
  MaxVs = {1}
