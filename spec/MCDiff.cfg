SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Decodable RoundTrip Announced
CONSTANTS
  Values = {0, 3, 5}
  Shift = 3
  MaxPts = 4
  Packings = {"complex"}
  Orders = {1, 2}
  Octs = {1, 2}
  Mgmts = {0, 1, 2}
  NBits = {1}
  MaxVs = {1}
