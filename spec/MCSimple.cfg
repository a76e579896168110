SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Decodable RoundTrip Announced
CONSTANTS
  Values = {0, 1, 3}
  Shift = 0
  MaxPts = 5
  Packings = {"simple"}
  Orders = {0}
  Octs = {1}
  Mgmts = {0}
  NBits = {0, 1, 2, 3, 5, 8, 11}
  MaxVs = {1}
