SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Decodable RoundTrip Announced
CONSTANTS
  Values = {1}
  Shift = 0
  MaxPts = 9
  Packings = {"simple"}
  Orders = {0}
  Octs = {1}
  Mgmts = {0}
  NBits = {1, 3, 8}
  MaxVs = {1}
