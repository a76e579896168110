SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Decodable RoundTrip Announced
CONSTANTS
  Values = {1, 2, 3}
  Shift = 0
  MaxPts = 8
  Packings = {"runlength"}
  Orders = {0}
  Octs = {1}
  Mgmts = {0}
  NBits = {2, 3, 4, 9}
  MaxVs = {1, 2, 3, 5}
