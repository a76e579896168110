SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Unsupported = {16, 50, 52, 69, 92, 253, 1003, 65535}
  MaxProd = 58
  Mark = 165
INVARIANTS Disjoint Complete Emit
PROPERTIES Stable
