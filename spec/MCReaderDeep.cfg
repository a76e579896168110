SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
  Alphabet = {1, 2, 3, 6, 7}
INVARIANTS Faithful Position Bounds
CHECK_DEADLOCK FALSE
