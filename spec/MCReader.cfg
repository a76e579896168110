SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Alphabet = {1, 2, 3, 6, 7}
INVARIANTS Faithful Position Bounds
CHECK_DEADLOCK FALSE
