SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Unsupported = {16, 17, 18, 19, 21, 22, 29, 36, 39, 50, 52, 64, 65, 66, 69, 74, 75, 89, 90, 92, 253, 255, 256, 296, 999, 1003, 1099, 1102, 40033, 65535}
  MaxProd = 90
  Mark = 255
INVARIANTS Disjoint Complete Emit
PROPERTIES Stable
