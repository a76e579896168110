SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxI = 8
  MaxJ = 8
INVARIANTS ClosedForm Once Inside All Adjacent Emit
