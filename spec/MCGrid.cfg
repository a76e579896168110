SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxI = 4
  MaxJ = 4
INVARIANTS ClosedForm Once Inside All Adjacent Emit
