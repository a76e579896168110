SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLines = 3
  Small = FALSE
INVARIANTS Same Sound Emit
