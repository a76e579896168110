SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLines = 3
  Small = TRUE
INVARIANTS Same Sound Emit
