SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT MaxRows = 3
INVARIANTS Same Own Emit
PROPERTY Grows
