SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT MaxRows = 4
INVARIANTS Same Own Emit
PROPERTY Grows
