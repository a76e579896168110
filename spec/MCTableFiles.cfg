SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxFiles = 2
  MaxRows = 3
INVARIANTS Same Partition Ordered Emit
PROPERTY Others
