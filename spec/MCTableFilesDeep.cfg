SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxFiles = 2
  MaxRows = 4
INVARIANTS Same Partition Ordered Emit
PROPERTY Others
