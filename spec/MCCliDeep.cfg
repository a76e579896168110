SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxMessages = 2
  MaxSubs = 2
  MaxTotal = 3
INVARIANTS Same Complete Clean Emit
PROPERTY Ends
