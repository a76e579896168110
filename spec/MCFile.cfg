SPECIFICATION Spec
CONSTANTS
  MaxMsgs = 2
  Rich = FALSE
INVARIANTS RoundTrip Contiguous FromMiddle
CHECK_DEADLOCK FALSE
