SPECIFICATION Spec
CONSTANTS
  MaxMsgs = 2
  Rich = TRUE
INVARIANTS RoundTrip Contiguous FromMiddle
CHECK_DEADLOCK FALSE
